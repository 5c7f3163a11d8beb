"""Text of the properties."""
PROPS = []
NA = {
    "C04": "The light kept by a rebinning is a sum of quadrature errors over the runtime grids of the spectra; no static argument in reach bounds them. The closed forms the rebinning computes are C36.",
    "C18": "Airy patterns are sampled and convolved numerically; how near the sampled energy in an aperture comes to the analytic one depends on runtime grids and on photutils' sub-pixel sums, which no static argument here bounds.",
    "C29": "What comes back from an HDF5 file (bytes for text, arrays for lists, structured arrays for tables) is decided inside h5py and astropy's serialisation, not in this source; judged from the source alone the round trip cannot be settled. The structure written is C17, and what is handed over at reloading is C38.",
}


def P(id, title, statement, over, for_, tests, files, mech, see=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, tests=tests, files=files, mech=mech, see=list(see), **{"for": for_}))


T_NUM = ("The tests compare a handful of channels of one or two configurations, mostly against stored or smoke values; a law "
         "over arbitrary spectra, efficiencies, units and grids cannot be sampled out.")

P("C06", "Every signal of a channel is counted exactly once in its noise",
  "The total photon noise of a channel is the quadrature combination of the photon noise of its stellar signal and of every diffuse signal it received, each counted once and none left out. The brightest-pixel signal that sets the saturation time is the sum of the brightest-pixel signals of exactly the same contributors. Columns that are not light contributions never enter either, whatever the sources are called and also when the noise is estimated again.",
  ["inputs", "configurations"], "any number and naming of foregrounds and instrument emission in a channel, any signals, photometers and spectrometers",
  "The tests run one payload whose foregrounds are all listed; a contributor forgotten or double counted under another combination of names changes nothing they assert.",
  ["exorad/tasks/noiseHandler.py", "exorad/models/noise.py"],
  [("photon noise of each signal column", "exorad/models/noise.py"), ("selection of the signal and maximum-signal columns", "exorad/tasks/noiseHandler.py")], ["columns of the channel table after observation"])
P("C08", "Each foreground is attenuated only by what lies in front of it",
  "The signal of a diffuse foreground reaches the detector attenuated by the transmission of every foreground listed in front of it, and by no other: not by its own, nor by those behind it. A foreground without a transmission attenuates nothing.",
  ["inputs", "configurations"], "any number of foregrounds in any order, each with or without transmission and radiance, channels with and without a slit",
  "The tests use at most two foregrounds with flat transmissions; the order dependence is invisible unless all are distinct.",
  ["exorad/tasks/foregroundHandler.py", "exorad/utils/diffuse_light_propagation.py", "exorad/models/foregrounds/skyForegrounds.py"],
  [("accumulated transmission along the list of foregrounds", "exorad/tasks/foregroundHandler.py")], ["foreground signal columns"])
P("C09", "Stellar flux and signal of a channel obey the radiometric law",
  "The star flux of a channel is the stellar irradiance through the sky at the channel's wavelengths; its signal is that irradiance times telescope area, total optical transmission and quantum efficiency converted to photo-electrons and integrated over each spectral bin, light outside the channel edges being excluded when the channel asks for it. The signal in the aperture is the signal times the aperture correction, and the brightest-pixel signal is the in-band signal spread by the point spread function.",
  ["inputs", "configurations"], "all spectra, efficiencies, transmissions, units and bin grids; photometers and spectrometers; with and without sky transmission, forced edges and aperture correction", T_NUM,
  ["exorad/models/instruments/instrument.py", "exorad/models/instruments/photometer.py", "exorad/models/instruments/spectrometer.py", "exorad/tasks/propagateLight.py"],
  [("propagation of the target's light", "exorad/models/instruments/photometer.py, spectrometer.py")], ["starFlux, starSignal, star_signal_inAperture, star_MaxSignal_inPixel columns"])
P("C10", "Diffuse light reaches each detector bin by the etendue law",
  "The signal of a diffuse source in a bin is its radiance times the solid angle of a detector pixel's view, pixel area, transmission in front of the detector and quantum efficiency, in photo-electrons per second, collected over the pixels of the bin's window; with a slit the light is spread over the width of the slit image. The brightest-pixel signal is that of one pixel, and includes the whole band that reaches it.",
  ["inputs", "configurations"], "all radiances, efficiencies, focal ratios, pixel sizes, windows and slit widths, photometers and spectrometers", T_NUM,
  ["exorad/utils/diffuse_light_propagation.py", "exorad/tasks/foregroundHandler.py", "exorad/models/instruments/photometer.py", "exorad/models/instruments/spectrometer.py"],
  [("conversion and integration of diffuse light", "exorad/utils/diffuse_light_propagation.py")], ["foreground signal and maximum signal columns"])
P("C11", "The noise budget combines every declared noise term once",
  "Each noise column is the relative noise for one hour of observation its physical law gives, and the total noise is the quadrature sum of photon noise with its margin, dark current, readout noise and every custom noise declared for the payload and for the channel. No declared source is left out or counted twice, and every one of them also appears as a column of its own.",
  ["inputs", "configurations"], "all signals, windows, margins, dark currents, read noises; channel and payload custom noise given as a number, with units, or as a function of wavelength", T_NUM,
  ["exorad/models/noise.py", "exorad/tasks/noiseHandler.py"],
  [("terms of the noise budget", "exorad/models/noise.py"), ("assembly of the total", "exorad/tasks/noiseHandler.py")], ["noise columns of the channel table"])
P("C12", "Saturation and readout timing follow from the brightest pixel",
  "The saturation time of a bin is the detector well depth over the brightest-pixel signal; the frame time of a channel is the requested one or, failing that, the declared fraction of the shortest saturation time of its bins. The read-noise and shot-noise gains are those of sampling up the ramp with the number of non-destructive reads that fit in the frame time (at least two) averaged in the declared groups.",
  ["inputs", "configurations"], "all signals, well depths and fractions, frame times, sampling rates and group sizes, with each option present or absent", T_NUM,
  ["exorad/models/noise.py", "exorad/tasks/noiseHandler.py"],
  [("saturation and frame times", "exorad/models/noise.py"), ("multiaccum gains", "exorad/models/noise.py")], ["saturation_time, frameTime, read_noise and shot noise columns"])
P("C07", "Instrument emission follows the optical path",
  "The light an instrument emits onto a channel is the sum, over every optical element of the payload and of the channel in the order in which light meets them, of the element's thermal or declared emission attenuated by every element behind it and by none in front. Light entering before a slit is spread by it and light emitted behind it is not; each element uses its own solid angle when it declares one. The transmission of the channel is the product of the transmissions of all its elements at its wavelengths, and both are sampled with the working resolution of the payload.",
  ["inputs", "configurations"], "all temperatures, emissivities, transmissions, solid angles and orders of optical elements, with and without slits and detector boxes",
  "The tests run two fixed optical chains in which several factors are one; a wrong order, factor or forgotten element is within their tolerances or never reached.",
  ["exorad/models/optics/opticalPath.py", "exorad/models/optics/opticalElement.py", "exorad/tasks/instrumentHandler.py", "exorad/models/instruments/instrument.py"],
  [("construction and propagation of the optical path", "exorad/models/optics/opticalPath.py"), ("accumulation of emission per channel", "exorad/models/instruments/instrument.py")], ["instrument_signal, instrument_MaxSignal_inPixel and TR columns"])
P("C30", "The zodiacal light is the declared multiple of the standard model",
  "The zodiacal radiance is the sum of two greybodies of fixed strengths and temperatures scaled by one factor: the coefficient of the sky-map entry nearest to the target when the payload asks for the map and the target has coordinates, the declared factor when there is one, and zero otherwise. A map that cannot be read never leaves the model undefined: the declared factor is used.",
  ["inputs", "configurations", "fault_sequences"], "all factors, target coordinates, map contents, with each option present or absent and the map readable or not",
  "The tests evaluate two factors on one grid, and never with an unreadable map.",
  ["exorad/models/foregrounds/zodiacalForeground.py"], [("choice of the factor and radiance", "exorad/models/foregrounds/zodiacalForeground.py")], ["zodiacal foreground of a target"])
P("C31", "An optical element is what its description says",
  "The transmission, emissivity, temperature, solid angle and position of an optical element are those of its description: a number holds at every wavelength, a data column is followed in wavelength with its own units, an efficiency or reflectivity is used as the transmission when there is none, and what is not declared takes the documented default. A description missing what is needed is refused.",
  ["inputs", "configurations"], "every combination of declared attributes and data columns, any units of wavelength",
  "The tests build two or three elements; the forms of description multiply and each is only read in its own branch.",
  ["exorad/models/optics/opticalElement.py"], [("reading of each attribute of the description", "exorad/models/optics/opticalElement.py")], ["optical element attributes"])
P("C34", "A target sees every foreground of the payload, in order",
  "A target is given exactly the foregrounds the payload lists, each with its own radiance and transmission over the requested wavelength range, sampled with the working resolution of the payload, in the order of the list. The sky transmission of the target is the product of the transmissions of all of them, also when the target was observed before.",
  ["inputs", "histories", "configurations"], "any list of foregrounds in any order, any spectra, targets observed for the first time or again",
  "The tests use one order of one or two foregrounds and a fresh target every time.",
  ["exorad/tasks/foregroundHandler.py", "exorad/models/foregrounds/skyForegrounds.py"], [("estimate of each foreground and accumulation of the sky transmission", "exorad/tasks/foregroundHandler.py")], ["target.foreground, target.skyTransmission"])
P("C27", "A target is given the source its description asks for",
  "The spectrum of a target follows the source its payload declares: a black body, a spectrum read from a file, a gridded one of the directory it names (of the environment when it names none), or the one chosen per target, with the star's own temperature, radius and distance. It is sampled, with the working resolution of the payload, over the wavelengths the payload observes, and its luminosity and model are recorded with it; a source of no known kind is a black body, and a star whose parameters carry no units is refused.",
  ["inputs", "configurations"], "every kind of source declared in the payload or the target list, any stellar parameters and wavelength range",
  "The tests load one star per kind of source; a parameter taken from the wrong place differs from the right one only when both are given.",
  ["exorad/tasks/loadSource.py"], [("choice and construction of the source", "exorad/tasks/loadSource.py")], ["target.star spectrum, luminosity, metadata"])
P("C28", "A star's spectrum is the one its model prescribes",
  "The irradiance of a star at the telescope is its surface spectrum scaled by the squared ratio of its radius and its distance: the Planck law for a black body, the nearest gridded model in temperature, gravity and metallicity otherwise, the data of the file for a custom one. Its luminosity is that of its temperature and radius, and a gridded spectrum is the one whose parameters are nearest to the star's.",
  ["inputs", "configurations"], "all temperatures, radii, distances, gravities and metallicities; any set of gridded models in any order; files in any units", T_NUM,
  ["exorad/models/source.py"], [("Star and CustomSed models", "exorad/models/source.py")], ["star spectrum and luminosity"])
P("C35", "A signal is physical: converted to the unit of its kind, or refused",
  "A signal, spectral energy distribution, radiance or count rate holds the wavelengths and the data it was given, converted from whatever unit to micron and to the unit of its kind; plain numbers are taken in those units. Wavelengths or data that measure something else, data that do not match the wavelengths, and grids with more than one axis are refused. Rebinning a signal leaves the new grid and the resampled data, zero where there are none, and does not touch any other signal made of the same data.",
  ["inputs"], "any wavelengths, data and units, for each kind of signal",
  "The tests build a few signals of given numbers and rebin none between units.",
  ["exorad/models/signal.py"],
  [("units and refusals", "exorad/models/signal.py check_quantities, check_sizes"), ("rebinning", "exorad/models/signal.py spectral_rebin")],
  ["wl_grid, data and time_grid of a signal"])
P("C36", "The numerical kernels compute their documented closed forms",
  "The black-body radiance is Planck's law in the wavelength units it is given; the solid angle of a pixel's beam is that of the cone of the given focal ratio, including the anamorphic case; and rebinning onto a coarser grid averages, onto a finer grid interpolates, and returns nothing outside the data; coordinates that are missing or repeated are left out with their values.",
  ["inputs"], "all wavelengths, temperatures, focal ratios and grids within the sampled shapes", T_NUM,
  ["exorad/utils/exolib.py"], [("planck, OmegaPix, rebin", "exorad/utils/exolib.py")], ["values of the kernels"])
P("C14", "Light on a bin edge is shared out once",
  "The spectral bins of a channel partition its band: a wavelength sample that falls on the edge shared by two neighbouring bins is collected by one of them and not by both, so that the light of the bins adds up to the light between the outer edges of the channel.",
  ["inputs"], "any bin edges, including wavelength samples falling exactly on them; photometers and spectrometers",
  "No test has a sample exactly on an edge; doubling one sample shifts the totals by less than any tolerance used.",
  ["exorad/models/instruments/photometer.py", "exorad/models/instruments/spectrometer.py", "exorad/utils/diffuse_light_propagation.py"],
  [("selection of the samples of a bin", "exorad/utils/diffuse_light_propagation.py, exorad/models/instruments")], ["signal columns of neighbouring bins"])
P("C01", "A task runs with exactly the parameters of its own call",
  "Calling a task runs it with the parameters of that call: those given take the given values, those left out take their declared default or none, never a value from an earlier call or from another task, and the caller's own dictionary is left alone. A parameter the task does not declare is refused before it runs. A task gives back the output of that run, on every path, and every place in the package that calls a task gives it the parameters it declares.",
  ["histories", "inputs", "configurations"], "any sequence of calls on any number of tasks, with any subset of parameters, including refused calls; every task and every call of a task in the package",
  "The tests call each task once with all its parameters; leakage between calls or tasks needs repeated, partial or refused calls.",
  ["exorad/tasks/task.py", "exorad/tasks"], [("parameter binding and output of a task", "exorad/tasks/task.py"), ("declarations and call sites", "exorad/tasks, exorad/pipeline")], ["value returned by a task"])
P("C05", "A target that fails never takes the others with it",
  "Observing a list of targets gives back every target whose observation succeeds, with its own result, and leaves out exactly those whose observation fails, whatever the failure, whichever and however many fail, in serial and in parallel, in quiet and debug mode. A plot that cannot be drawn loses no target.",
  ["fault_sequences", "inputs"], "any subset of failing targets, any exception, plots failing or not, serial and parallel execution",
  "The tests observe lists in which everything succeeds.",
  ["exorad/tasks/targetHandler.py"], [("isolation of each observation", "exorad/tasks/targetHandler.py pipeline_to_dict, ObserveTargetlist")], ["dictionary of observed targets"])
P("C22", "Parallel observation gives the serial result",
  "Observing a list of targets with several processes gives the same targets under the same names with the same results as observing them one by one: each target is observed once, with the payload, channels, wavelength range and options it would be given in series.",
  ["schedules", "inputs"], "any number of processes, failing and succeeding targets, quiet and debug mode",
  "The tests never run the parallel branch against the serial one with options that differ.",
  ["exorad/tasks/targetHandler.py"], [("the serial and the parallel branch", "exorad/tasks/targetHandler.py ObserveTargetlist")], ["dictionary of observed targets"])
P("C15", "A target list gives one target per row, with every column in its declared unit",
  "Each row of a target list becomes one target, in order and numbered from 0, whatever the format: its star, and its planet if the list describes planets, have the text and the values of that row under the names of the columns, in the units the columns declare (or as plain values when they declare none); the target has the name of the planet, or of the star when there is none. The column names and units of the mission lists are translated, error columns left out and decimal commas understood. Tables in memory must hold quantities; other formats are refused. Searching by name finds all the targets whose star or planet matches, and only those.",
  ["inputs", "configurations"], "any rows, values, order of the columns and format (csv, mission csv, spreadsheet, table in memory), with and without planets and units",
  "The tests load one csv file with two stars, no planets and no other format.",
  ["exorad/models/targetlist.py", "exorad/tasks/targetHandler.py"],
  [("formats of the lists", "exorad/tasks/targetHandler.py LoadTargetList.execute"), ("one target per row", "exorad/models/targetlist.py create_target_list"), ("search by name", "exorad/models/targetlist.py searchTarget")],
  ["target of a target list", "searchTarget"])
P("C16", "A payload description is loaded as its document says",
  "Loading an xml description gives a dictionary with the same tree: the attributes of each element, its nested elements, and its text as a value: a number if it reads as one, a quantity when the element declares a unit, True or False, or plain text otherwise; elements without text have no value. Elements repeated under one tag are all kept, in order, under their own values. The configuration path given by the caller, or else by the document, replaces its placeholder wherever it appears. Data files, dictionaries and configurations are read from the paths the document gives and attached where it names them. Missing documents and formats that are not known are refused, and loading depends on nothing loaded before.",
  ["inputs", "histories"], "any tree of elements, values, units, repetitions and files",
  "The tests load one or two example documents and look at few of their entries.",
  ["exorad/tasks/loadOptions.py"],
  [("tree of values", "exorad/tasks/loadOptions.py __parser__"), ("files and dictionaries", "exorad/tasks/loadOptions.py __read_datatable__, __read_datadict__")],
  ["the dictionary returned by LoadOptions"])
P("C21", "Logging is muted and restored to the level the user chose",
  "The level of the log shown to the user is the last one asked for. Quiet observation mutes everything below errors while a target is observed, whatever the outcome, and afterwards the level is the one asked for; muting twice, or unmuting twice, changes nothing of this. In debug mode nothing is muted.",
  ["histories", "fault_sequences"], "any sequence of setting, muting and restoring the level; lists of succeeding and failing targets",
  "No test looks at the level of the log.",
  ["exorad/log/__init__.py", "exorad/tasks/targetHandler.py"], [("setLogLevel, disableLogging, enableLogging", "exorad/log/__init__.py"), ("muting around an observation", "exorad/tasks/targetHandler.py pipeline_to_dict")], ["level of the handler of the exorad logger"])
P("C33", "The table of a target holds every channel's rows and columns, in order",
  "The table of a target lists the bins of every channel, channel by channel in the order of the payload, and each row carries the values computed for that bin of that channel, with their units, in every column. A column only some channels have is zero for the others. Observing again replaces the columns instead of duplicating them, and building the table leaves the tables of the channels as they were.",
  ["inputs", "histories", "configurations"], "any number of channels with any number of bins and different columns, observed once or repeatedly",
  "The tests stack two tables with the same columns; order, missing columns and repeated observation do not appear in them.",
  ["exorad/utils/util.py", "exorad/tasks/targetHandler.py", "exorad/tasks/instrumentHandler.py", "exorad/tasks/propagateLight.py"],
  [("stacking of the channel tables", "exorad/utils/util.py vstack_tables"), ("joining of new columns", "exorad/tasks/targetHandler.py UpdateTargetTable")], ["target.table"])
P("C02", "Observing a target leaves no trace on the next observation",
  "The stellar signal, foregrounds, sky transmission, source and noise of a target are those of its own description, whatever was observed before it with the same channels, payload and foregrounds: another target, or the same one. An earlier observation never changes the efficiencies, spectra, foregrounds or options a later one uses.",
  ["histories", "inputs"], "any earlier target and any target, any configuration of channels and payload, sky transmissions, foregrounds and sources present or absent in either",
  "The tests observe each target with freshly built channels, or compare nothing after the first observation.",
  ["exorad/models/instruments", "exorad/tasks/foregroundHandler.py", "exorad/tasks/loadSource.py", "exorad/tasks/noiseHandler.py", "exorad/models/foregrounds"],
  [("copies of the spectra stored in channels and targets before they are resampled or attenuated", "exorad/models/instruments/instrument.py"), ("payload read, not written, by the tasks", "exorad/tasks")], ["target.table of the later observation"])
P("C03", "A channel does not depend on the channels built before it",
  "The optical path, emission and transmission of a channel follow from the payload and its own description, whatever channels were built before it from the same payload and whatever their elements.",
  ["histories", "configurations"], "any pair of channels sharing a payload, common elements and elements of the same name included",
  "The tests build channels of one payload in one order and compare none of them with the same channel built alone.",
  ["exorad/models/optics/opticalPath.py", "exorad/models/optics/opticalElement.py", "exorad/models/instruments/instrument.py"],
  [("optical elements of the payload read anew for each channel", "exorad/models/optics/opticalPath.py")], ["instrument_signal, TR of the channel built second"])
P("C13", "Bins and pixels of a channel follow its declared limits and resolution",
  "The bins of a spectrometer start at its lower wavelength, are contiguous, grow by the declared resolving power and reach beyond its upper wavelength; with native resolution there is one bin per pixel, in order of wavelength. A tabulated resolving power is followed from edge to edge, and a last bin that would lie mostly beyond the upper wavelength is left out, the one before it ending there. The pixels sample the detector between the positions of the two limits in steps of the pixel size, each with the wavelength and bandwidth the wavelength solution gives. A photometer has one bin with exactly the declared limits. A resolution or wavelength solution that cannot be used is refused.",
  ["inputs", "configurations"], "any limits, pixel size, resolving power and wavelength solution, rising or falling along the detector, in any units",
  "The tests build the channels of one payload and check how many bins one of them has.",
  ["exorad/models/instruments/spectrometer.py", "exorad/models/instruments/photometer.py"],
  [("bins of a channel", "exorad/models/instruments/spectrometer.py _wavelength_table, exorad/models/instruments/photometer.py _wavelength_table"), ("pixels of a spectrometer", "exorad/models/instruments/spectrometer.py builder")],
  ["Wavelength, Bandwidth, LeftBinEdge and RightBinEdge of a channel"])
P("C32", "Windows, quantum efficiency and pixel gain of a channel follow its description",
  "The window of a bin has the size its description asks for: from the aperture radius or encircled energy of a photometer; from the pixels its bin covers and the spatial extent of the beam, scaled or fixed as declared, for a spectrometer. The quantum efficiency of a bin is that of the detector at its wavelength, zero outside its range, sampled with the working resolution of the payload. The fraction of light on the brightest pixel follows from the point spread function of the declared format and file and from the wavefront error.",
  ["inputs", "configurations"], "any aperture, f-numbers, pixel size, point spread function, wavefront error, encircled energy solution and quantum efficiency, every combination of options, in any units",
  "The tests build one payload with fixed apertures and compare no window, efficiency or gain with its law.",
  ["exorad/models/instruments/spectrometer.py", "exorad/models/instruments/photometer.py", "exorad/models/instruments/instrument.py"],
  [("photometric windows", "exorad/models/instruments/photometer.py _windows_size, exorad/models/instruments/spectrometer.py builder"), ("quantum efficiency", "exorad/models/instruments/instrument.py _get_qe"), ("gain of the point spread function", "exorad/models/instruments/spectrometer.py builder")],
  ["QE and WindowSize of a channel, gain_prf_data"])
P("C19", "An output file is replaced only when asked and holds one run complete",
  "A run that is given an output file replaces an earlier one unless told to keep it, and never removes, replaces or changes one of its own inputs, under whatever name: it refuses. Afterwards the file holds the payload and every target that was observed, once, besides what was kept. The inputs that are files are copied beside it, and inputs that already are there do not stop the run. Without an output file the disk is not touched. The observations get the payload, channels, wavelength range and settings that were given; the contributions of the instrument replace their sum only when asked for.",
  ["inputs", "crashes", "configurations"], "any presence of the output file and its directory, any aliasing between inputs and output, inputs beside the output or elsewhere, payloads given as files or dictionaries, any settings and targets",
  "The tests run the pipeline once, into a fresh directory.",
  ["exorad/exorad.py", "exorad/tasks/instrumentHandler.py"],
  [("removal of the output file", "exorad/exorad.py standard_pipeline"), ("copies of the inputs", "exorad/exorad.py standard_pipeline"), ("writing of the payload", "exorad/tasks/instrumentHandler.py PreparePayload")],
  ["the output file and its directory", "the inputs on the disk"])
P("C25", "The flags of the commands do what they say",
  "Each flag of exorad, by its short or long name, sets the one thing it stands for and nothing else: payload, target list, output file, full contributions, number of processes, debug messages, log file, plots. A command line without a payload or a target list runs nothing. exorad-plot draws the targets asked for by number, by range or by name, each under its own name, and all of them when nothing is asked; it refuses number and name together, creates the directory it needs and does not change the file it reads.",
  ["inputs", "configurations"], "any combination of the flags, short and long names, any targets; ranges and lists of numbers as listed",
  "No test runs either command.",
  ["exorad/exorad.py", "exorad/utils/plotter.py", "exorad/utils/util.py"],
  [("flags of the run", "exorad/exorad.py main"), ("flags and selection of the plots", "exorad/utils/plotter.py main, exorad/utils/util.py parse_range")],
  ["parameters of the run", "figures in the output directory"])
P("C17", "An output file holds what was handed to it, under its names and with its units",
  "Numbers, quantities, texts, lists, nested dictionaries, spectra, tables, targets and channels handed to the writer are found in the file under their names, with their values and units, whatever their numeric type, length or alphabet; what was handed over is left unchanged. Adding to a file keeps what it held, writing anew replaces it. An entry that cannot be held is refused with an error, never dropped. The file is closed and complete on the disk up to the last entry, also when the writing is interrupted by an error.",
  ["inputs", "crashes"], "any values, units and names of the entries; the kinds of entries, nestings and steps of writing that are listed",
  "The tests write one run and check that it does not fail.",
  ["exorad/output/hdf5/hdf5.py", "exorad/output/hdf5/util.py", "exorad/output/output.py", "exorad/models/target.py", "exorad/models/instruments/instrument.py"],
  [("writer of entries", "exorad/output/hdf5/util.py store_thing"), ("writer of tables", "exorad/output/hdf5/hdf5.py write_table"), ("files", "exorad/output/hdf5/hdf5.py HDF5Output")],
  ["groups and datasets of the output file"])
P("C24", "The plots show what the table and channels hold and change neither",
  "The curves of a signal or noise plot are the columns of the table against its wavelengths: signals as they are, noise relative to the signal of the star at the root of an hour, whether it is tabulated so or in counts. The efficiency plot shows for each channel its transmission, its quantum efficiency and their product at the wavelengths of the transmission. The bands go from the least left edge to the greatest right edge of the bins of each channel. Table and channels are not changed. A figure is saved under the name asked, and one that was not made is an error message, not a failure.",
  ["inputs"], "any values in a table of two channels and several signal and noise columns, two channels with efficiencies on different grids and units",
  "No test looks at a plot.",
  ["exorad/utils/plotter.py"],
  [("curves and bands", "exorad/utils/plotter.py plot_signal, plot_noise, plot_bands, plot_table"), ("efficiency", "exorad/utils/plotter.py plot_efficiency"), ("files", "exorad/utils/plotter.py save_fig")],
  ["figures of exorad-plot and of the --plot flag"])
P("C37", "Observing a target runs every step on what that observation was given",
  "Observing a target prepares its table, adds the light of the foregrounds of the payload when it lists any, loads the star's spectrum, propagates it through the channels and estimates the noise, each step with the payload, channels and wavelength range of that observation. Every step sees the results of the steps it depends on, and nothing is left over from an earlier observation of the same or of another target.",
  ["histories", "inputs", "configurations"], "any payload, channels and range; targets observed first, again, or after another target; with and without foregrounds in either observation",
  "The tests observe fresh targets with one payload and do not look at what the steps were given.",
  ["exorad/tasks/targetHandler.py"], [("chain of steps", "exorad/tasks/targetHandler.py ObserveTarget")], ["tables and attributes of observed targets"])
P("C38", "Every channel of a payload is built once, as its class, and kept or read back",
  "Preparing a payload gives one channel per description, in the order of the document and under its name, of the class it declares (in any capitals), built once from its own description with the whole payload, whether there is one channel or several and whatever payload was prepared before. When an output is given the payload and each channel's table, description and build are added to it without removing what it holds; a stored payload gives the stored channels back without building them again. The range of wavelengths is that of the payload. Files of other kinds, unknown classes and a second build of a loaded channel are refused.",
  ["inputs", "configurations", "histories"], "payloads of one and two channels with any values, as dictionary, document or stored file; with no output, a new one, or one that holds other things",
  "The tests prepare one payload with an output file and look at its channels' types.",
  ["exorad/tasks/instrumentHandler.py", "exorad/models/instruments/instrument.py"],
  [("channels of a payload", "exorad/tasks/instrumentHandler.py BuildChannels, BuildInstrument"), ("payload stored and read back", "exorad/tasks/instrumentHandler.py PreparePayload, LoadPayload")],
  ["channels and files of a payload"])
P("C04", "Rebinning a spectrum keeps its light",
  "When a spectrum is rebinned from a fine to a coarse grid the integral over any range of the coarse grid equals that of the original spectrum, to the tolerance of the quadrature.",
  ["inputs"], "any spectrum and pair of grids",
  "The tests rebin one black body on two grids.",
  ["exorad/models/signal.py", "exorad/utils/exolib.py"], [("rebinning", "exorad/models/signal.py spectral_rebin")], ["spectra on the grid of a channel"])
P("C18", "The light in an aperture is that of the telescope's diffraction pattern",
  "The image of a star formed for a focal ratio, pixel size and wavelength contains, in the aperture of the photometer, the share of the light that the Airy pattern of that telescope puts there.",
  ["inputs"], "any focal ratios, pixels, wavelengths and apertures",
  "The tests only look at the shape and sum of one image.",
  ["exorad/utils/exolib.py"], [("diffraction patterns", "exorad/utils/exolib.py OmegaPix, binnedPSF, pixel_based_psf")], ["aperture corrections"])
P("C29", "A payload stored in a file and read back observes like the original",
  "Observing a target with the payload and channels read back from an output file gives the results of the payload that was stored.",
  ["histories"], "any payload",
  "The tests load a stored payload but observe no target with it.",
  ["exorad/tasks/instrumentHandler.py", "exorad/output/hdf5/util.py"], [("reading back", "exorad/output/hdf5/util.py recursively_read_dict_contents")], ["observation from stored payloads"])
P("C39", "The image of a star on the pixels is the declared pattern seen through a pixel",
  "The pattern is the file declared, or the one of the directory nearest in wavelength, or the normalised Airy pattern when none is declared or found; a simulated file is read at its wavelength, or interpolated between the two nearest and extended beyond its range, and refused when it holds a single other one. The pattern is convolved with a pixel whose response sums to its size in samples along each axis (whole samples in full, the rest shared between the two sides), the sides of the image follow from the focal ratios, and the aperture holding a share of the light is the one at which the light enclosed reaches it. Patterns given for the pixels themselves are used as they are.",
  ["inputs", "configurations"], "any images; focal ratios, pixel sizes, samplings, wavelengths and apertures of the cases listed, plain or in a table of one channel",
  "The tests build one photometer with the Airy pattern and look at what comes out.",
  ["exorad/utils/exolib.py"],
  [("pattern of a star", "exorad/utils/exolib.py binnedPSF, pixel_based_psf, paosPSF"), ("aperture", "exorad/utils/exolib.py find_aperture_radius, encircled_energy")],
  ["PRF, pixel response and window sizes of channels"])
P("C20", "The check for a newer version neither prevents the import nor misinforms",
  "Importing ExoRad looks up the changelog online. Without network, without answer, or with any answer that is no changelog, it stays silent and fails nowhere; it waits no longer than a timeout of its own and leaves the timeout and connections of the process alone. With a changelog it warns exactly when the newest released version is another one, and tells all the entries above the one of the version installed and none below; only when asked to does it raise an error then.",
  ["inputs", "fault_sequences"], "the states of the network and kinds of answers listed; a changelog with versions that contain each other",
  "The tests run without network, so they only see the check that finds none.",
  ["exorad/utils/version_control.py"],
  [("questions over the network", "exorad/utils/version_control.py get_content, _check_internet"), ("reading of the changelog", "exorad/utils/version_control.py get_message")],
  ["import of exorad, warnings on the screen"])
