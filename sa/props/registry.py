"""property -> its checks, and the rule applied"""
VG = ("The value computed by the analysed function is extracted from the source as a gated value graph by flow-sensitive "
      "interprocedural abstract interpretation and compared with the graph of the law by value numbering over random valuations "
      "(random interpretation): ")
T_VG = "interprocedural abstract interpretation into gated value graphs, compared with the law by (randomised) global value numbering"
N_VG = ("Decided from the syntax tree of the current sources; nothing of the repository is executed. Sound up to: the hand-written "
        "models of numpy/astropy/scipy calls, opaque contracts for rebin, planck, PSF and solid-angle integrals, the stated shapes of "
        "inputs (one to three bins, listed options present or absent), and a vanishing probability that two different laws agree on "
        "every random valuation. Constructs outside the modelled language are reported as undecided, never as violations.")


def vg(checks, rule, **k):
    return dict(checks=checks, rule=VG + rule, technique=T_VG, note=N_VG, **k)


REGISTRY = {
    "C06": vg(["noise.accounting"], "the columns entering the photon noise and the maximum pixel signal, for channels with every combination of light contributions."),
    "C07": vg(["optics.chain", "optics.alone"], "instrument_signal, instrument_MaxSignal_inPixel and TR of a channel whose light crosses two payload elements and two elements of its own (one of them a slit, or boxes), for every combination of temperatures, transmissions, emissivities and solid angles."),
    "C08": vg(["diffuse.layering"], "foreground signals of three layered foregrounds, with and without their own transmission, with and without a slit."),
    "C09": vg(["stellar.check"], "starFlux, starSignal, star_signal_inAperture and star_MaxSignal_inPixel of photometers and spectrometers against the law of the stellar signal, for every combination of sky transmission, ForceChannelWlEdge and aperture corrections."),
    "C10": vg(["diffuse.signal"], "signal and maximum pixel signal of one foreground against the law of diffuse light, with and without a slit."),
    "C11": vg(["noise.budget", "noise.estimated"], "each noise column and the total noise of a channel, for the forms of custom noise of the channel and of the payload."),
    "C12": vg(["noise.readout_check", "noise.estimated"], "saturation time, frame time and the readout gains of a channel, and of all channels of a target together, with the brightest pixel they start from."),
    "C31": vg(["element.check"], "transmission, emissivity, temperature, solid angle and position of an optical element for each form of its description, and the descriptions that must be refused."),
    "C30": vg(["frg.zodiacal", "frg.mapfile"], "which sky map is read, with and without one of its own; zodiacal radiance with and without target coordinates, with the map read or unreadable, and with each option of the description present or absent."),
    "C34": vg(["frg.foregrounds"], "foregrounds and sky transmission of a target for lists of one, two and three foregrounds in different orders, for targets observed for the first time or again."),
    "C36": vg(["kernels.planck", "kernels.omega", "kernels.rebin", "kernels.dirty"], "black body, solid angle of a pixel beam and rebinning against their closed forms."),
    "C28": vg(["sources.star"], "spectrum and luminosity of black-body, gridded and custom stars, and the choice of the model nearest to the star."),
    "C14": vg(["bins.partition"], "the light collected by the bins of a channel, when wavelength samples fall exactly on the edges shared by two bins, adds up to the light between the outer edges."),
    "C27": vg(["sources.load", "sources.directory", "sources.incomplete"], "spectrum, luminosity and metadata of a target for each description of its source."),
    "C01": vg(["tasks.call", "tasks.wiring"], "the value a task returns for sequences of calls of probe tasks (all, some or none of the parameters, unknown ones, several tasks side by side). For every task and call site of the package: the parameters read are declared, the output is set on every normal path (must-analysis over the control flow), call sites give the declared parameters."),
    "C05": vg(["lists.many", "lists.isolation", "lists.plots"], "the result of observing a list of three targets whose observations (probes) fail or not, with several kinds of exception, with plots that fail or not, serial and parallel, quiet and debug."),
    "C22": vg(["lists.parallel", "lists.many", "lists.figures"], "the results of, the plots of, and the parameters given to, the observations of a list for one and several processes, the process pool being modelled by a sequential one."),
    "C21": vg(["logs.levels", "logs.spoken", "lists.level"], "the level of the log handler after sequences of calls, the messages of each level that reach the screen and the log files (stand-in logging library), and during and after the observation of lists with failing targets."),
    "C33": vg(["stacks.tables"], "the columns of stacked tables with different columns and numbers of rows, and of the table of a target observed through probe channels once and again."),
    "C02": vg(["lists.apart", "again.light", "again.diffuse_light", "again.sky", "again.star", "again.noises"], "the graphs are those of a second run on the same channels, payload and foregrounds, after a run with arbitrary other inputs (or the same), and must still be the graphs of the laws of the second run alone."),
    "C03": vg(["again.build"], "the optical path of a second channel built after an arbitrary first one from the same payload must be that of the law for the second alone."),
    "C13": vg(["build.layouts", "build.tabulated"], "the pixels and bins of photometers and spectrometers with declared, tabulated, native and missing resolution, and the descriptions that must be refused."),
    "C32": vg(["build.photometer", "build.spectrometer"], "windows, quantum efficiency, point spread function and gain of photometers and spectrometers for every combination of options."),
    "C15": vg(["targets.csv", "targets.mission", "targets.excel", "targets.qtable", "targets.other", "targets.search"], "the targets of symbolic rows of every format of list, the lists that must be refused and the search by name."),
    "C35": vg(["signals.made", "signals.shapes", "signals.rebin"], "every kind of signal built from symbolic wavelengths and data in other units and plain, the inputs that must be refused, and rebinning."),
    "C16": vg(["payload.documents"], "the dictionaries of documents covering every kind of element, value, repetition, path and file, against the meaning of the document, fresh, repeated and after other documents; the documents that must be refused."),
    "C19": vg(["pipeline.outputs"], "an output file is replaced only when asked, never when it is an input; it holds the payload and every observed target; inputs are copied beside it; observations receive what the user asked"),
    "C25": vg(["pipeline.commands", "pipeline.selections"], "each flag of the two commands has its effect and no other, with its short and its long name; figures are drawn for the targets asked for and no others"),
    "C17": vg(["store.stored"], "Every kind of entry, dictionary, spectrum, table, target and channel handed to the writer is found in the stand-in file under its name with its value and unit; additions keep what was there, files are closed and on the disk whatever happens, entries that cannot be held are refused"),
    "C24": vg(["plots.shown"], "Curves, bands and limits handed to the stand-in axes for a table and channels of symbolic values, and the table and channels afterwards"),
    "C20": vg(["online.checked"], "The check is run against a stand-in network in every state (unreachable, failing, answering something else, answering a changelog): it completes, keeps silent or tells what it must"),
    "C37": vg(["observe.chain"], "what each step of ObserveTarget receives and what the target keeps, for a first observation, the same target observed again and a second target, with and without foregrounds in either observation."),
    "C38": vg(["channels.prepared"], "BuildChannels, PreparePayload and LoadPayload run with recording builders and a stand-in output: the channels returned and stored, for one and two channels, from a dictionary, a document or a stored file."),
    "C39": vg(["psf.images", "psf.aperture"], "The pattern kernels run with stand-in files, images and convolution: pattern chosen, pixel response cell by cell, extents, interpolation of simulated patterns, aperture radius, compared with their closed forms."),
}
