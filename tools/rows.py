"""what each property is compared with, and within what bounds (for DESIGN.md)"""
ROWS = {
"C01": ("probe tasks called with all/some/none/unknown parameters, several side by side; syntax rules over every task and call site: declared ⊇ read, output set on every normal path, call sites give declared names", "sequences of ≤4 calls; every task class of the package"),
"C02": ("*history device*: the laws of C09/C10/C08/C27/C11 must still hold in a second run after a first one with arbitrary other inputs on the same objects; lists observed twice", "one earlier run"),
"C03": ("history device on `Instrument.build`: a second channel after an arbitrary first one of the same payload", "two channels, paths of ≤3 elements"),
"C05": ("three targets, each failing by a symbolic condition with 4 kinds of exception, plots failing or not, serial/parallel, quiet/debug", "3 targets"),
"C06": ("columns entering the photon noise and the brightest pixel, every subset of light contributions, names chosen to look like columns", "≤3 bins, ≤3 foregrounds"),
"C07": ("radiometric closed form of the thermal emission along the path, every mixture of temperature/transmission/emissivity/solid angle/slit/boxes", "2 payload + 2 channel elements"),
"C08": ("law of layered foregrounds with and without own transmission and slit", "3 foregrounds"),
"C09": ("radiometric law of the stellar signal incl. edges, aperture corrections, sky transmission", "≤3 bins; forced ties of samples and edges"),
"C10": ("étendue law for one diffuse source, slit or none, custom table columns", "≤3 bins"),
"C11": ("noise law for every form of custom noise of channel and payload", "≤2 custom entries each"),
"C12": ("saturation, frame time, reads, gains of one channel and of the whole target", "2 channels"),
"C13": ("pixel and bin layout from limits and resolution, native, declared and tabulated (7 tables), ascending/descending; refused descriptions", "≤3 bins, ≤4 pixels"),
"C14": ("samples forced on shared edges: the bins add up to the total", "3 bins"),
"C15": ("symbolic rows through readers of csv/excel/ecsv/QTable/mission reference sample; stand-in files", "≤4 rows"),
"C16": ("stand-in xml trees for every element, value and repetition kind, again after other documents", "documents of ≤3 levels"),
"C17": ("stand-in HDF5 file: every type of entry, nested dictionaries, tables, units, append, failure in the middle", "dictionaries of ≤3 levels"),
"C19": ("the command run against a stand-in file system/argparse for every existence/flag/kind-of-input combination", "1–3 targets"),
"C20": ("stand-in network in every state", "≤3 released versions"),
"C21": ("stand-in `logging`: handler levels and what reaches screen and files after sequences of enable/disable/set", "≤4 calls"),
"C22": ("serial result as the law of the parallel one (pool that copies arguments and results): results, names, order, parameters, plots", "1, 2 and 8 processes, 3 targets"),
"C24": ("stand-in axes: curves, bands, limits, labels; table and channels unchanged", "2 channels"),
"C25": ("stand-in argparse: each flag short and long alone and combined", "the flags of both commands"),
"C27": ("each kind of declared source, ranges in any unit, directory of the models named/environment/none", "one star"),
"C28": ("Planck, nearest model (`argmin` over parsed names), custom file", "4 model files in any order"),
"C30": ("zodiacal law with/without coordinates, map readable or not, options present or absent", "maps of ≤3 entries"),
"C31": ("element law for each form of its description (value, table, file; refused forms)", "one element"),
"C32": ("windows, QE, PSF, gain of photometers and spectrometers for every option", "≤3 bins"),
"C33": ("stack of tables with different columns/rows; two observations", "≤4 tables"),
"C34": ("foreground list in order, repeated observation", "≤3 foregrounds"),
"C35": ("unit conversion per signal kind, refusals, rebinning isolation", "any grid (symbolic), 1-D/2-D/3-D data"),
"C36": ("Planck law, pixel solid angle, rebinning closed forms grid by grid (finer, coarser, mixed, disjoint, descending)", "the grids listed in `kernels.py`"),
"C37": ("recording steps: what each receives and what the target keeps, first/again/other target", "3 observations"),
"C38": ("recording builders and stand-in output: dictionary, document, stored file, new/existing output", "1 and 2 channels"),
"C39": ("stand-in image files and convolution: pattern, pixel response cell by cell, extents, interpolation, aperture search", "small symbolic images"),
}
