"""Source of properties.jsonl (python3 tools/props.py > properties.jsonl)."""
import json

P = []


def p(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": ["resistics/" + f for f in files], "mechanism": [{"name": mech, "where": ", ".join("resistics/" + f for f in files)}]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over.split(), "text": qtext}, "why_tests_cant": why, "anchors": a})


p("P01", "Processing never changes the data it is given",
  "Running a processing step, writer, reader, query or conversion never changes the data, metadata, history, dictionaries or configuration passed to it, nor the step's own configuration. "
  "The same input can therefore be given to any number of steps in any order with the same results, and only operations whose stated purpose is to change an object (assigning a channel, adding a history record, stamping file information while writing) may do so. "
  "A copy, a sub-section and the result of a time-domain or spectral step share no storage with what they were made from, so changing one later leaves the other as it was.",
  "inputs histories", "every public operation, every input object and every sequence of operations on shared objects",
  "The tests compare outputs of single calls and almost never re-inspect the inputs; aliasing shows only when an object is reused after a later step.",
  ["time.py", "decimate.py", "window.py", "spectra.py", "calibrate.py", "gather.py", "regression.py", "transfunc.py", "common.py", "letsgo.py"],
  "copies taken before metadata, histories and arrays are extended or overwritten")
p("P02", "Every result carries its input's history plus its own record",
  "The metadata produced by each processing step carries the complete processing history of its input followed by a record of that step naming it and its parameters, never fewer, more or foreign records. "
  "Data readers append one record of the read to the history stored with the data, and reading metadata alone adds none.",
  "inputs histories", "every processing step, reader and writer, and every chain of them",
  "Tests check numbers of channels or values after a step; the history is only sampled for a few single steps.",
  ["common.py", "time.py", "decimate.py", "window.py", "spectra.py", "calibrate.py", "gather.py"],
  "records built by each process and appended to a copy of the history on construction of the new object")
p("P03", "What the writers store is what the readers load",
  "For time data, decimated data, windowed data and spectra, writing in the binary format to a directory and reading it back with the matching reader gives the same channels, levels, array contents and metadata. "
  "The file names, array keys, level order and metadata layout used on one side are the ones used on the other.",
  "inputs histories", "all data objects, any number of levels and channels",
  "Round trips are not part of the reliable test set and a sampled round trip fixes one number of levels and channels.",
  ["time.py", "decimate.py", "window.py", "spectra.py", "common.py"],
  "numpy files and metadata.json written and read under agreed names")
p("P04", "Every project product has its own predictable location",
  "Time data, spectra, evaluation-frequency spectra, masks, features, calibration data and results are each stored at a location determined only by the project, the site, the measurement, the sampling frequency and the configuration name, as documented. "
  "Whatever one stage stores is looked for in that same location by every later stage.",
  "inputs configurations", "all site, measurement and configuration names and sampling frequencies",
  "Path functions are exercised with one name each; a stage writing in one place and reading in another shows only in a full project run.",
  ["project.py", "letsgo.py", "common.py", "gather.py"],
  "path helpers shared by the writing and reading stages")
p("P05", "Nothing is overwritten unless overwriting was allowed",
  "A writer whose destination directory already exists refuses with an error and touches nothing unless overwriting is switched on. "
  "Where the destination does not exist it is created, including missing parents, before any file is written.",
  "inputs configurations", "every writer, every state of the destination",
  "Needs every writer in every state of the file system; tests use fresh temporary directories.",
  ["common.py", "time.py", "decimate.py", "window.py", "spectra.py"],
  "a directory check shared by all writers before the first write")
p("P06", "Time metadata always describes the data it accompanies",
  "After any time-domain step the number of samples, sampling frequency, first and last times and channel list in the metadata are those of the data array: the last time is the first time plus (samples - 1) sampling periods and the channel order indexes the array rows. "
  "Steps that change the sampling (sub-sections, decimation, resampling, shifting) derive all of them from the same change.",
  "inputs histories", "every time-domain step, every data length, rate and shift",
  "Unit tests sample one rate and length per step; a mismatch by one sample only shows for particular rates or at the ends.",
  ["time.py"], "metadata adjusted from sampling frequency, first time and number of samples")
p("P07", "Reading part of a recording returns exactly that part",
  "Reading a recording between two times or two samples returns exactly the samples from the first at or after the start to the last at or before the end, both included, clipped to the recording. "
  "Samples come from the stated channel and position, scaled once, and the returned metadata describes the returned part.",
  "inputs", "every pair of times or samples, every recording and every time-data reader",
  "Off-by-one errors at range ends appear only for requested times that do or do not coincide with a sample.",
  ["time.py", "sampling.py"], "sample range resolved once and applied to both the arrays and the metadata")
p("P08", "Sample numbers and times convert consistently",
  "Sample n of a recording is at its first time plus n sampling periods, a duration spans (duration times sampling frequency + 1) samples, and a time range covers the samples from the first at or after its start to the last at or before its end. "
  "Requests outside the recording are rejected, and requests that only partly overlap are clipped to it.",
  "inputs", "all sampling frequencies, first times, samples and time ranges",
  "Tests use round sampling rates and exactly aligned times; the rounding direction matters only for unaligned ones.",
  ["sampling.py"], "one set of conversion functions with explicit rounding direction")
p("P09", "Timestamps keep all their digits through every conversion",
  "Converting a time between text, standard datetimes, data-frame timestamps and the high-resolution type keeps every field the source can carry, down to the smallest unit of the text form for text and to nanoseconds otherwise. "
  "Text written by the package is read back as the same time, and durations keep days, seconds, microseconds and nanoseconds.",
  "inputs", "all representable times and durations in each accepted type",
  "Tests sample a few times with zero sub-microsecond parts.",
  ["sampling.py"], "one text format for writing and parsing and field-by-field construction")
p("P10", "Time-domain processing treats each channel by its own rule",
  "Each time-domain step (mean removal, adding, multiplying, scaling, interpolation over gaps, normalising by gain or dipole length, applying functions, joining) applies its documented operation to every channel separately, leaves channels it was not asked to change untouched, and combines per-channel parameters with the channel they were given for.",
  "inputs configurations", "all channel sets, orders and per-channel or global parameters",
  "Cross-channel mixing shows only with several channels in an unusual order or with partial parameter maps.",
  ["time.py"], "row operations addressed through the channel order of the metadata")
p("P11", "Filters are applied with the cut-offs the user asked for",
  "Low-pass, high-pass, band-pass and notch filters normalise the requested cut-offs by the Nyquist frequency of the data being filtered, filter every channel along time with the requested type, order and phase behaviour, and reject cut-offs that are outside the data's band or inconsistent.",
  "inputs configurations", "all cut-offs, orders and sampling frequencies",
  "A wrong normalisation is right for some rate; tests for the filters are not in the reliable set.",
  ["time.py"], "cut-offs divided by half of the sampling frequency, then zero-phase or causal filtering along the time axis")
p("P12", "Decimation levels and evaluation frequencies follow one rule",
  "From the sampling frequency and the set-up, the evaluation frequencies are those requested or start at a quarter of the sampling frequency and fall by a constant factor, they are assigned to levels in order with the requested number per level, and each level's decimation factor is the largest power of the division factor that keeps its highest evaluation frequency at or below a quarter of that level's sampling frequency. "
  "Looking up a level, frequency, factor or period returns the value assigned there and rejects indices outside the set-up.",
  "inputs configurations", "all sampling frequencies, numbers of levels, per-level counts and factors",
  "Tests check two or three set-ups; the interplay of truncation, levels and factors is arithmetic over all of them.",
  ["decimate.py"], "one computation of the evaluation-frequency table shared by all later stages")
p("P13", "Each decimated level is the same recording at its stated rate",
  "Level by level, decimated data are obtained from the previous level by the factor between the two levels, and the metadata of each level gives that level's sampling frequency, number of samples, first time and last time. "
  "Decimation stops at the number of levels asked for or where too few samples remain, and every per-level list in the metadata has exactly one entry for each level produced.",
  "inputs configurations", "all recordings, factors and numbers of levels",
  "Needs recordings that run out of samples at each possible level.",
  ["decimate.py", "time.py"], "loop over levels that filters, re-rates and records the level")
p("P14", "Windows of the same index cover the same time everywhere",
  "Window k starts at the reference time plus k times (window size - overlap) samples and spans window-size samples, for every recording sharing the reference time and set-up, so that equal indices in different measurements and sites mean the same time. "
  "The first window of a recording is the first that starts at or after its first sample and the last is the last that ends inside it.",
  "inputs configurations histories", "all reference times, recordings, window sizes and overlaps",
  "Tests sample aligned and one unaligned start; cross-measurement agreement needs pairs of recordings.",
  ["window.py", "sampling.py"], "index arithmetic shared by the windower and all lookups")
p("P15", "Windowed data hold the stated windows and describe them truthfully",
  "For each level the windowed data contain, for every channel, exactly the samples of the windows reported in the metadata (count, size, overlap, index offset from the reference time), and windowing stops at the first level with fewer than the minimum number of windows. "
  "Window sizes and overlaps are those requested or derived from the level's sampling frequency with the documented minima.",
  "inputs configurations", "all levels, window sizes, overlaps and recordings",
  "Only particular lengths leave a remainder or stop early; windower tests are not in the reliable set.",
  ["window.py"], "sliding windows built from the first window's sample and the increment")
p("P16", "Out-of-range channels, levels and windows are refused, never misread",
  "Asking any data object for a channel, level, window, or frequency it does not have raises an error, and asking for one it has returns the slice belonging to exactly that channel, level and window. "
  "A request by global window index returns the same window as the equivalent local request.",
  "inputs", "every data object and every index or channel name",
  "Tests ask for valid entries; a negative or off-by-one index silently reads another window.",
  ["time.py", "decimate.py", "window.py", "spectra.py", "common.py", "gather.py"],
  "bounds checks before array indexing through the channel order")
p("P17", "Spectra, frequencies and evaluation frequencies stay aligned",
  "The Fourier transform is taken over the samples of each window after the configured detrending and tapering, its bins are labelled with the frequencies of that level's sampling frequency and window length, and the spectra at evaluation frequencies are interpolated at exactly the evaluation frequencies of that level. "
  "Smoothing uses the configured width and keeps the number and order of windows, channels and frequencies.",
  "inputs configurations", "all windows, levels, window functions and evaluation-frequency tables",
  "Misalignment between array axes and frequency labels is invisible in single-level shape tests.",
  ["spectra.py"], "real FFT along the sample axis, with frequencies derived from the level metadata")
p("P18", "Calibration removes the instrument response of the right channel",
  "Calibration replaces each targeted channel's spectra by the same spectra divided by that channel's own sensor response, interpolated at the spectra's frequencies and extended to untreated frequencies as documented, and leaves every other channel unchanged. "
  "A channel without calibration data is left as it is and the failure is not silently applied to another channel.",
  "inputs configurations", "all channels, sensors, serials, choppers, levels and frequencies",
  "Needs many channel and sensor combinations; the reliable tests only parse calibration files.",
  ["calibrate.py"], "per-channel response found by sensor, serial and chopper and divided into the spectra")
p("P19", "Project queries report exactly what is in the project",
  "Site, measurement and sampling-frequency queries return every matching item of the project and nothing else, frequency matching is by exact rate, and first and last times and recording spans are the extremes over the measurements concerned. "
  "Asking for a site or measurement that does not exist is an error.",
  "inputs", "all projects: any number of sites, measurements and sampling frequencies",
  "A fixture project has one site and one rate.",
  ["project.py"], "filtering of the site and measurement dictionaries built when the project is loaded")
p("P20", "Only windows recorded by every required site are used together",
  "For each level and evaluation frequency, the windows selected for processing are exactly those present at every participating site at that sampling frequency, in ascending order. "
  "A level with no common window yields none, and one site missing a window removes it for all.",
  "inputs configurations", "all combinations of sites, measurements and levels",
  "Needs projects with several sites whose recordings overlap partially.",
  ["gather.py"], "per-site window tables intersected over sites")
p("P21", "Gathered data keep window, site, channel and frequency together",
  "Every row of the gathered input, output and cross data is the evaluation-frequency spectra of the channel, site, window and frequency it is labelled with, so that the same row of all three belongs to the same window. "
  "Metadata of the combined data list the sites, measurements and channels the rows came from.",
  "inputs", "all site roles, channel choices, measurements and selected windows",
  "Row misalignment needs windows spread over several measurements and levels to show.",
  ["gather.py"], "row indices computed from the position of each measurement's windows among the selected windows")
p("P22", "Regression equations pair each output with its predictors",
  "For each output channel and evaluation frequency, the regression input holds one pair of real equations per window and cross channel: the real and imaginary parts of the cross-power of the output with the cross channel against those of the inputs with the same cross channel, in the transfer function's channel order.",
  "inputs configurations", "all transfer functions, numbers of windows, inputs, outputs and cross channels",
  "Requires checking placement of every element for all channel counts; tests sample one shape.",
  ["regression.py"], "cross powers spread into interleaved real and imaginary rows and columns")
p("P23", "Every solved component is stored under its own name and frequency",
  "The solver fits every output channel at every evaluation frequency from that output's own equations, with the configured solver settings, and stores each coefficient under the component of its output and input channel at its frequency position, as the complex number whose parts are the fitted real and imaginary coefficients. "
  "Periods, frequencies and contributor information in the solution are those of the data that were solved.",
  "inputs configurations", "all transfer functions, numbers of frequencies and solvers",
  "A swapped component or frequency needs asymmetric inputs; the solver tests cannot run where the optional solver library is absent.",
  ["regression.py", "transfunc.py"], "loops over frequencies and outputs writing into per-component arrays")
p("P24", "Transfer functions are defined and rebuilt faithfully",
  "A transfer function's channel counts and equation labels follow from its input, output and cross channel lists, cross channels default to the inputs, and the built-in functions have their documented channels. "
  "Building one from its stored form gives the class of that name with the same channels, and unknown names or forms are rejected.",
  "inputs configurations", "all transfer functions, built-in and user-defined",
  "Every registered class and stored form has to agree, not a sampled one.",
  ["transfunc.py"], "registry of transfer functions by class name, filled on subclassing")
p("P25", "Stored processes come back as the process they were",
  "A process stored as text or a dictionary is rebuilt as the class with that name and with the same parameters, whichever module defined the class, and unknown names, missing names or invalid parameters are errors rather than another process. "
  "Describing a process lists every parameter.",
  "inputs configurations", "all processes including user-defined ones, and every parameter set",
  "Quantifies over all process classes; tests rebuild a couple.",
  ["common.py", "config.py", "transfunc.py"], "registry of processes by class name and validators on every configuration field")
p("P26", "Pipeline stages run in the documented order on each other's output",
  "Processing a measurement applies time processors in the configured order, then decimation, windowing, Fourier transform, spectra processors, evaluation frequencies and calibration, each on the previous stage's output, and stores the results under the configuration's name. "
  "Estimating a transfer function gathers the selected sites' stored results, prepares and solves the regression and stores the solution.",
  "inputs configurations", "all configurations, sites and measurements",
  "End-to-end runs need a project and the optional solver library; intermediate ordering is not observable from one output.",
  ["letsgo.py"], "stage functions chained by the project-level drivers")
p("P27", "Every configured parameter has an effect",
  "Each parameter a user can set on a process or configuration, or pass to an operation, influences what that process or operation does, and takes effect with the value that was set or, when it is not set, with its documented default. "
  "No setting is silently ignored or replaced by another.",
  "configurations", "every process class and every field it declares",
  "Tests run mostly default settings; an ignored field behaves as the default does.",
  ["time.py", "decimate.py", "window.py", "spectra.py", "calibrate.py", "regression.py", "letsgo.py", "config.py"],
  "fields read inside the run methods and passed on to the numeric routines")
p("P28", "Calibration files are interpreted by their own units and layout",
  "Calibration data read from a file have the frequencies, magnitudes and phases of the file in the documented output units, converted from the units the file or the reader's settings declare (text files sorted by frequency), with the static gain and serial of that file. "
  "A file is found by the documented naming pattern in the documented directory, and a missing or malformed file is an error.",
  "inputs configurations", "all calibration files, sensors, serials, chopper states and units",
  "Two sample files with one unit setting are parsed by the tests.",
  ["calibrate.py"], "readers that parse, convert units and build the calibration data")
p("P29", "Missing or invalid input is reported as an error, not papered over",
  "Where a required file, directory, channel, site, measurement, calibration or setting is missing or invalid, the operation raises the error documented for it and produces no result. "
  "Optional items that are absent are skipped only where the documentation says so.",
  "inputs fault_sequences", "every operation and every missing or invalid input",
  "Tests exercise the failure branches of a few functions.",
  ["common.py", "errors.py", "time.py", "project.py", "calibrate.py", "letsgo.py", "gather.py"],
  "explicit checks raising package errors before results are built")
p("P30", "Projects and configurations load back as they were created",
  "Creating a project records the given details and prepares its directories, and loading it finds every site and measurement on disk with their metadata and the requested or default configuration. "
  "A path that is not a complete project is rejected.",
  "inputs histories", "all project directories and configurations",
  "Depends on arbitrary directory contents; the tests use one project.",
  ["letsgo.py", "project.py", "config.py"], "project metadata file, scanned site and measurement folders, configuration objects")
p("P31", "Filtering, regression and taper values are numerically accurate",
  "Filter responses, window tapers, Fourier transforms, interpolations and regression coefficients are accurate to floating-point tolerance for well-conditioned data.",
  "inputs", "all arrays of samples",
  "Quantifies over real-valued arrays and third-party numerics.",
  ["time.py", "spectra.py", "regression.py", "calibrate.py"], "delegated to numpy, scipy and scikit-learn")
p("P32", "An interrupted write never leaves data that loads as complete",
  "If the process is stopped at any point while a product is being written, a later read either returns the complete product or reports an error.",
  "crash_points", "every point at which a write can be interrupted",
  "Needs a crash at every write; no test interrupts one.",
  ["common.py", "time.py", "decimate.py", "window.py", "spectra.py"], "order in which array and metadata files are written")
p("P33", "Window alignment survives floating-point sampling rates",
  "For sampling frequencies that are not exactly representable, windows of equal index at different sites stay within half a sample of each other over recordings of any length.",
  "inputs", "all floating-point sampling frequencies and durations",
  "Accumulated rounding depends on the value and the length.",
  ["window.py", "sampling.py"], "window times computed from index times increment in high-resolution time")

for r in P:
    print(json.dumps(r))
