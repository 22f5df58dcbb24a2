#!/usr/bin/env python3
"""Single source of properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier=dict(over=over, text=" ".join(text.split())),
                  why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=["swprocess/" + f for f in files],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where="swprocess/" + b) for a, b in mech],
                               observe_at=observe, hook_needed=None)))


prop("P01", "Trimming keeps exactly the requested samples and their times",
     """Trimming a record (or every record of an array) to [start, end] keeps, unchanged and in order, exactly the
     samples from the one nearest start to the one nearest end (both included), and afterwards the record's time
     axis begins at start (its delay is start) with the same time step. If start precedes the record, start >= end,
     or end is after the record, an IndexError is raised and the record is unchanged. Stack count, time step and (for sensors)
     position are never altered, and trims may be repeated on an already trimmed or delayed record.""",
     ["inputs", "histories"], "all records of two or more samples (length, time step, delay <= 0 or positive after an earlier trim) and all sequences of trims, valid or not",
     "Tests trim one record with one or two hand-picked windows; they cannot cover every delay/bound combination or repeated and failing trims.",
     ["activetimeseries.py", "array1d.py"], [("ActiveTimeSeries.trim", "activetimeseries.py"), ("Array1D.trim", "array1d.py")],
     ["ActiveTimeSeries.amplitude/time/delay/nsamples", "Array1D.timeseriesmatrix()"],
     [("amplitude", "samples", "ActiveTimeSeries"), ("delay", "time of first sample", "ActiveTimeSeries")])

prop("P02", "Zero padding only appends zeros and yields the requested frequency step",
     """Zero padding a record (or every record of an array) to frequency step df leaves the existing samples untouched
     and only appends zeros, as few as make the length the target 1/(df*dt) (rounded) when the record is shorter, or the next
     integer multiple of that target when it is longer (none when it already is). Afterwards nsamples equals
     `multiple` times the target, the true frequency step is 1/(nsamples*dt) and the user-facing df (true step times
     `multiple`) equals 1/(target*dt). A non-positive df raises ValueError and leaves the record, including its df and
     multiple, unchanged.""",
     ["inputs", "histories"], "all record lengths, time steps, delays and all sequences of pad requests, including repeats with other df and invalid df",
     "Tests pad a few fixed lengths once; the shorter/longer/exact/multiple case split and repeated padding need all length/df combinations.",
     ["activetimeseries.py", "array1d.py"], [("ActiveTimeSeries.zero_pad", "activetimeseries.py"), ("Array1D.zero_pad", "array1d.py")],
     ["amplitude", "nsamples", "df", "multiple"])

prop("P03", "Stacking is the stack-count weighted mean, whatever the order",
     """Stacking records gives, sample by sample, the mean of the contributing records weighted by their stack counts,
     and the stack count becomes the sum of the counts; the result does not depend on stacking order and the appended record is never modified.
     A record that differs in time step, delay, number of samples or (for sensors) position, or that is not a record of
     the same kind, is rejected with ValueError and leaves the stack unchanged.""",
     ["inputs", "histories"], "all sequences of stack operations over all compatible and incompatible records with any stack counts",
     "Tests stack two or three records; associativity of the running mean and every incompatibility need all histories.",
     ["activetimeseries.py", "sensor1c.py"], [("ActiveTimeSeries.stack_append", "activetimeseries.py"), ("_is_similar", "sensor1c.py")],
     ["amplitude", "nstacks"])

prop("P04", "Copies of records, sensors and arrays are equal and independent",
     """A copy of a record, sensor or array (and a sensor made from a record) made at any point of its life, also after trimming to a positive start
     time or after zero padding, reports the same samples, time axis, time step, frequency step, multiple, stack count and position(s)/source as the
     original. Any later operation on the original or the copy leaves the other unchanged.""",
     ["histories", "inputs"], "all histories of trim, pad, stack, detrend and copy operations on original and copies",
     "Tests copy only freshly constructed objects and never continue to operate on both sides.",
     ["activetimeseries.py", "sensor1c.py", "array1d.py", "source.py"],
     [("from_activetimeseries", "activetimeseries.py"), ("from_sensor1c", "sensor1c.py"), ("from_array1d", "array1d.py"), ("from_source", "source.py")],
     ["copy vs original public attributes"])

prop("P05", "Cross-correlation alignment finds and applies the true shift",
     """Shifting record b to best match record a returns the lag that maximises their cross-correlation (the smallest such lag on ties) and b moved
     by exactly that lag, with vacated samples zero, length kept and a and b untouched, also when the two differ in length (where the caller allows it). Cross-stacking b onto a returns
     the stack-count weighted mean of a and the shifted b with the summed stack count, leaving a and b unchanged; records of different time step or delay are rejected with ValueError.
     The cross-correlation itself holds one value for every lag.""",
     ["inputs"], "all pairs of equal-length records, including repeated maxima, and all stack counts",
     "Tests use one analytic pulse with a couple of shifts; tie breaking, negative/zero/extreme lags and weights are unsampled.",
     ["activetimeseries.py"], [("crosscorr", "activetimeseries.py"), ("crosscorr_shift", "activetimeseries.py"), ("from_cross_stack", "activetimeseries.py")],
     ["return values of crosscorr_shift and from_cross_stack"])

prop("P06", "An array keeps each trace with its position, sorted and unique",
     """An array built from sensors in any order exposes them in strictly increasing position, each still carrying its own samples, so that
     positions, offsets (distance to the source) and rows of the data matrix always correspond. Duplicate positions or sensors that differ in time step, delay, number of samples or stack
     count are rejected with ValueError. Normalised positions start at zero; spacing is defined only for equal spacing; the near-to-far view lists traces by increasing offset
     whenever the source lies beyond either end of the array.""",
     ["inputs"], "all finite sets of sensors in all orders, with any source position",
     "Tests build arrays mostly in ascending order with identical traces, so a lost association is invisible.",
     ["array1d.py"], [("Array1D._check_array", "array1d.py"), ("offsets/position/timeseriesmatrix", "array1d.py"), ("_flipped_tseries_and_offsets", "array1d.py")],
     ["Array1D.position/offsets/timeseriesmatrix/spacing/kres/array_center_distance"])

prop("P07", "Offset selection keeps exactly the sensors strictly within the range",
     """Trimming an array by offsets keeps exactly the sensors whose distance to the source is strictly greater than the minimum and
     strictly less than the maximum, in order and with their data unchanged, on whichever side of (or inside) the array the source lies. If none would remain a
     ValueError is raised and the array is unchanged.""",
     ["inputs", "histories"], "all arrays, source positions and offset ranges, and repeated selections",
     "No stable test trims offsets at all.",
     ["array1d.py"], [("Array1D.trim_offsets", "array1d.py")], ["position/offsets/timeseriesmatrix after trim_offsets"])

prop("P08", "Muting applies each trace's own window between the two picked lines",
     """Muting multiplies each trace by a tapered window that spans from the time of the start line to the time of the end line
     evaluated at that trace's own position (the record's start or last sample where a line is not given), as far as these lie within the record, using the caller's window options or a 20% Tukey taper by default, and zeroes
     everything outside. Times are measured on the record's own time axis (trigger delay, or a trim, taken into account). Sensors' positions, lengths and other traces are unaffected.""",
     ["inputs"], "all line pairs within the record, positions, delays (negative, zero or positive after trimming), time steps and window options",
     "Existing tests check one mute on one synthetic array; sloped lines, delays, one-sided mutes and custom windows are not covered.",
     ["array1d.py"], [("Array1D.mute", "array1d.py"), ("Array1D.interactive_mute", "array1d.py")], ["timeseriesmatrix after mute / interactive_mute"])

prop("P09", "File headers are translated to positions, delay and stack count exactly",
     """Reading a SEG2, SU or SEGY file yields one sensor per trace with the trace's own samples and time step, its stack count (in SU and SEGY zero, meaning unset, is read as one),
     its delay in seconds (milliseconds in SU/SEGY headers), and x and y each computed from its own header field with the file's coordinate scalar
     (0 or a power of ten up to 10000, either sign: negative divides, positive multiplies, zero means one) and then the user's coordinate maps; the source position is derived the same way.
     Coordinates declared in angular units are rejected with ValueError.
     A single trace is read as the format the caller names, else as the one the trace itself carries (in any letter case); with neither it is rejected with ValueError, with an unknown one
     (where the header is to be read) with NotImplementedError; with the header not read, position, delay and stack count are the caller's.""",
     ["inputs", "configurations"], "all header values, coordinate scalars, stack counts, delays, coordinate maps and the three formats",
     "Tests use mocked or a few example files whose y is zero and whose scalar is fixed.",
     ["sensor1c.py", "array1d.py"], [("Sensor1C.from_trace", "sensor1c.py"), ("Array1D.from_files", "array1d.py")], ["Array1D.from_files(...)"])

prop("P10", "Writing an array to SU and reading it back loses nothing representable",
     """Writing an array to an SU file and reading it back gives the same number of sensors in the same order, with the same samples (single precision), time step
     (microseconds), positions and source position in x and y (millimetres), stack count and non-positive delay (milliseconds). Writing never changes the array, and an unknown
     file type is refused with ValueError.""",
     ["inputs"], "all arrays with representable values, including stacked and delayed ones and negative coordinates",
     "One test round-trips a single unstacked array.",
     ["array1d.py", "sensor1c.py"], [("Array1D.to_file", "array1d.py"), ("Sensor1C._from_trace_su", "sensor1c.py")], ["Array1D.to_file then Array1D.from_files"])

prop("P11", "Reading several files stacks each receiver with itself",
     """Reading a list of files gives an array in which every receiver's samples are the stack-count weighted mean, over all files, of the traces recorded at that receiver's position
     and its stack count is the total, whatever the trace order in the files and whatever coordinate maps are used. A file whose source
     position, receivers or sampling differ from the first is rejected with ValueError.""",
     ["inputs", "configurations"], "all lists of files, trace orders, maps and stack counts",
     "Tests stack identical example files with the identity map.",
     ["array1d.py"], [("Array1D.from_files", "array1d.py")], ["Array1D.from_files(list)"])

prop("P12", "The time-domain workflow applies exactly the configured steps in order",
     """Running a time-domain (or single) MASW workflow gives the transform of the array obtained by reading (and stacking) the files, rejecting a
     source inside the array (ValueError), selecting offsets, removing each trace's linear trend, then trimming, muting (with the configured window options) and padding if and only if each is enabled, with the
     configured values. "single" processes only the first file.  The caller's settings and file list are not modified, so running again gives the same result.""",
     ["configurations", "inputs"], "all combinations of enabled steps and their values, file lists and transforms",
     "The stable workflow tests replace every step by a mock, so no real run is ever checked.",
     ["maswworkflows.py", "masw.py"], [("TimeDomainWorkflow.run", "maswworkflows.py"), ("Masw.run", "masw.py")], ["Masw.run(...): power, frequencies, velocities, array"])

prop("P13", "The frequency-domain workflow is the mean of the per-file transforms",
     """Running the frequency-domain workflow gives, at every frequency and velocity, the equal-weight mean of the transforms of the individually
     pre-processed files (the same steps as the time-domain workflow), counting every file exactly once (where every file's transform is defined). A file whose source, number of receivers or image frequencies differ from the first is rejected with ValueError.""",
     ["configurations", "inputs"], "all file lists and settings", "Stable tests mock the files, arrays and transforms.",
     ["maswworkflows.py", "wavefieldtransforms.py"], [("FrequencyDomainMaswWorkflow.run", "maswworkflows.py"), ("EmptyWavefieldTransform.stack", "wavefieldtransforms.py")],
     ["Masw.run(...): power, n, frequencies"])

prop("P14", "Signal-to-noise ratios are the spectra ratio at the stated frequencies",
     """The signal-to-noise ratio reported at frequency f is the mean amplitude spectrum of the signal window at f divided by that of the noise window at the same f, for
     exactly the selected frequencies between the processing limits. In a workflow the noise window is cut from the detrended array before trimming and muting and the signal window after them, neither affecting the processed array; windows of
     unequal length are rejected with IndexError unless padding makes them equal.""",
     ["inputs", "configurations"], "all window pairs, padding steps (including records longer than the target) and frequency limits",
     "One test computes one unpadded ratio.",
     ["snr.py", "maswworkflows.py"], [("SignaltoNoiseRatio.from_array1ds", "snr.py"), ("select_noise/select_signal", "maswworkflows.py")], ["SignaltoNoiseRatio.snr/frequencies", "transform.snr/snr_frequencies"])

prop("P15", "Every processing option reaches its own place in the settings",
     """The settings dictionary places every option passed by the caller, and the documented default of every other option, in its own entry, converted to its type and independent of all other options; equal calls give equal, independent dictionaries.""",
     ["configurations"], "all subsets of options and values", "Tests check the defaults and one combination.",
     ["masw.py"], [("Masw.create_settings_dict", "masw.py")], ["Masw.create_settings_dict(...)"])

prop("P16", "Frequencies kept span the limits and honour the padding multiple",
     """A transform's frequencies start at the record's frequency nearest fmin and do not pass the one nearest fmax, stepping by `multiple` true frequency steps (i.e. the user-facing df), and each
     power column, for every transform type and for the empty accumulator alike, belongs to the frequency listed for it. The trial velocities are exactly nvel points from vmin to vmax, both
     included, equally spaced linearly or logarithmically as requested.""",
     ["inputs", "configurations"], "all record lengths, time steps, multiples, frequency and velocity limits",
     "Tests check the helper on one vector and never the agreement with power columns.",
     ["wavefieldtransforms.py"], [("_frequency_keep_ids", "wavefieldtransforms.py"), ("_create_vector", "wavefieldtransforms.py")], ["transform.frequencies/velocities/power"])

prop("P17", "Normalisation is reversible and scales each image to its maximum",
     """Normalising a dispersion image to "none", "absolute-maximum" or "frequency-maximum" gives respectively the power magnitudes, magnitudes divided by the overall maximum, or by each
     frequency's maximum; applying normalisations in any sequence gives the same image as applying only the last one (an unknown one is refused with KeyError and leaves the image unchanged). The picked peak at each frequency is the trial
     velocity with the largest power magnitude (smallest index on ties), under every normalisation, and plotting or picking with no normalisation change never alters the image.""",
     ["histories", "inputs"], "all images (real or complex) and all sequences of normalisations and picks",
     "Tests normalise a fresh image once per method.",
     ["wavefieldtransforms.py"], [("normalize", "wavefieldtransforms.py"), ("find_peak_power", "wavefieldtransforms.py")], ["power", "find_peak_power()"])

prop("P18", "Stacked images are means weighted by the number of images",
     """Stacking dispersion images into an accumulator gives the mean of the images weighted by the number of records each represents, and the count is the sum; the order does not matter and
     stacked images are not modified.  An image on other frequencies or velocities is refused with ValueError and something that is not an image with AttributeError, leaving the accumulator unchanged.""",
     ["histories"], "all sequences of stack operations over images and accumulators with any counts",
     "Tests stack one or two images with count one.",
     ["wavefieldtransforms.py"], [("EmptyWavefieldTransform.stack", "wavefieldtransforms.py")], ["power", "n"])

prop("P19", "Each transform computes its defining beam power",
     """For every frequency and trial velocity, frequency-domain beamforming returns the weighted spatiospectral beam power for the chosen weighting (none; "sqrt", each receiver's spectrum times its offset; inverse amplitude, each divided by its magnitude) and
     steering (plane, cylindrical), fk equals unweighted plane-wave beamforming, phase-shift returns the magnitude of the trapezoid integral over offset of phase-corrected unit spectra, and slant-stack the spectrum of the trapezoid-integrated, linearly interpolated
     delayed traces (for records longer than the largest delay). No transform modifies the array or the caller's settings.""",
     ["inputs", "configurations"], "all arrays with sources on either side, spacings, frequencies, velocities and options",
     "Stable tests exercise none of the real transforms.",
     ["wavefieldtransforms.py"], [("FDBF/PhaseShift/SlantStack/FK transform", "wavefieldtransforms.py")], ["Transform.from_array(...).power"])

prop("P20", "Dispersion images do not depend on array origin, side or amplitude",
     """Moving array and source together, mirroring them, permuting sensors on input, or multiplying all traces by a constant leaves the picked dispersion of every transform unchanged (and the power itself up to the
     corresponding amplitude scale). A single wave crossing the array at a trial velocity is picked at exactly that velocity at every frequency it contains, when that velocity is not aliased.""",
     ["inputs"], "all arrays, sources outside on either side, waves and transforms", "No stable test runs a transform on data.",
     ["wavefieldtransforms.py", "array1d.py"], [("_flipped_tseries_and_offsets", "array1d.py"), ("transform", "wavefieldtransforms.py")], ["find_peak_power()", "power"])

prop("P21", "Rejecting peaks invalidates exactly the targeted ones, permanently",
     """Rejecting outside limits invalidates exactly the valid peaks strictly outside the given (possibly one-sided) limits of the chosen attribute, and rejecting a box exactly those strictly inside it in
     both attributes, box corners given in any order. Rejected peaks never become valid again, repeating a rejection changes nothing, the order of rejections does not matter, and no stored value changes; on a
     collection the same rejection is applied to every member.""",
     ["histories", "inputs"], "all peak sets (single or multi-valued, with missing entries) and all sequences of rejections over every attribute",
     "Tests apply one or two rejections to small vectors.",
     ["peaks.py", "peakssuite.py"], [("Peaks.reject_limits_outside", "peaks.py"), ("Peaks.reject_box_inside", "peaks.py"), ("PeaksSuite.reject_*", "peakssuite.py")],
     ["frequency/velocity/... of valid peaks"], [("_valid", "mask of valid peaks", "Peaks")])

prop("P22", "All attributes of the valid peaks stay aligned and consistent",
     """At every moment all attributes reported for a peak set (frequency, velocity, azimuth, ellipticity, noise, power, and derived slowness, wavelength, wavenumber) have the same length and order, one entry per valid peak,
     with slowness = 1/velocity, wavelength = velocity/frequency and wavenumber = 2*pi*frequency/velocity. Peaks without a velocity are never reported.""",
     ["histories", "inputs"], "all peak sets and rejection/save/load histories", "Tests check attributes before rejections or one attribute after.",
     ["peaks.py"], [("property accessors", "peaks.py")], ["Peaks public attributes"])

prop("P23", "Interactive trimming commits only what the user confirmed",
     """In an interactive trimming session the boxes drawn since the last pause are committed when the user answers continue or quit and discarded entirely when the user answers undo; earlier committed boxes are never undone.
     Each box removes exactly the valid peaks strictly inside it in the axes clicked, unrecognised answers are asked again, pairs of clicks on different axes are ignored, and the session ends only on quit.
     While boxes can be drawn every pair of axes shows, within unchanged limits, exactly the valid peaks (and the resolution limits asked for), those in boxes not yet confirmed being marked.""",
     ["histories"], "all sequences of boxes, axes, pauses and answers", "Tests replay two fixed sessions.",
     ["peakssuite.py"], [("PeaksSuite.interactive_trimming", "peakssuite.py"), ("_draw_box", "peakssuite.py")], ["valid peaks after the session"])

prop("P24", "Saved peaks are restored completely, including rejections",
     """Saving a peak set or suite to JSON and loading it back restores identifiers, every attribute value (also missing ones) and exactly which peaks are valid, any number of times and from the same dictionary repeatedly; loading never modifies the caller's data.
     Appending to a file adds the new set and preserves the others. Two peak sets are equal exactly when identifier, attributes and the values of their valid peaks agree (to a relative 1e-5 or an absolute 1e-8); appending an identifier already present raises KeyError and leaves the file untouched, and saving without append replaces the file.""",
     ["histories", "inputs"], "all peak sets, rejection states and sequences of save, append and load", "Tests round-trip unrejected peaks once.",
     ["peaks.py", "peakssuite.py"], [("to_json/from_json/from_dict", "peaks.py"), ("PeaksSuite.to_json/from_json", "peakssuite.py")], ["files and loaded objects"])

prop("P25", "A suite's members are distinct, ordered, and never lost",
     """A suite lists its members in the order added and its ids match them one to one without duplicates; adding a member whose identifier already exists raises KeyError, and adding something that is not a peak set raises TypeError, leaving the suite unchanged.
     Building a suite from peaks, suites, dictionaries or files is equivalent to appending the members in order, and does not alter the sources' membership.""",
     ["histories"], "all sequences of construct/append/merge", "Tests append once or twice.",
     ["peakssuite.py"], [("PeaksSuite.append/from_peaks/from_peakssuite", "peakssuite.py")], ["len, ids, iteration, indexing"])

prop("P26", "Multi-valued peaks reduce to the strongest valid one per sample",
     """Reducing multi-valued peaks takes, at each sample, the valid peak with the greatest power (or greatest frequency if there is no power; the first on ties) and skips samples without a valid peak, choosing the same peak for every attribute.
     Resampling a suite evaluates each member by linear interpolation between those reduced points at each requested location, and is not-a-number outside the member's range or when it has no points (a single point is its own value only). Valid peaks whose power is missing are skipped when power decides. Resampling along or of an attribute that is missing at one of the reduced points is refused with ValueError.""",
     ["inputs", "histories"], "all multi-valued peak sets with any valid masks, and all resampling locations", "Tests use one 2-row example.",
     ["peaks.py", "peakssuite.py"], [("simplify_mpeaks", "peaks.py"), ("PeaksSuite.to_array", "peakssuite.py")], ["simplify_mpeaks, to_array"])

prop("P27", "Suite statistics use exactly the sufficiently sampled points",
     """Dispersion statistics report, in order, exactly the requested locations at which at least the required number of members have a value, with the mean and sample (n-1) standard deviation of those values; fewer than three members is refused with ValueError.
     Members are never modified, and the correlation is that of the (optionally mean-filled) data at those locations. With more than 100 members or locations, a member with values at under 1% of the locations, or a location with under 1% of the members, is left out first (columns then rows or rows then columns, whichever removes more missing entries per value lost).""",
     ["inputs"], "all suites, locations, thresholds and rejection states", "Tests compute three fixed examples.",
     ["peakssuite.py"], [("PeaksSuite.statistics", "peakssuite.py"), ("PeaksSuite._drop", "peakssuite.py")], ["PeaksSuite.statistics"])

prop("P28", "Every accepted peak in a .max file is read once, in its own window",
     """Reading Geopsy .max files returns, for each time window (in file order) and wave type asked for, exactly the accepted peaks recorded for it, each with its own frequency, slowness-derived velocity, azimuth, ellipticity, noise and power, grouped by frequency, and an identifier made of window time and process.
     Results for a file do not depend on other files read in the same call, windows whose times share digits are not mixed up, and unsupported versions are refused.""",
     ["inputs", "configurations"], "all well-formed .max files (windows, frequencies, wave types, number formats; at most N_MAXIMA, itself 1 to 100, accepted lines per window and frequency) and lists of files",
     "Tests read three example files.",
     ["peaks.py", "peakssuite.py", "regex.py", "meta.py"], [("Peaks._parse_peaks", "peaks.py"), ("PeaksSuite.from_max", "peakssuite.py"), ("regular expressions", "regex.py")], ["Peaks.from_max, PeaksSuite.from_max"])

prop("P29", "Continuous-record extraction writes exactly the requested time window",
     """Extracting blocks of continuous records writes, for every row of the table, one file per station and array name holding exactly the samples of the requested start-to-end interval, joined across hourly files in order, in the named folder, where samples missing from the hourly files leave the others in their places;
     an interval ending before it starts is refused with ValueError and source files are never modified.""",
     ["inputs"], "all tables of intervals spanning any number of hourly files, days and months", "Tests extract a few fixed rows.",
     ["utils.py"], [("extract_mseed", "utils.py")], ["files written"])

prop("P30", "Interactive point picking returns exactly the accepted points, in order",
     """An interactive picking session returns the accepted points in order with matching x and y lists, never more than requested: an empty selection is asked again, only the last of several selected points counts, and the user can stop early only after a point.
     First-arrival picks and mute lines return distance and time in that order whichever axis shows time.""",
     ["histories"], "all sequences of user actions", "Tests replay a handful of scripted sessions.",
     ["interact.py", "array1d.py"], [("ginput_session", "interact.py"), ("manual_pick_first_arrivals/interactive_mute", "array1d.py")], ["return values"])

prop("P31", "Trace matrices and automatic picks are computed per trace",
     """The data matrix returns each sensor's samples, optionally detrended per trace, and normalised by each trace's own maximum magnitude ("each") or by the common one ("all"), without changing the array. Automatic first-arrival picks give, per sensor and in position order, the first time at which the
     normalised trace departs from its initial level by more than the threshold, on the record's own time axis.""",
     ["inputs"], "all arrays, options and thresholds", "Tests check one array.",
     ["array1d.py"], [("timeseriesmatrix", "array1d.py"), ("auto_pick_first_arrivals", "array1d.py")], ["timeseriesmatrix, auto_pick_first_arrivals"])

prop("P32", "Resolution limits are the same physical limits on every pair of axes",
     """Array resolution limits drawn on any supported pair of axes (frequency, wavelength, velocity, slowness, wavenumber) are the curves on which the limiting attribute (wavelength or wavenumber) equals each given limit, lower limit first, so a point violates
     a limit on one pair of axes iff it does on all; unsupported combinations are refused rather than drawn.""",
     ["inputs", "configurations"], "all axes pairs, limiting attributes and limits", "Tests check a subset of combinations with one limit pair.",
     ["peakssuite.py"], [("calc_resolution_limits", "peakssuite.py")], ["calc_resolution_limits, plot_resolution_limits"])

prop("P33", "Data-matrix reordering and region search keep every value",
     """Sorting a partially filled data matrix only permutes its rows (each observation stays intact) so that rows starting earliest come first; dropping removes exactly the rows and columns with too few values (columns then rows, or rows then columns, whichever removes more missing entries per value lost), leaving its input unchanged; filling replaces only missing entries, with the column's statistics; and density counts only present values.
     Identified regions are within the matrix, ordered, column-disjoint, cover every column, and are dense enough: each starts at the first present entry of its first column and grows by
     the next row and the next column while its density stays at or above the threshold.""",
     ["inputs"], "all small matrices and missing-value patterns", "Tests use two or three matrices.",
     ["stats.py"], [("Statistics._sort/_drop/_identify_regions/_fill_data/_calc_density", "stats.py")], ["return values"])

prop("P34", "Least-squares update and posterior covariance satisfy their equations",
     """The iterative least-squares update and posterior covariance equal the Tarantola-Valette expressions p0 + Cp G'(Cd + G Cp G')^-1 (d0 - dm + G(pm - p0)) and Cp - Cp G'(Cd + G Cp G')^-1 G Cp, and leave their inputs unchanged.""",
     ["inputs"], "all conforming matrices", "No test covers the module.",
     ["inversion.py"], [("leastsquare_iterativealgorithm", "inversion.py"), ("leastsquare_posterioricovmatrix", "inversion.py")], ["return values"])

prop("P35", "Plots show exactly the data they claim to show",
     """Plotting peaks draws, per requested pair of axes and per member, exactly the valid (or, with a mask, the masked) points with the requested colours, markers and legend names, on top of what the axes already show, and refuses unequal numbers of axes or masks; waterfall plots draw each trace at its position, detrended, normalised and scaled as requested, against the record's time axis; the array schematic draws each sensor and the source at their positions and states number and spacing; statistics, signal-to-noise ratios and the near-field line are drawn where they belong. Plotting never changes the peaks, the array or the caller's arguments.""",
     ["inputs", "configurations"], "all peak states, masks, axes pairs and style lists; all arrays and waterfall options", "Tests compare against images or only check that plotting does not fail.",
     ["peaks.py", "peakssuite.py", "array1d.py"], [("Peaks.plot/PeaksSuite.plot", "peakssuite.py"), ("Array1D.waterfall/plot", "array1d.py"), ("PeaksSuite.plot_statistics", "peakssuite.py"), ("AbstractWavefieldTransform.plot/plot_snr", "wavefieldtransforms.py")], ["matplotlib artists"])

prop("P36", "Registries return exactly what was last registered under a name",
     """Creating a transform or workflow by name returns the class most recently registered under that name in that registry, with the given arguments on instantiation; the two registries are independent and an unknown name raises KeyError. The documented names (fdbf, fk, phaseshift, slantstack, empty; single, time-domain, frequency-domain, time-domain-xcorr) always resolve.""",
     ["histories"], "all sequences of register and create", "Tests register one class.",
     ["register.py", "masw.py", "maswworkflows.py", "wavefieldtransforms.py"], [("AbstractRegistry", "register.py")], ["create_class/create_instance"])

prop("P37", "Source-correlated arrays use the averaged source and common lag window",
     """Reading receiver files with source files gives the stacked array with the source signal equal to the mean of the chosen channel over all source files; cross-correlating replaces each trace by its correlation with that signal over one common lag window, the same for every trace (from the nearest offset over the greatest velocity less half a second, to the farthest offset over the least velocity, in whole samples from zero lag and never before the first lag), keeping positions, order, time step and stack count.""",
     ["inputs"], "all file lists, channels, offsets and velocity limits", "Not covered by stable tests.",
     ["array1d.py", "maswworkflows.py", "source.py"], [("Array1DwSource.from_files/xcorrelate", "array1d.py"), ("TimeDomainXcorrMaswWorkflow.run", "maswworkflows.py")], ["Array1DwSource.sensors/source", "MaswXcorr.run"])

prop("P38", "Records, arrays, sources and peak sets are equal only if all their data agree",
     """Two records, sensors, sources or arrays compare equal exactly when they are of the same kind and agree in time step, delay, number of samples, stack count, every sample (to a relative 1e-5 or an absolute 1e-8),
     position in x, y and z and (for arrays) number of sensors and source position, whichever is asked first and however they came about. Two peak sets are equal exactly when identifier, the set of attributes
     and the attribute values of their valid peaks agree (missing values included, in order, to the same tolerance); two suites exactly when they have equally many members and these are equal pairwise. None ever equals an object of another kind (asking
     a library object returns False rather than raising), "!=" is the opposite, and comparing changes neither.""",
     ["inputs"], "all pairs of objects, in particular those that differ in a single respect", "Tests compare a few objects, most differing in one chosen attribute.",
     ["activetimeseries.py", "sensor1c.py", "source.py", "array1d.py", "peaks.py", "peakssuite.py"], [("ActiveTimeSeries.__eq__/_is_similar", "activetimeseries.py"), ("Sensor1C.__eq__", "sensor1c.py"), ("Source.__eq__", "source.py"), ("Array1D.__eq__/is_similar", "array1d.py"), ("Peaks.__eq__", "peaks.py"), ("PeaksSuite.__eq__", "peakssuite.py")],
     ["==, !="])

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
