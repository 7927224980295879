# executed by spec.py
PT = "mt_metadata/"

prop("P01", "Keyed collections behave as an ordered dictionary addressable by key or index",
     "The collection that holds surveys, stations, runs and channels behaves at all times as an insertion-ordered dictionary: an item is found by its identifier or by its position, slices are the consecutive items between two bounds, and sizes, listings and iteration agree with each other. "
     "Storing, appending, extending, updating, re-keying and sorting never lose, duplicate or reorder items other than as named (an existing identifier is replaced in place, a new one goes last), and removing or popping takes away exactly the named item. "
     "A missing identifier or out-of-range position is a KeyError that leaves the collection unchanged, and a copy shares neither storage nor items.",
     ["inputs", "histories"],
     "all collections of any size, all identifiers, positions and slice bounds, and all sequences of operations",
     "tests use collections of one to four items and a handful of calls; the guarantee is about every size, every position and every history of operations",
     [PT + "common/list_dict.py"],
     [("ordered mapping under the collection", PT + "common/list_dict.py:ListDict")],
     "per-operation contracts over an unbounded symbolic ordered mapping (lookup, store, append, remove, pop, slice, extend, update, sort); copy and re-keying by bounded model-based histories",
     state=[("contents", "ordered mapping identifier -> item", PT + "common/list_dict.py:ListDict._home")],
     observe=["indexing, keys(), values(), items(), len, iteration"])

prop("P02", "Dotted names address exactly the nested attribute they spell",
     "Flattening a nested dictionary gives one entry per leaf, in order, under the names on the way to it joined by the separator, and nesting such a dictionary again gives back the original, for every depth and every separator that is not part of a name. "
     "Reading, setting or constructing a metadata object by a dotted name reaches exactly the attribute the name spells and changes no other attribute. "
     "A name that leads through an attribute the object does not have is an AttributeError on reading, and reading changes nothing.",
     ["inputs"], "all nested dictionaries (without empty branches), all separators, all dotted names and all metadata classes",
     "tests use a few fixed names two levels deep with a dot; the correspondence must hold at every depth, for every separator and every attribute of every class",
     [PT + "base/helpers.py", PT + "base/metadata.py"],
     [("flatten and nest", PT + "base/helpers.py:flatten_dict"), ("dotted access", PT + "base/metadata.py:MetadataBase.get_attr_from_name")],
     "per-function contracts over symbolic mappings and symbolic names (recursion by contract); every attribute of every metadata class enumerated at run time",
     observe=["flatten_dict, structure_dict, get_attr_from_name, set_attr_from_name, update_attribute"])

prop("P03", "Metadata reads back from dictionary, JSON, series and XML as it was written",
     "A common or time-series metadata object written as a dictionary (flat or nested), a JSON text or file, or a series, and read into an empty object of its class, has the same value in every attribute that was set; so has channel metadata through XML (lists and comments apart). The listing of required attributes leaves out only those without a value (None, \"\", [], the default time) that the standard does not require, and writing never changes the object, nor reading its input. "
     "Equality holds exactly when no attribute both listings share differs (times of processing and creation apart), a copy is equal and shares nothing, and update takes over exactly the other object's values that are neither empty nor zero, refusing with a ValueError and no change when a value named to match differs.",
     ["inputs"], "all metadata objects with any values of any kind, both listings, flat and nested forms",
     "tests compare a few fixed dictionaries per class; losing or altering one attribute with a particular kind of value is only seen by covering every kind of value in every position",
     [PT + "base/metadata.py", PT + "base/helpers.py", PT + "common/comment.py"],
     [("writing", PT + "base/metadata.py:MetadataBase.to_dict"), ("reading", PT + "base/metadata.py:MetadataBase.from_dict"), ("updating", PT + "base/metadata.py:MetadataBase.update"), ("equality", PT + "base/metadata.py:MetadataBase.__eq__"), ("XML", PT + "base/helpers.py:recursive_split_xml")],
     "loop contracts over a symbolic list of attributes with values of every kind for writing, reading, updating, comparing and XML; the codecs (json, xml, pydantic validation) by run-time contracts over every common and time-series class",
     observe=["to_dict, from_dict, to_json, from_json, to_series, from_series, to_xml, from_xml, copy, update, =="])

prop("P04", "Time stamps are totally ordered instants with exact arithmetic and round trip",
     "Two time stamps compare (before, equal, after) exactly as the UTC instants they denote compare, whatever the input form (text with or without offset, epoch seconds, datetime, another time stamp). "
     "Adding and subtracting a duration are inverse, the difference of two stamps is the signed number of seconds between them, and stamps printed as ISO text or dumped to a dictionary read back to the same instant. "
     "An unparsable stamp is reported and never silently becomes another date.",
     ["inputs"], "all instants in the supported range, all durations, all UTC offsets, all accepted input forms",
     "tests pin a few dates and offsets; ordering and round trip must hold for every pair of instants and every offset",
     [PT + "common/mttime.py"],
     [("parsing and UTC normalisation", PT + "common/mttime.py:MTime.parse"), ("comparison and arithmetic", PT + "common/mttime.py:MTime")],
     "comparison, arithmetic and normalisation contracts over symbolic instants; text parsing by bounded run-time contracts (pandas/dateutil trusted)",
     observe=["comparison operators, +, -, isoformat, epoch_seconds, to_dict"])

prop("P05", "GPS time differs from UTC by exactly the leap seconds in force on that day",
     "For every instant in the leap-second table's range, converting GPS time to UTC subtracts exactly the number of leap seconds accumulated on that calendar day, and the count is defined for every day, never decreases with time and changes only on the published dates. "
     "A day outside the table's range is an error, not a silent zero.",
     ["inputs"], "every calendar day from 1980-01-06 on",
     "tests check a few dates; the boundary days and the days between table rows are what a table typo or a strict comparison breaks",
     [PT + "common/mttime.py"],
     [("leap second table", PT + "common/mttime.py:leap_second_dict"), ("lookup", PT + "common/mttime.py:calculate_leap_seconds")],
     "lookup proved for a symbolic (year, month, day); every day of the table range enumerated at run time against the published dates",
     observe=["calculate_leap_seconds, MTime(gps_time=True)"])

prop("P06", "Runs, stations and surveys summarise exactly the members they hold",
     "The time period of a run, station or survey after adding, updating or removing members is the smallest one covering its own former period and the set periods of its channels, runs or stations (unset 1980 default times are ignored), and a survey's bounding box is the smallest holding its stations' positions. "
     "Counts, recorded-channel, run and station lists, has, index and get agree and name exactly the members present, also after sorting by time. "
     "Adding a member whose identifier is present updates it in place with the non-empty values given, a new one goes last, and removing one takes away that one only and leaves every other member as it was.",
     ["inputs", "histories"], "all collections of members of any size with any times and positions, and all sequences of additions, updates and removals",
     "tests use one to three members in one order; the summary must follow the members for every number, order and history",
     [PT + "timeseries/run.py", PT + "timeseries/station.py", PT + "timeseries/survey.py"],
     [("channels of a run", PT + "timeseries/run.py:Run"), ("runs of a station", PT + "timeseries/station.py:Station"), ("stations of a survey", PT + "timeseries/survey.py:Survey")],
     "update, listing, addition and removal contracts over an unbounded symbolic collection of members; merging, sorting and nested histories by bounded model-based run-time contracts",
     state=[("members", "ordered mapping identifier -> member", PT + "timeseries/run.py:Run.channels")],
     observe=["time_period, channels_recorded_*, run_list, station_names, has/get/index, bounding box corners"])

prop("P07", "An experiment is read back from dictionary, JSON and XML as it was written",
     "An experiment written as a dictionary, a JSON text or file, or XML and read into an empty experiment holds the same surveys, stations, runs and channels, each once under its parent, in the same order (by identifier in sorted XML, channels by type in unsorted XML), of the same type and with the same values (in XML, positions left at 0 are the station's), and the same filters under their names. "
     "Writing a dictionary or JSON changes nothing and reading leaves its input alone. "
     "Sorting orders every level by identifier, merging appends the other's surveys, adding a present survey updates it in place and a new one goes last.",
     ["inputs"], "all experiments with any number of members at every level and any values",
     "tests write and read a few fixed experiments; the nesting, order, types and filters must survive for every number of members, including none and one",
     [PT + "timeseries/experiment.py", PT + "timeseries/survey.py", PT + "timeseries/station.py", PT + "timeseries/run.py", PT + "base/helpers.py"],
     [("dictionaries", PT + "timeseries/experiment.py:Experiment.to_dict"), ("XML", PT + "timeseries/experiment.py:Experiment.from_xml"), ("channel types", PT + "timeseries/run.py:Run._get_correct_channel_type")],
     "writing, reading and sorting loops proved over unbounded symbolic collections with the members' own forms by their contracts (P03); whole experiments by bounded run-time contracts",
     state=[("surveys", "ordered mapping identifier -> survey, each with stations, runs and channels", PT + "timeseries/experiment.py:Experiment.surveys")],
     observe=["to_dict, to_json, to_xml, from_dict, from_json, from_xml, sort, merge, add_survey"])

prop("P08", "Positions keep their sign and value and stay within the globe",
     "A position in decimal degrees written as degrees:minutes:seconds denotes the same position to within a ten-thousandth of an arc second, with minutes and seconds below sixty, and any such text or decimal number reads as the signed position it spells, also between -1 and 0 degrees. "
     "Every object that carries a latitude and longitude accepts exactly latitudes in [-90, 90] and longitudes in [-180, 180] in every input form, reports anything else and then keeps its former value; no position reads as 0.",
     ["inputs"], "all real positions, all texts, all objects with a position",
     "tests convert a few positions; sign, carry of sixty seconds and the range limits must be right for every position and every class that has one",
     [PT + "utils/location_helpers.py", PT + "common/location.py", PT + "transfer_functions/io/edi/metadata/header.py", PT + "transfer_functions/io/edi/metadata/define_measurement.py"],
     [("conversion", PT + "utils/location_helpers.py:convert_position_float2str"), ("range check", PT + "utils/location_helpers.py:validate_position")],
     "conversions proved for every real position and every text (float parsing and number formatting trusted by contract); range check proved for every value; each class enumerated at run time",
     observe=["convert_position_*, latitude/longitude fields, EDI header lines"])

prop("P09", "Filter responses equal the stated transfer functions at every frequency",
     "At every frequency the complex response of each filter type equals its mathematical definition with its gain applied once: constant gain, gain times a pure delay exp(-2*pi*i*f*t), poles and zeros with normalisation factor, impulse response transform, and interpolated amplitude/phase table. "
     "The response array has one value per requested frequency in the given order, and evaluating a filter never changes it.",
     ["inputs"], "all filters of each type (any gain, delay, poles, zeros, taps, tables) and all frequency arrays",
     "tests sample a few filters at a few frequencies; the formula must hold for every coefficient and frequency",
     [PT + "timeseries/filters/" + f for f in ("coefficient_filter.py", "time_delay_filter.py", "pole_zero_filter.py", "fir_filter.py", "frequency_response_table_filter.py", "filter_base.py")],
     [("response formulas", PT + "timeseries/filters/*:complex_response")],
     "response functions proved over symbolic arrays, coefficients and unbounded pole/zero/tap lists (scipy kernels trusted by contract); tables and object construction bounded")

prop("P10", "A channel response is the product of its filters and units chain through it",
     "The complex response of a channel is the product of the responses of exactly the selected filters (all, without delays, or a named subset), independent of their order, and normalising divides it by its largest magnitude. "
     "Total gain and delay are the product of gains and the sum of delays, the first filter's input units and the last filter's output units are the channel's units, and a unit mismatch between consecutive filters is rejected.",
     ["inputs", "configurations"], "all filter lists of any length and order, all selections and all frequency arrays",
     "tests use one or two fixed filter chains; composition must hold for every list and selection",
     [PT + "timeseries/filters/channel_response.py"],
     [("composition", PT + "timeseries/filters/channel_response.py:ChannelResponse.complex_response"),
      ("unit chaining", PT + "timeseries/filters/channel_response.py:ChannelResponse._check_consistency_of_units")],
     "product, normalisation, sensitivity, delay, gain, selection and unit contracts over symbolic filter lists of any length")

prop("P11", "Channel filters stay in stage order, each name once, whatever the input form",
     "Adding a filter to a channel stores it once, after every filter of lower or equal stage (given no stage it gets the number of filters plus one), under its name in lower case with / written as per; adding a name already there changes nothing, and all other filters keep their order and values. Removing takes away exactly the named filter and, when asked, numbers the others from 1 in order; getting returns exactly the named filter or None. A channel filled from any supported form (filter objects, dictionaries, their text, or the older filter/filtered lists of names and applied flags) has the names, flags and stages given, and older lists of different non-zero lengths are an error.",
     ["inputs", "histories"], "all lists of filters of any length, all names, stages and flags; histories of additions and removals; the supported input forms",
     "tests use a few fixed filters in stage order; the guarantee is about every list, stage, name and order of operations",
     [PT + "timeseries/channel.py", PT + "timeseries/filtered.py"],
     [("adding", PT + "timeseries/channel.py:ChannelBase.add_filter"), ("removing", PT + "timeseries/channel.py:ChannelBase.remove_filter"), ("reading", PT + "timeseries/channel.py:ChannelBase.from_dict")],
     "adding, removing, finding, listing and assigning proved over symbolic lists of any length, older lists and lists of filters by loop contracts; text forms (json/ast parsing) and histories by bounded run-time contracts",
     state=[("filters", "list of (name, applied, stage, comments)", PT + "timeseries/channel.py:ChannelBase.filters")],
     observe=["filters, filter_names, get_filter, from_dict, to_dict, to_json, to_xml"])

prop("P12", "An FDSN channel code names the band, instrument and direction of its channel",
     "The first letter of a code is the first band, in alphabetical order, that the sample rate is in (A if none), the second that of the kind of measurement (Y if unknown), the third N or E within 15 degrees of the axis, else 1 or 2 by the nearer one, Z or 3 for vertical, for every azimuth of any number of turns; a given x, y or z is N, E or Z and another direction an error. "
     "Reading the code gives that band, that measurement (an old tide code as magnetic) and that direction, and the component ex, ey, hx, hy or hz it stands for; a code of another length, instrument or orientation is an error. "
     "The location code is the component's first letter and the channel number's last digit; a licence is open, partial or closed by its terms.",
     ["inputs"], "all sample rates, azimuths, measurements, directions, channel numbers and codes",
     "the tests of this part do not run without obspy; band edges, negative and repeated turns and unknown codes must be right",
     [PT + "timeseries/stationxml/fdsn_tools.py"],
     [("band", PT + "timeseries/stationxml/fdsn_tools.py:get_period_code"), ("orientation", PT + "timeseries/stationxml/fdsn_tools.py:get_orientation_code"), ("code", PT + "timeseries/stationxml/fdsn_tools.py:make_channel_code"), ("reading", PT + "timeseries/stationxml/fdsn_tools.py:read_channel_code")],
     "bands, orientations, codes and reading proved for all rates, angles, numbers and texts (angles within rounding of an edge excepted); licences enumerated",
     observe=["get_period_code, get_orientation_code, make_channel_code, read_channel_code, create_mt_component"])

prop("P13", "A unit means the same by name, symbol, product or quotient, wherever stored",
     "Every SI-prefixed unit, and counts, samples and celsius, is found by its name in any letter case and by its symbol in the right case (a symbol of two units means the first listed; a single letter is also found in the other case), with its own name, symbol and label. "
     "Units joined by a slash, per or a space, in brackets or with extra spaces, give the parts' names and symbols in order, joined by per and / for a quotient and by a space for a product. "
     "A field with units stores the unit's name (a data type its symbol), which is read back as the same unit; a part not known reads unknown, is an error in a filter, and an empty text is no unit.",
     ["inputs"], "all unit names and symbols, all texts of any number of units and separators, all classes with a units field",
     "tests read a dozen texts; every prefix, case, separator and order must be right and the stored name must be readable again",
     [PT + "common/units.py", PT + "timeseries/channel.py", PT + "timeseries/filters/filter_base.py", PT + "transfer_functions/io/emtfxml/metadata/data_type.py"],
     [("reading a text", PT + "common/units.py:parse_unit_string"), ("finding a unit", PT + "common/units.py:get_unit_from_df"), ("joining", PT + "common/units.py:Unit.combine"), ("fields", PT + "timeseries/channel.py:ChannelBase.validate_units")],
     "finding in a table of any rows, the first separator of any text, joining any number of units and every field's validator proved for all texts; splitting a text discharged for 1 to 4 units of any name (bounded); the table itself enumerated",
     observe=["get_unit_object, Unit.combine, units, units_in, units_out fields"])

prop("P14", "A frequency band selects exactly its harmonics at every decimation level",
     "A band selects, in order and once each, exactly the harmonics k*rate/window (k from 0, below half the window) inside its interval, closed ends included and open ends not, and its index range runs from the first to the last of them; its center (geometric or arithmetic mean), width, quality, overlap and containment follow from its edges. "
     "A collection of bands or a decimation level keeps every band added with its edges, lists index bounds, band edges and harmonic indices in increasing order, and gives the bands in the order kept or sorted by the asked criterion and direction without changing anything it was given. "
     "Assigning band edges to a processing configuration adds after the existing levels one per key, in order, with its number, factor, sample rate divided by the factor once per level, window length and exactly the given bands with their index ranges.",
     ["inputs", "configurations"], "all edges, closed sides, frequency axes, window lengths and rates; any number of bands",
     "tests select harmonics for a few bands; edges that fall on a harmonic, odd windows and every order of bands must be right",
     [PT + "common/band.py", PT + "processing/aurora/frequency_bands.py", PT + "processing/aurora/decimation_level.py", PT + "processing/window.py", PT + "processing/aurora/processing.py"],
     [("selection", PT + "common/band.py:Band._indices_from_frequencies"), ("harmonics", PT + "processing/window.py:get_fft_harmonics"), ("assignment", PT + "processing/aurora/processing.py:Processing.assign_bands")],
     "selection, index ranges, geometry, overlap, harmonics, index bounds and band assignment proved for axes and lists of any length (levels up to three); band tables and collections (pandas) bounded",
     observe=["indices, edges and bands returned"])

prop("P15", "Windows, decimation cascades, processing levels and stored coefficients agree",
     "A window advances by its length minus its overlap, its taper is always that of its current type, arguments and length and sums to 1 when normalised, and a series is long enough exactly when the minimum number of windows fits into it. "
     "A cascade numbers its levels from 0 and divides the rate by each level's factor in turn; a processing configuration keeps every level it is given exactly once, in order and found by its number, and sets channels, engines and rates on all its levels and nothing else. "
     "Fourier-coefficient parameters made from a level carry its settings and agree with it, and stored ones are accepted exactly when they have every required channel and needed harmonic and the same rate, method, prewhitening, recoloring, detrending, number of windows and window.",
     ["inputs", "configurations"], "all lengths, overlaps, rates, factors and settings; any number of levels",
     "tests check a few settings one at a time; acceptance and cascades must be right for every combination and after every change",
     [PT + "processing/window.py", PT + "processing/aurora/processing.py", PT + "processing/aurora/decimation_level.py", PT + "processing/fourier_coefficients/decimation.py"],
     [("taper", PT + "processing/window.py:Window.taper"), ("cascade", PT + "processing/fourier_coefficients/decimation.py:fc_decimations_creator"),
      ("agreement", PT + "processing/aurora/decimation_level.py:DecimationLevel.is_consistent_with_archived_fc_parameters")],
     "window numbers, tapers (scipy by contract), cascades and level lists of any length, agreement over symbolic settings proved; lookup by number, channels and engines bounded",
     observe=["tapers, levels and acceptance returned"])

prop("P16", "Feature weights are the stated tapers, within [0,1] and monotone",
     "Every weight kernel returns one weight per feature value following its stated taper or activation, within [0, 1], equal to the stated limits beyond its transition bounds and monotone in the feature in the stated direction. "
     "A feature's weight combines its kernels, and a channel's weight its features, by exactly the stated rule (product, minimum, maximum or mean), whatever their number and order.",
     ["inputs", "configurations"], "all transition bounds, thresholds, styles, steepness values and feature values; any number of kernels and features",
     "tests evaluate a few fixed kernels on a few values; range, limits and monotonicity are for all values",
     [PT + "features/weights/" + f for f in ("monotonic_weight_kernel.py", "taper_monotonic_weight_kernel.py", "activation_monotonic_weight_kernel.py", "taper_weight_kernel.py", "feature_weight_spec.py", "channel_weight_spec.py")],
     [("kernels", PT + "features/weights/*:evaluate"), ("combination", PT + "features/weights/channel_weight_spec.py:ChannelWeightSpec.evaluate")],
     "kernels proved for arbitrary arrays and bounds; combination proved by loop contracts for any number of kernels and features (transcendental functions axiomatised)")

prop("P17", "Processing stations survive their table; Fourier collections stay in step",
     "A local station and its remote ones written as a dataset table give one row per run and time period (local first, then in order), and reading the table gives the same stations in place of any former ones, with the same path, remote flags, runs, periods (to the fraction of a second), rates, channels and scale factors, in the order of their first rows. A run or station is got exactly by its identifier, an added remote station is marked remote and goes last, and setting scale factors changes exactly those of the channels named. "
     "Fourier coefficients name exactly the decimation levels they hold, in order, through adding (in place when present, else last) and removing, and so do the estimated channels of a level; the period of either is the smallest one covering its former period and every start and every end its members have set. Levels made by decimation factors are numbered from 0, each has the rate of the one above divided by its factor and shares nothing with the others, and a series is long enough for a level exactly when the least number of its windows fits.",
     ["inputs", "histories"], "all lists of stations, runs, periods and channels; all sequences of adding and removing levels and channels; all factors, rates and lengths",
     "tests make tables of one or two runs with whole seconds and levels in the default order; order, membership and covering must hold for every list and every history",
     [PT + "processing/aurora", PT + "processing/fourier_coefficients"],
     [("table of a station", PT + "processing/aurora/station.py:Station.to_dataset_dataframe"), ("stations of a table", PT + "processing/aurora/stations.py:Stations.from_dataset_dataframe"), ("levels", PT + "processing/fourier_coefficients/fc.py:FC.add_decimation_level"), ("periods", PT + "processing/fourier_coefficients/decimation.py:Decimation.update_time_period"), ("levels by factors", PT + "processing/fourier_coefficients/decimation.py:fc_decimations_creator")],
     "tables out, lookups, scale factors, periods, levels and channels proved for lists of any length by loop and mapping contracts; tables in and levels by factors bounded in the number of rows and factors, symbolic in their content; pandas by contract and at run time",
     state=[("collections", "ordered names -> level or channel", PT + "processing/fourier_coefficients/fc.py:FC.levels")],
     observe=["dataset tables, get_run, get_station, remote, channel_scale_factors, levels, decimation_levels, channels, time_period, is_valid_for_time_series_length"])

prop("P18", "A transfer function stores each block at its channels and periods, nowhere else",
     "Setting the transfer function, impedance, tipper, one of their errors or model errors, the inverse signal power or the residual covariance stores exactly the given values at their output channel, input channel and period, under any channel names and for labelled values in any order, and leaves every other stored value alone; a wrong shape, label or number of periods is a TFError that changes nothing, and a block is reported absent exactly when all its values are zero. "
     "Once both covariances are set, in either order, each error is the square root of the magnitude of residual times inverse signal power of its channels, and changing the periods or frequencies (reciprocals of each other) changes no value. "
     "Merging gives, in increasing order, exactly the periods inside each contributor's inclusive range with that contributor's values, keeps the first one's metadata and leaves the inputs alone, and a copy equals the original and is independent of it.",
     ["inputs", "histories", "configurations"], "all blocks, values, numbers of periods, channel names, label orders and sequences of settings; all merges of disjoint ranges",
     "tests set each block once on small arrays with the default names; where a value lands must be right for every channel naming, order of labels and sequence of settings",
     [PT + "transfer_functions/core.py"],
     [("block storage", PT + "transfer_functions/core.py:TF._set_data_array"), ("errors", PT + "transfer_functions/core.py:TF._compute_error_from_covariance"), ("merge", PT + "transfer_functions/core.py:TF.merge")],
     "setters, getters, validation, covariance errors, periods proved over blocks with a symbolic number of periods and symbolic cells (xarray label selection by contract); merging, creation, copying bounded on real xarray",
     state=[("data set", "variable, output, input, period -> value", PT + "transfer_functions/core.py:TF._transfer_function")],
     observe=["impedance, tipper, transfer_function and their errors, inverse_signal_power, residual_covariance, period, frequency, merge, copy"])

prop("P19", "EDI files are read exactly and written so that they read back",
     "Reading an EDI file gives, in descending frequency, the impedance, tipper and errors (roots of the variances) that its data blocks print, whatever their order, line breaks and frequency order, 0 for an empty or unreadable value, the impedance of apparent resistivity sqrt(5 f rho) at the printed phase, or for spectra the least-squares responses of the cross powers with the errors of their residuals. "
     "Writing a transfer function and reading the file gives the same periods, impedance, tipper, errors and rotation angles to at least six digits, with the same station, position, elevation, declination, survey, project, author and channel geometry. "
     "Reading, writing and reading again changes nothing more.",
     ["inputs", "configurations"], "all values of every data block and of every cross power, any number of frequencies, either order",
     "tests compare a few files; reading must be exact for every block layout, value and channel list and the round trip must hold for every transfer function",
     [PT + "transfer_functions/io/edi/edi.py", PT + "transfer_functions/io/edi/metadata/header.py", PT + "transfer_functions/io/edi/metadata/define_measurement.py", PT + "transfer_functions/core.py"],
     [("data blocks", PT + "transfer_functions/io/edi/edi.py:EDI._read_mt"), ("spectra", PT + "transfer_functions/io/edi/edi.py:EDI._read_spectra"), ("writing", PT + "transfer_functions/io/edi/edi.py:EDI._write_data_block"), ("transfer", PT + "transfer_functions/core.py:TF.from_edi")],
     "block reading (any number of tokens), frequency order, apparent resistivity, spectra responses, covariances and errors, block writing and TF/EDI transfer proved for symbolic values; header and definition sections and printed digits bounded on generated files",
     observe=["EDI attributes and TF blocks after read, written file"])

prop("P20", "EMTF files are read into geographic axes exactly and written without loss",
     "Reading an EMTF (zmm, zrr, zss) file stores every printed response, inverse signal power and residual covariance value at its channels and period (the covariances as the Hermitian matrices whose lower triangles are printed), with its header, whatever the order of channels and number of periods. "
     "On request the responses are turned from the channels' azimuths to north and east (optionally by the declination) so that for every magnetic field, given by its channels, they predict the same electric and vertical fields, and each error is the root of the residual times inverse signal power along those axes. "
     "A file written from values read without turning reads back as the same values, and writing it again gives the same text.",
     ["inputs", "configurations"], "all channel azimuths and orders, all responses and covariances, any number of periods",
     "tests read one file with nearly standard orientations; the rotation must hold for every azimuth, channel order and value",
     [PT + "transfer_functions/io/zfiles/zmm.py", PT + "transfer_functions/core.py"],
     [("rotation", PT + "transfer_functions/io/zfiles/zmm.py:ZMM.calculate_impedance"), ("filling", PT + "transfer_functions/io/zfiles/zmm.py:ZMM._fill_res_array_from_block")],
     "rotation, errors and Hermitian filling proved for symbolic azimuths, angle, values and number of periods (rational normal forms modulo sin^2+cos^2=1); parsing, header and writing bounded on generated files",
     observe=["calculate_impedance, calculate_tippers, dataset, TF after read, written file"])

prop("P21", "EMTF XML files keep every period, response, error, covariance and channel layout",
     "Reading an EMTF XML file stores, at every period of the file and under the channels each value names (in any order and case), the impedance, tipper, inverse signal power and residual covariance it gives, with errors the square roots of the variances and derived quantities ignored. "
     "Writing prints every period to at least nine and every value to at least seven digits, real then imaginary part, under its output and input channel, a zero as the empty value 1e32. "
     "Writing a transfer function and reading the file back gives the same periods, responses, errors and shared covariances to six digits, and the same station id, coordinates, survey, time period, and channel azimuths, positions, dipole lengths and sample rate.",
     ["inputs", "configurations"], "all values, any number of periods, every subset of quantities, orders of values and channel layouts",
     "tests read five files and compare a few of their values; every file and transfer function must keep its values",
     [PT + "transfer_functions/io/emtfxml/emtfxml.py", PT + "transfer_functions/io/emtfxml/metadata/data.py", PT + "transfer_functions/core.py"],
     [("reading a period", PT + "transfer_functions/io/emtfxml/metadata/data.py:TransferFunction.read_block"), ("writing a period", PT + "transfer_functions/io/emtfxml/metadata/data.py:TransferFunction.write_block"),
      ("conversion", PT + "transfer_functions/core.py:TF.to_emtfxml"), ("conversion back", PT + "transfer_functions/core.py:TF.from_emtfxml")],
     "reading, writing and converting periods, responses, errors and covariances proved for symbolic values and number of periods; the text of the file and the station and channel metadata bounded on generated files and transfer functions",
     observe=["TF after read, written file"])

prop("P22", "J files and Zonge AVG files put every printed value in its cell, period and sign",
     "Reading an AVG file gives, at each frequency and component it prints (whatever the order and whichever are missing), the response of the printed magnitude and milliradian phase, in the cell of the component for z positive down or up (tipper negated when up), with the error from resistivity and its percent error, and 0 with error 1 elsewhere; writing and reading back keeps frequencies and responses to the printed digits. "
     "Reading a J file gives, at each period it prints, every printed real, imaginary and error value in its cell, masked, missing or unreadable ones and absent rows as 0, without inventing or losing periods. "
     "The header values (position, station, angles, BIRRP parameters, blocks, receiver, version, time) are those printed, and reach the station, run, channel and transfer function metadata.",
     ["inputs"], "all values and numbers of rows and frequencies, every order and subset of components, both z directions",
     "tests read three files and compare shapes and a few numbers; every row, missing component, masked value and direction must be right",
     [PT + "transfer_functions/io/jfiles/jfile.py", PT + "transfer_functions/io/jfiles/metadata/header.py", PT + "transfer_functions/io/zonge/zonge.py", PT + "transfer_functions/io/zonge/metadata/header.py", PT + "transfer_functions/core.py"],
     [("rows to tensors", PT + "transfer_functions/io/zonge/zonge.py:ZongeMTAvg._fill_z"), ("tipper", PT + "transfer_functions/io/zonge/zonge.py:ZongeMTAvg._fill_t"), ("writing", PT + "transfer_functions/io/zonge/zonge.py:ZongeMTAvg._create_dataframe_from_arrays"),
      ("J file blocks", PT + "transfer_functions/io/jfiles/jfile.py:JFile.read"), ("J file header", PT + "transfer_functions/io/jfiles/metadata/header.py:Header.read_header")],
     "filling the tensors proved for any number of rows and frequencies and any values, conversions for all numbers; written rows for one frequency and J files of stated layouts with symbolic values and one row of any text (bounded); file text, headers and metadata bounded on generated files",
     observe=["ZongeMTAvg and JFile read, write, header, station_metadata; TF.from_avg, from_jfile, to_avg"])

prop("P23", "StationXML inventories and experiments translate into each other without loss",
     "An experiment written as a StationXML inventory has a network per survey, a station per station, a channel epoch per run and channel with its code, location, position, orientation, rate, times and the response built of its filters in order, the runs as equipment and the rest in comments. "
     "Reading the inventory back gives an experiment with the same surveys, stations, runs, channels and filters.",
     ["inputs"], "all experiments and all inventories with mt comments",
     "the tests of this part do not run without obspy",
     [PT + "timeseries/stationxml/xml_inventory_mt_experiment.py", PT + "timeseries/stationxml/xml_channel_mt_channel.py"],
     [("channels", PT + "timeseries/stationxml/xml_channel_mt_channel.py:XMLChannelMTChannel.xml_to_mt"), ("inventory", PT + "timeseries/stationxml/xml_inventory_mt_experiment.py:XMLInventoryMTExperiment.mt_to_xml")],
     "not claimed")
NA.append({"property": "P23", "reason": "obspy is not installed in this sandbox and cannot be fetched: the package refuses to import without it and every function builds or reads obspy objects, so no contract on this code can be checked against the code that runs"})
