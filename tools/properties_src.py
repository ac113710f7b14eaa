#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: python3 tools/properties_src.py > properties.jsonl"""
import json
import sys

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(
        dict(
            id=id, title=title, statement=statement,
            quantifier=dict(over=list(over), text=text),
            why_tests_cant=why,
            anchors=dict(
                files=list(files),
                mechanism=[dict(name=n, where=w) for n, w in mech],
                state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                observe_at=list(observe), hook_needed=hook,
            ),
        )
    )


prop(
    "P01", "Metadata survives dict and JSON export and re-import",
    "For every metadata class and every set of valid field values, exporting an object to a dictionary (nested or flattened), to JSON text or to a JSON file, and loading the result into a new object of the same class, gives back every exported field with an equal value. Exporting has no side effect on the object, and exporting the re-imported object gives the same dictionary again.",
    ["inputs", "programs"],
    "all public metadata classes (base, time series, filters, transfer functions, processing, features) x all valid assignments of their scalar, enum, list, date, nested fields x the export/import form used",
    "Tests round-trip a handful of hand-written dictionaries for some classes; the guarantee is over every class and every combination of values, including empty, falsy, unicode, far-past dates and nested values.",
    ["mt_metadata/base/metadata.py", "mt_metadata/base/helpers.py", "mt_metadata/timeseries", "mt_metadata/transfer_functions", "mt_metadata/processing", "mt_metadata/features"],
    [("to_dict/from_dict", "mt_metadata/base/metadata.py"), ("to_json/from_json/load", "mt_metadata/base/metadata.py"), ("flatten_dict/structure_dict/NumpyEncoder", "mt_metadata/base/helpers.py")],
    observe=["MetadataBase.to_dict", "MetadataBase.from_dict", "MetadataBase.to_json", "MetadataBase.from_json"],
)
prop(
    "P02", "Metadata survives XML and pandas Series export and re-import",
    "For every class of the time-series, common, feature and transfer-function metadata standard and every set of valid field values that XML text can carry, exporting an object to an XML element or XML text and loading it into a new object of the same class gives back every exported field with an equal value; the same holds for export to a pandas Series. The XML text produced is always well formed.",
    ["inputs", "programs"],
    "all common, time-series, filter, feature and transfer-function metadata classes x all valid assignments of fields (text restricted to characters legal in XML, without leading/trailing whitespace) x element/text/Series form",
    "Tests convert a few fixed objects; escaping, typed attributes, lists, numbers written as text and nested names go wrong only for particular values.",
    ["mt_metadata/base/metadata.py", "mt_metadata/base/helpers.py"],
    [("to_xml/from_xml/to_series/from_series", "mt_metadata/base/metadata.py"), ("dict_to_xml/element_to_dict/recursive_split_xml", "mt_metadata/base/helpers.py")],
    observe=["MetadataBase.to_xml", "MetadataBase.from_xml", "MetadataBase.to_series"],
)
prop(
    "P03", "Assigning a field stores a valid value or changes nothing",
    "Assigning any value to any declared value field of a metadata object (directly, at construction, or through an update; name lists that build child objects aside) either raises an error and leaves every field as it was, or stores a value of the declared type that meets the field's declared options, ranges and patterns. The stored value is a fixed point: assigning it again stores the same value, and a value already in canonical form is stored unchanged.",
    ["inputs", "histories"],
    "all declared fields of all metadata classes x arbitrary candidate values (right type, convertible text, numbers, wrong types, None, out-of-range, unknown option) x short sequences of assignments",
    "Tests try one good and one bad value for some fields; atomicity and idempotence have to hold for every field and candidate, also after earlier failed assignments.",
    ["mt_metadata/base/metadata.py", "mt_metadata/base/pydantic_helpers.py", "mt_metadata/common", "mt_metadata/timeseries", "mt_metadata/utils/validators.py"],
    [("validate_assignment and field validators", "mt_metadata/base/metadata.py"), ("validators", "mt_metadata/common/*.py"), ("enumerations", "mt_metadata/common/enumerations.py")],
)
prop(
    "P04", "Dotted-name access reaches exactly the named field",
    "For every metadata object and every dotted field name it advertises, reading through the dotted name returns the same value as walking the attributes, writing through the dotted name changes that field and nothing else, and the written value is what both ways of reading then return. The advertised list of names is exactly the set of leaf fields an export contains when nothing is filtered, and adding a new attribute makes it readable, writable and exported without disturbing the other fields.",
    ["inputs", "histories"],
    "all metadata classes x all advertised names x sequences of dotted reads/writes/update/added attributes",
    "Tests check a few names; interference between fields or objects shows only in sequences over the full name set.",
    ["mt_metadata/base/metadata.py", "mt_metadata/base/helpers.py"],
    [("get_attr_from_name/set_attr_from_name/update_attribute/add_new_field", "mt_metadata/base/metadata.py"), ("recursive_split_getattr/recursive_split_setattr", "mt_metadata/base/helpers.py")],
)
prop(
    "P05", "Equality, copy and update behave as values",
    "For metadata objects of the same class, equality is reflexive and symmetric, a copy is equal to its source and shares no mutable state with it, and two objects that differ in a single exported field are unequal (numbers within the documented tolerance excepted). Updating one object from another of the same class gives the first every value the second has set, leaves the second untouched, and never links the two.",
    ["inputs", "histories"],
    "all metadata classes x pairs of objects that are equal or differ in one field x sequences of copy, update and mutate on either side",
    "Tests compare a few objects; hidden sharing is only visible when one side is mutated after a copy or update, for every field kind.",
    ["mt_metadata/base/metadata.py"],
    [("__eq__/__ne__/copy/update/load", "mt_metadata/base/metadata.py")],
)
prop(
    "P06", "The field catalogue never depends on cache state",
    "The description of a class's fields (names, types, required, default, units, options) that the library reports is a function of the class definition alone: it is the same with the on-disk cache absent, populated, disabled, truncated, corrupted, written by an older class definition, unwritable, or being written by another process at the same time. Callers that alter a returned description never change what later callers receive.",
    ["fault_sequences", "crash_points", "schedules", "configurations"],
    "all metadata classes x cache states (missing, warm, stale after a class edit, truncated at any byte, garbage, read-only, concurrent writers) x sequences of queries and caller mutations",
    "Tests look at one warm or cold cache; stale and torn cache files and concurrent processes are outside what a single test run reaches.",
    ["mt_metadata/base/pydantic_helpers.py", "mt_metadata/base/metadata.py", "mt_metadata/base/schema.py"],
    [("field tree cache and fingerprint", "mt_metadata/base/"), ("get_all_fields/attribute_information", "mt_metadata/base/metadata.py")],
    state=[("cache file", "JSON file per class holding its field tree and a fingerprint", "MT_METADATA_CACHE_DIR or ~/.cache/mt_metadata")],
)
prop(
    "P07", "Date-time text denotes one UTC instant and round-trips",
    "Every supported way of giving a time (ISO text with or without zone or fraction, date only, datetime, numpy and pandas timestamps, epoch seconds, epoch nanoseconds, obspy times) yields an object denoting exactly that UTC instant to the nanosecond where text, pandas timestamps and integer nanoseconds carry it and to the microsecond for datetimes, floats, numpy and obspy times, and times with an offset are converted, not relabelled. Its text, epoch, date, year/month/day and ISO representations all denote that same instant, re-reading the text gives an equal object, and 24:00 is the next midnight, GPS times lose the leap seconds in force, dates out of range are clipped to the documented limits, and text that names no existing date is refused and leaves the holder unchanged.",
    ["inputs"],
    "all instants in the supported range (1677-2262, UTC) x input forms x zones x precisions, plus malformed text",
    "Tests hold a few dozen date strings; precision loss, zone handling and boundary dates depend on the value.",
    ["mt_metadata/common/mttime.py"],
    [("MTime parsing", "mt_metadata/common/mttime.py"), ("iso_str/epoch_seconds/date/…", "mt_metadata/common/mttime.py")],
)
prop(
    "P08", "Time comparison is a total order and arithmetic matches it",
    "Comparison of times (with each other and with any supported time input) is a total order consistent with the instants they denote: exactly one of less, equal, greater holds, and the non-strict and strict operators agree with it. Adding or subtracting a number of seconds or a timedelta moves the instant by exactly that much, subtracting two times returns their distance, equal times hash alike if hashable, and GPS-to-UTC conversion subtracts the leap seconds in force at that date.",
    ["inputs", "histories"],
    "all pairs and triples of times (equal, 1 ns apart, far apart), all operand forms, and chains of additions/subtractions",
    "Order axioms quantify over pairs and triples; tests compare a few fixed pairs.",
    ["mt_metadata/common/mttime.py"],
    [("__eq__/__lt__/__gt__/__add__/__sub__", "mt_metadata/common/mttime.py"), ("calculate_leap_seconds", "mt_metadata/common/mttime.py")],
)
prop(
    "P09", "Positions keep their value and sign in every notation",
    "A latitude, longitude or elevation given as number, decimal text or degrees:minutes:seconds text is stored as the decimal value it denotes, including sign, and converting decimal degrees to degrees:minutes:seconds text and back gives the same position to the precision of the text. Latitudes outside ±90 and malformed positions raise an error, longitudes outside ±180 are handled as documented, and a valid position is never changed to another one.",
    ["inputs"],
    "all positions in range, particularly within one degree of the equator, Greenwich, the date line and minute/second roll-over, x notation x object (location, station, run, survey corners)",
    "Tests use a few mid-latitude positions; sign loss near zero and roll-over at 60 seconds need particular values.",
    ["mt_metadata/utils/location_helpers.py", "mt_metadata/common/location.py", "mt_metadata/timeseries"],
    [("validate_position/convert_position_str2float/convert_position_float2str", "mt_metadata/utils/location_helpers.py"), ("BasicLocation validators", "mt_metadata/common")],
)
prop(
    "P10", "Unit names and symbols canonicalise to one unit",
    "Looking up a unit by its full name, symbol or alias, in any letter case the library accepts, always finds that same unit, and looking up the resulting name or symbol again returns it unchanged. Compound unit expressions (products and ratios, with or without spaces around the slash) keep their factors in order and meaning, an unknown unit is reported and never turned into a different known unit, and every place that stores a unit stores the same canonical form.",
    ["inputs"],
    "all units in the catalogue x name/symbol/alias x letter case x one- to three-factor expressions, plus unknown strings",
    "Tests cover a few units; collisions and case handling depend on the pair of entries.",
    ["mt_metadata/common/units.py", "mt_metadata/timeseries/channel.py", "mt_metadata/timeseries/filters/filter_base.py"],
    [("get_unit_object/get_unit_from_df", "mt_metadata/common/units.py")],
)
prop(
    "P11", "ListDict behaves as one ordered mapping",
    "Under any sequence of append, set, get, insert/replace, delete, pop, remove, sort, update, extend and copy operations the ordered keyed list stays consistent: length, iteration, keys, values, items, access by key, by position and by slice all describe the same sequence of entries, and each operation has exactly its documented effect on that sequence. An operation that fails leaves it unchanged.",
    ["histories"],
    "all sequences of operations over a small key set, with positions, slices, missing keys and duplicate keys",
    "Tests run one operation at a time on a fixed list; the guarantee is over histories.",
    ["mt_metadata/common/list_dict.py"],
    [("ListDict", "mt_metadata/common/list_dict.py")],
)
prop(
    "P12", "Survey/station/run/channel membership stays consistent",
    "Under any sequence of add, add-by-dict, replace, remove, merge, get and has operations on surveys, stations, runs and channels, the recorded-name lists, the counts, membership tests and lookups all describe the same set of children, with exactly the children added and not removed, in order. Adding a child updates an existing child of the same name instead of duplicating it, removing one leaves its siblings untouched, and parents never share a child object with another tree after a merge or copy.",
    ["histories"],
    "all sequences of hierarchy operations at each level with a small pool of names",
    "Tests build one fixed tree; inconsistencies arise after removals, re-adds and merges in particular orders.",
    ["mt_metadata/timeseries/run.py", "mt_metadata/timeseries/station.py", "mt_metadata/timeseries/survey.py", "mt_metadata/timeseries/experiment.py"],
    [("add_channel/remove_channel/add_run/remove_run/add_station/merge", "mt_metadata/timeseries/*.py")],
)
prop(
    "P13", "Parents' time spans and bounding boxes enclose their children",
    "After children are added, or an update is requested, the time period of a run, station or survey starts no later and ends no earlier than any child with a set time period, is tight (each end is attained by a child or was the parent's own set value), and children without times never drag it to the default date. A survey's bounding box corners likewise enclose exactly its stations' positions, in every hemisphere.",
    ["inputs", "histories"],
    "all sets of children with arbitrary positions and time periods (set, unset, equal, nested, disjoint), in any insertion order",
    "Tests use one or two children with fixed values; order and unset values matter.",
    ["mt_metadata/timeseries/run.py", "mt_metadata/timeseries/station.py", "mt_metadata/timeseries/survey.py"],
    [("update_time_period/update_bounding_box", "mt_metadata/timeseries/*.py")],
)
prop(
    "P14", "An experiment survives XML, JSON and dictionary round trips",
    "Writing an experiment with any number of surveys, stations, runs, channels and filters to XML, JSON or a dictionary and reading it back gives the same tree: same children in the same order at each level, same channel kinds, same metadata values, and the same filters of the same types with the same parameters.",
    ["inputs"],
    "all experiment trees (including empty levels, a single filter, repeated names in different stations, every channel kind and filter type) with arbitrary valid metadata",
    "Tests round-trip two or three example files; singletons, empties and particular filter types take different paths.",
    ["mt_metadata/timeseries/experiment.py", "mt_metadata/timeseries/survey.py", "mt_metadata/timeseries/filters"],
    [("to_xml/from_xml/to_dict/from_dict/to_json/from_json", "mt_metadata/timeseries/experiment.py"), ("_read_filter_dict", "mt_metadata/timeseries/experiment.py")],
)
prop(
    "P15", "Experiment to StationXML and back preserves the survey",
    "Converting an experiment to a StationXML inventory and back keeps, for each survey, station, run and channel that StationXML can carry: names, coordinates and elevation, orientation, start and end times, sample rates, channel kinds, run membership of channels, channel dipole/sensor facts that are written as comments, and the calibration filters applied. Nothing is attributed to another station, run or channel.",
    ["inputs"],
    "all experiments with valid FDSN codes, several stations, runs and channels, changing sample rates and orientations between runs",
    "Tests convert a few example inventories; mis-attribution needs several runs/channels with particular overlaps.",
    ["mt_metadata/timeseries/stationxml"],
    [("XMLInventoryMTExperiment", "mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py"), ("XMLChannelMTChannel", "mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py"), ("XMLStationMTStation", "mt_metadata/timeseries/stationxml/xml_station_mt_station.py")],
)
prop(
    "P16", "FDSN channel codes encode sample rate, kind and orientation",
    "For every sample rate, measurement kind and orientation angle the generated FDSN channel code has the band letter of the sample-rate interval, the instrument letter of the measurement, and the orientation letter of the angle, and reading the code back reports that kind and direction and, for a rate inside a band, a sample-rate range containing the rate. Equivalent angles give the same letter, and a code of the wrong length or with an unknown kind or orientation letter is rejected.",
    ["inputs"],
    "all positive sample rates including interval edges, all measurement kinds, azimuths over several turns, and arbitrary 3-letter codes",
    "Tests sample a few codes; interval edges and quadrant boundaries are where codes go wrong.",
    ["mt_metadata/timeseries/stationxml/fdsn_tools.py"],
    [("get_sampling_code/get_period_code/get_orientation_code/make_channel_code/read_channel_code/create_mt_component", "mt_metadata/timeseries/stationxml/fdsn_tools.py")],
)
prop(
    "P17", "Each filter's complex response equals its mathematical definition",
    "For every filter type and parameter set, the complex response at any frequencies equals the value of the defining formula (pole-zero rational function, gain, time-delay phase ramp, FIR transform, interpolated frequency-amplitude-phase table) including its gain. It is the same whether frequencies come as list or array, in any order or batch, computing it does not modify the filter or the input, and derived facts such as decimation, total gain and unit pairing agree with it.",
    ["inputs", "configurations"],
    "all parameter sets of each filter type x frequency arrays",
    "Tests compare a few filters at few frequencies; the formula must hold for all parameters.",
    ["mt_metadata/timeseries/filters"],
    [("complex_response", "mt_metadata/timeseries/filters/*.py")],
)
prop(
    "P18", "A channel's total response is the product of its chosen filters",
    "The complex response of a filter chain equals the product of the responses of its included filters, with delay and decimation filters in or out exactly as requested, independent of grouping and evaluation order, and normalising divides only by the documented quantity. The chain accepts exactly those filter lists whose units connect, its total delay, delay filters, input/output units and pass band derive from its members, and evaluating it changes no member and nothing of the chain but the frequencies it remembers.",
    ["inputs", "configurations", "histories"],
    "all lists of up to six filters of mixed types and units x include flags x frequency arrays x repeated evaluation",
    "Tests use one or two fixed chains and flags.",
    ["mt_metadata/timeseries/filters/channel_response.py"],
    [("ChannelResponse.complex_response/_check_consistency_of_units/total_delay", "mt_metadata/timeseries/filters/channel_response.py")],
)
prop(
    "P19", "Filters survive conversion to obspy response stages and back",
    "Converting any filter to an obspy response stage and back gives a filter of the same type with the same name, units, gain, and parameters, hence the same complex response; and the stage itself carries the same gain, units, poles, zeros, coefficients, decimation and delay. A full channel response converted to an obspy response has its stages in order and a total sensitivity equal to the chain's gain at the reported frequency.",
    ["inputs"],
    "all parameter sets of each filter type, stage numbers and chains",
    "Tests convert a few filters.",
    ["mt_metadata/timeseries/filters", "mt_metadata/timeseries/filters/obspy_stages.py"],
    [("to_obspy/create_filter_from_stage", "mt_metadata/timeseries/filters/*.py")],
)
prop(
    "P20", "A channel's applied-filter list keeps order, names and flags",
    "Under any sequence of adding, removing and replacing applied filters on a channel, the list holds each filter name once (names differ in more than case), in stage order, numbered by position when no stage is given and renumbered 1..n on removal unless asked not to, each with the flag and comment given for it; adding a name again changes nothing. Exporting and reloading the channel keeps names, order, stages, flags and comments, including the older separate name-list and flag-list form.",
    ["histories", "inputs"],
    "all sequences of add/remove/assign with and without explicit stage numbers over a small pool of names; old and new dictionary forms",
    "Tests add two filters; renumbering depends on the sequence.",
    ["mt_metadata/timeseries/channel.py", "mt_metadata/timeseries/filtered.py", "mt_metadata/timeseries/filters/filtered.py"],
    [("add_filter/remove_filter", "mt_metadata/timeseries/channel.py"), ("AppliedFilter", "mt_metadata/timeseries/filters")],
)
prop(
    "P21", "A transfer-function object keeps its arrays consistent",
    "Whatever sequence of valid assignments of period, impedance, tipper, full transfer function, their errors and covariances is made, reading any quantity back returns what was last assigned for that same channel pair and period, dimensions and labels always agree, every array handed out is labelled with the survey, station and place it belongs to, and what is present is reported as present and the rest as absent. Assigning an array of the wrong shape raises and leaves the object unchanged, reading does not modify it, and a copy is equal and independent.",
    ["histories", "inputs"],
    "all sequences of set/get on period, impedance, tipper, transfer function, errors, residual covariance and inverse signal power, with arrays of arbitrary values and 1..30 periods",
    "Tests set each once in one order.",
    ["mt_metadata/transfer_functions/core.py"],
    [("TF setters/getters/has_*", "mt_metadata/transfer_functions/core.py")],
)
prop(
    "P22", "Transfer functions survive writing to and reading from files",
    "Writing a transfer function with any periods, impedances, tippers and errors to an EDI, EMTF XML or Z-file and reading the file back gives the same periods, the same complex impedance and tipper and the same errors to the precision written, for any number of periods and ordering, with or without tipper. Channel pairs are never swapped, signs and conjugation never flip, and the same holds after converting between these formats.",
    ["inputs"],
    "all transfer functions with 1..40 periods, arbitrary complex elements in a wide magnitude range, with/without tipper and covariances x source and target format",
    "Tests re-write a few example files whose values are smooth and fully populated.",
    ["mt_metadata/transfer_functions/io", "mt_metadata/transfer_functions/core.py"],
    [("EDI read/write", "mt_metadata/transfer_functions/io/edi/edi.py"), ("EMTFXML read/write", "mt_metadata/transfer_functions/io/emtfxml/emtfxml.py"), ("ZMM read/write", "mt_metadata/transfer_functions/io/zfiles/zmm.py")],
)
prop(
    "P23", "Station and survey metadata survive transfer-function files",
    "Writing a transfer function to an EDI, EMTF XML or Z-file and reading it back keeps the station name, latitude, longitude, elevation, and channel orientation angles to the precision the format writes; EMTF XML and EDI further keep survey name, acquisition dates, author, remote references and processing facts that those formats carry, and EMTF XML the run names, declination and provenance (who made and submitted it). Positions keep their sign in every hemisphere and text values come back unchanged.",
    ["inputs"],
    "all valid station metadata: positions in all hemispheres, elevations, angles, names and free text including XML special characters x format",
    "Tests compare a few example files.",
    ["mt_metadata/transfer_functions/io", "mt_metadata/transfer_functions/core.py"],
    [("station_metadata/survey_metadata properties", "mt_metadata/transfer_functions/io/*"), ("to_edi/from_edi/to_emtfxml/from_emtfxml/to_zmm/from_zmm", "mt_metadata/transfer_functions/core.py")],
)
prop(
    "P24", "Third-party transfer-function files are imported as published",
    "Reading an EDI file with impedance, spectra, or apparent resistivity and phase blocks, a Z-file, a J-file or a Zonge AVG file yields the periods, impedances, tippers and errors that the file's numbers define by that format's published formulas (AVG files define no errors), for every value the file may hold, in every quadrant, for ascending or descending frequency and any channel ordering the format allows.",
    ["inputs"],
    "all synthetic files of each format built from known transfer functions: any number of periods, any values, missing blocks, orderings, comments and header variants",
    "Tests read one or two files per format and compare a few printed numbers recorded from the code itself.",
    ["mt_metadata/transfer_functions/io/edi/edi.py", "mt_metadata/transfer_functions/io/jfiles/jfile.py", "mt_metadata/transfer_functions/io/zonge/zonge.py", "mt_metadata/transfer_functions/io/zfiles/zmm.py"],
    [("_read_mt/_read_spectra/_read_z/rho-phase reader", "mt_metadata/transfer_functions/io/edi/edi.py"), ("JFile.read", "mt_metadata/transfer_functions/io/jfiles/jfile.py"), ("ZongeMTAvg.read", "mt_metadata/transfer_functions/io/zonge/zonge.py"), ("ZMM.calculate_impedance", "mt_metadata/transfer_functions/io/zfiles/zmm.py")],
)
prop(
    "P25", "Merging transfer functions takes each period from its source",
    "Merging transfer functions with given period ranges gives a transfer function whose periods are exactly the periods selected from each source, sorted and each kept once per source that selects it, and whose values and errors at each period are those of the source it was selected from. The sources are left unchanged and the merged object is independent of them.",
    ["inputs"],
    "all sets of 2..4 transfer functions with arbitrary, partly overlapping period lists and arbitrary period limits (open or closed)",
    "Tests merge two fixed files.",
    ["mt_metadata/transfer_functions/core.py"],
    [("TF.merge", "mt_metadata/transfer_functions/core.py")],
)
prop(
    "P26", "Frequency bands partition and select as declared",
    "A band contains a frequency exactly when its declared closure (left, right, both) says so, the harmonics and indices it selects from a spectral axis are exactly those contained, its centre, width and period limits follow from its edges, and overlap and containment of two bands are reported truthfully. A collection of bands returns its bands in the requested order without changing itself, sorts as requested, its adjoining bands share no frequency and lose none, and it is preserved by export and import; a decimation level's bands give exactly the harmonics, edges and bounds of its bands.",
    ["inputs", "histories"],
    "all band edges, closures, centre conventions, spectral axes (with bin frequencies equal to edges) and sequences of appends in any order",
    "Tests use one band set; edge coincidences are value dependent.",
    ["mt_metadata/common/band.py", "mt_metadata/processing/aurora/frequency_bands.py", "mt_metadata/processing/aurora/decimation_level.py"],
    [("Band/FrequencyBands", "mt_metadata/common/band.py")],
)
prop(
    "P27", "Processing configuration stays internally consistent",
    "A processing configuration built from band edges, decimation factors or a dataset table has exactly one decimation level per level (also when levels are assigned again), sample rates that are divided by the product of the decimation factors down to the level, and each level's bands, edges and harmonic indices are those given for it. Its station/run table converts from and to a data frame without loss, reading another table replaces the first, a remote-reference engine is kept exactly when there is a remote station, and exporting and reloading gives the same, independent configuration. Changing the channel nomenclature or the channel lists renames channels in this configuration only.",
    ["inputs", "histories", "configurations"],
    "all band-edge dictionaries, decimation factor lists, station/run/remote sets, nomenclatures and sequences of assignments",
    "Tests build one or two default configurations.",
    ["mt_metadata/processing/aurora"],
    [("Processing.assign_bands/drop_reference_channels/…", "mt_metadata/processing/aurora/processing.py"), ("Stations/Run dataset_dataframe", "mt_metadata/processing/aurora/stations.py"), ("ChannelNomenclature", "mt_metadata/processing/aurora/channel_nomenclature.py")],
)
prop(
    "P28", "Fourier-coefficient and window metadata describe what was computed",
    "Window and Fourier-coefficient metadata report derived quantities (window step, taper coefficients, available frequencies, sample rates and factors of created levels, whether a series is long enough for the required windows, time spans of levels and groups) that equal their definitions for the currently stored parameters, also after parameters change and after export and import. An archived level made from a processing level is recognised as consistent with it and independent of it, and is not recognised when any relevant parameter, channel or harmonic differs.",
    ["inputs", "histories"],
    "all window types and lengths, overlaps, decimation factors, channel sets, harmonic index sets, and sequences of parameter changes",
    "Tests compute one default case.",
    ["mt_metadata/processing"],
    [("Window", "mt_metadata/processing/window.py"), ("ShortTimeFourierTransform", "mt_metadata/processing/short_time_fourier_transform.py"), ("FourierCoefficients Decimation", "mt_metadata/processing/fourier_coefficients")],
)
prop(
    "P29", "Weighting kernels give bounded, monotone, shape-correct weights",
    "Every feature-weight kernel maps finite feature values to weights between 0 and 1 that equal its declared taper or activation of the relative position between its bounds, are monotone in the declared direction and constant beyond the bounds, and do not depend on how values are batched, ordered, shaped or typed, also after its parameters change. A feature's weight is the product of its active kernels, a channel's weight combines its features as declared, the weight picked for a band is the one at the nearest frequency, and kernels, features and combinations survive export and import.",
    ["inputs", "configurations"],
    "all kernel types, threshold pairs (finite and infinite), transition widths, styles and value arrays",
    "Tests evaluate a few points of two kernels.",
    ["mt_metadata/features/weights"],
    [("TaperMonotonicWeightKernel/ActivationMonotonicWeightKernel/TaperWeightKernel", "mt_metadata/features/weights")],
)
prop(
    "P30", "Coherence features compute what they declare",
    "The coherence features compute magnitude-squared coherence by its definition for the window, overlap and detrending they describe (with the arguments the window carries): values between 0 and 1, symmetric in the two series, unchanged by scaling either series, one for linearly related series. The striding form gives one row per main window that fits, each depending on that window's samples only, the same serially and in parallel; the Fourier-coefficient form gives zero where there is no power. Inputs are not changed. Stations are assigned to channels by the declared rule, and a feature is built from its registered name.",
    ["inputs", "configurations", "schedules"],
    "all series, windows (types with arguments, lengths, overlaps), detrending, gaps, main and sub windows, serial and parallel execution, station sets",
    "Tests compare a few shapes; no test compares the numbers with the definition.",
    ["mt_metadata/features"],
    [("Coherence.compute/validate_station_ids", "mt_metadata/features/coherence.py"), ("StridingWindowCoherence.compute", "mt_metadata/features/striding_window_coherence.py"), ("FCCoherence.compute", "mt_metadata/features/fc_coherence.py"), ("registry", "mt_metadata/features/registry.py")],
)

for p in P:
    assert len(p["title"]) <= 80, p["id"]
    sys.stdout.write(json.dumps(p, ensure_ascii=False) + "\n")
