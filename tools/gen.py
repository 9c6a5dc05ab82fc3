"""Writes properties.jsonl and MANIFEST.json from the table below (developer tool; the
committed files are what counts)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, na=na))


PAR, PSET, REG, VIEWS, TIME, UNITS, CORE, ADA, DICE, BASE, FILT, OFFS, PTY, SDF = [
    "openscm/" + x for x in (
        "core/parameters.py", "core/parameterset.py", "core/regions.py", "core/views.py", "core/time.py",
        "core/units.py", "core/__init__.py", "adapters/__init__.py", "adapters/dice.py", "scmdataframe/base.py",
        "scmdataframe/filters.py", "scmdataframe/offsets.py", "scmdataframe/parameter_type.py", "scmdataframe/__init__.py")]

PATHS = "path-sensitive interprocedural value-flow analysis of the source (all paths of the entry points, callees inlined) against decision tables"

prop("C01", "Aggregated parameters are read-only and used parameters take no children",
     "A parameter that has child parameters can never be written to, neither by assigning all values nor single items nor by publishing a locked view; such an attempt raises the read-only error. "
     "A new child parameter can never be added below a parameter that a user has written to (written error) or accessed for reading (read error), whereas existing children stay accessible. "
     "A record that a parameter was read or written is never taken back.",
     ["histories", "inputs"], "every sequence of creating, reading and writing parameters of a hierarchy through any number of views",
     "tests sample a few sequences with two levels; the guarantee is over all sequences and all write operations",
     [PAR, VIEWS], [("typestate flags and guards", "_Parameter.get_or_create_child_parameter, attempt_read, attempt_write"), ("setters of the views", VIEWS)],
     ["ParameterReadonlyError, ParameterWrittenError, ParameterReadError"],
     PATHS + "; typestate of parameters",
     "All paths of the guards and of every store of parameter data are decided; who may clear the flags is decided for the whole package.")
prop("C02", "First access fixes a parameter's type, unit and time grid",
     "The first access to a parameter fixes its type, and for scalars and timeseries its native unit and (for timeseries) a private copy of the time points; no later access changes them. "
     "Accessing a parameter with a different type always raises the parameter type error and leaves it unchanged. "
     "Asking for a parameter with children as generic parameter raises the aggregation error.",
     ["histories", "inputs"], "every order of first and later accesses in any type, unit and grid",
     "tests check single pairs of types; all pairs and later accesses are not reached",
     [PAR, PSET], [("type check and initialisation on first access", "_Parameter.attempt_read")],
     ["ParameterTypeError, ParameterAggregationError"], PATHS,
     "Decided for all paths of the access function and of the functions which hand out views.")
prop("C03", "A value that has never been written is never returned",
     "Reading a scalar, generic or timeseries parameter that has not been written to raises the empty error instead of returning a placeholder, also when it is read as part of an aggregated parameter or through single items, iteration or arithmetic on its values. "
     "The empty flag of a parameter is true exactly as long as nothing has been written, and requiring a parameter fails exactly while it is empty.",
     ["histories"], "every sequence of view creations, reads and writes", "tests read one empty parameter per kind",
     [PAR, VIEWS], [("check in the getters", "ScalarView.value, TimeseriesView._get_values, GenericView.value, ParameterInfo.empty/ensure")],
     ["ParameterEmptyError"], PATHS, "All read paths of all views are decided.")
prop("C04", "An aggregated read is the sum over all leaf descendants in the view's terms",
     "Reading a parameter with children gives the sum over all its leaf descendants at any depth, each exactly once. "
     "Every descendant is read in the unit of the view and, for timeseries, on the view's time points with the view's timeseries type, interpolation and extrapolation.",
     ["inputs", "configurations"], "every parameter tree and every combination of unit, grid and interpolation settings",
     "tests use one tree with one setting", [VIEWS], [("views of the children", "ScalarView.__init__, TimeseriesView.__init__"), ("sums in the getters", VIEWS)],
     ["value/values of the view"], PATHS + "; structural induction over the recursive collection of child views",
     "The recursion over children, the arguments handed to the child views and the sums are decided.")
prop("C05", "Reads always show the latest write of any view",
     "Every completed write increases the version of the parameter by exactly one, and reading a view after a write through any view of the same parameter (or of a descendant) shows the new data; this includes values objects, items, iteration, arithmetic and array conversions of a handle that was obtained earlier. "
     "A view only skips re-reading when the parameter's version is the one it has read, and reading never changes the parameter's data. "
     "Assigning one item changes that item of the current data and no other; a locked view with pending writes shows its own pending values.",
     ["histories"], "every interleaving of reads and writes through several views and held handles", "tests look at short fixed sequences with two views",
     [VIEWS], [("version counter and cache", "TimeseriesView._read, _write, values, _Timeseries")], ["values seen through other views"],
     PATHS + "; cache typestate", "All paths of reading, writing and of the operations of the values object are decided. Numpy's copy semantics are assumed.")
prop("C06", "Reads and writes convert in opposite directions",
     "Reading converts from the parameter's native unit and time points to those of the view, writing converts from those of the view to the native ones, with the same pair of converters, so that each value passes exactly one unit and one time conversion in the right direction. "
     "A view reports the unit and the length in which it reads and expects values.",
     ["inputs"], "every value, unit pair and time grid", "tests use converters for which a wrong direction often cancels", [VIEWS, UNITS, TIME],
     [("convert_from / convert_to", VIEWS)], ["values read and stored"], PATHS, "The conversion chain of every read and write path is decided structurally.")
prop("C07", "A rejected write leaves no trace",
     "When a write is rejected (read-only, wrong length, failed unit or time conversion, wrong type) the parameter keeps its data, its version and its written state, so that readers cannot observe the attempt and children can still be added if they could before.",
     ["histories", "fault_sequences"], "every write operation failing at every point at which it can fail", "tests check the error but hardly ever the state after it",
     [VIEWS, PAR], [("order of checks, conversions and stores", "setters of the views, TimeseriesView._write")], ["data, version, empty after an error"],
     PATHS + "; exception-safety (commit-point) ordering", "Decides for each write path that everything that can fail comes before the first effect on the parameter.")
prop("C08", "Parameter data and caller arrays are isolated from each other",
     "An array that a caller assigns to a timeseries view or passes as time points is copied: changing it afterwards changes neither the parameter nor any view. "
     "The data stored in a parameter is never the buffer that a view hands out, so that only a write through a view changes a parameter, and one view's buffer is never shared with another view.",
     ["histories"], "every later in-place change of arrays passed in or handed out", "aliasing only shows with later mutation, which tests do not do",
     [VIEWS, PAR, TIME], [("copies at the boundary", "TimeseriesView.values setter, _Parameter.attempt_read, converters")], ["parameter data after changes of arrays"],
     PATHS + "; ownership / alias analysis of buffers", "Decides which reference reaches which store; relies on numpy's documented copy behaviour.")
prop("C09", "Locked views publish exactly their pending writes on unlock",
     "While a timeseries view is locked, writes through it do not change the parameter; unlocking publishes the latest values once if and only if the view was written to since it was locked, and afterwards every write is published immediately. "
     "Locking or unlocking without a write in between never changes the parameter.",
     ["histories"], "every sequence of lock, write, read and unlock", "tests only lock, write and unlock once", [VIEWS],
     [("lock and pending flags", "TimeseriesView.lock, unlock, _write")], ["version and data of the parameter"], PATHS + "; typestate of locks",
     "All paths of lock, unlock and the write operations are decided as a finite state machine.")
prop("C10", "Hierarchical names address the same object however they are written",
     "A name given as a string with separators and the same name given as a sequence address the same parameter or region, and the full name of the object found is that sequence. "
     "Looking up information never creates anything and finds a parameter or region exactly when it has been created, at every depth; empty names raise ValueError and a foreign root region is rejected on access and not found on lookup.",
     ["inputs", "histories"], "all names of any depth in both notations", "tests use a handful of names with up to three levels", [PAR, PSET, REG],
     [("recursive lookup and creation", "ParameterSet._get_*, _Region.get_*, _Parameter.get_subparameter, full_name")], ["info, views, ValueError"],
     PATHS + "; induction over the name", "Each level of the recursions is decided with head/tail induction.")

prop("C11", "Values of timeseries views behave like the array of current values",
     "The values object of a timeseries view behaves like a numpy array of the current values of the view: iterating gives every value once and in order, indexing with a number gives that value and indexing with anything else a values object with these items, converting to an array gives all values in the type asked for, and length, shape, type and size in bytes are those of the values. "
     "Operators and numpy functions get all their operands in the order given, where every values object is replaced by its own current values and everything else is passed on unchanged (including the method and other arguments of a numpy function); where a values object is given as output, the results are written to it.",
     ["inputs"], "every numpy function, operand, index and output", "tests use a few operators with one operand each; iteration and most functions are not covered",
     [VIEWS], [("numpy protocol", "_Timeseries")], ["results of iteration, indexing, operators and numpy functions on view.values"],
     PATHS, "All paths of the methods of the values object are decided; numpy's own behaviour is assumed.")
prop("C12", "Information about parameters and regions is current",
     "Information objects of parameters and all views give the current type, native unit and version of the parameter itself and say that it is empty exactly as long as nothing has been written to it; requiring a parameter fails with the empty error exactly while it is empty; asking for information changes nothing. "
     "A region gives its own name and parent; once a region has been marked as aggregated the mark stays and new subregions are refused with the aggregation error without an effect, while existing ones can be accessed, and in other regions subregions can always be created.",
     ["histories"], "every sequence of accesses, writes, aggregations and creations of subregions", "tests look at the information right after one operation",
     [PAR, REG], [("ParameterInfo", PAR), ("_has_been_aggregated", REG)], ["ParameterInfo properties, RegionAggregatedError"],
     PATHS + "; typestate of regions", "All paths are decided; that views use the same functions follows from inheritance, which the analysis resolves.")
prop("C13", "Allowed accesses, reads and writes succeed",
     "Accessing a parameter, reading and writing through a view fails only for the documented reasons: reading a parameter fails with the empty error only while nothing was written to it; writing fails with the read-only error only if the parameter has child parameters, "
     "with the type error only if its type is a different one, with the mismatch error only if the lengths differ; accessing fails only for names that are empty or have another root, for aggregated regions, for a different type, and for new children of parameters which were read or written to. "
     "No other error is raised by these operations themselves, whatever the values and the state, and each of them can succeed.",
     ["inputs", "histories"], "all values, states of parameters and views", "tests write a few values in a few states", [VIEWS, PAR, PSET, REG],
     [("raise statements", VIEWS), ("attempt_read, attempt_write", PAR)], ["exceptions of accesses and views"],
     PATHS + "; reasons of raised exceptions", "Decided on all paths that end with a raise statement; errors of unit and time conversion are those of the converters (U01, T02).")
prop("U01", "Unit conversion and its inverse are one consistent affine map",
     "A unit converter converts by one affine map obtained from the unit definitions at two distinct points, and converting back is its exact algebraic inverse, for units with and without offset and with or without a context. "
     "Converting never changes the values passed in.",
     ["inputs"], "all values and unit pairs", "tests check a few pairs numerically", [UNITS], [("scaling and offset", "UnitConverter")],
     ["converted values"], "symbolic linear algebra (rational normal forms) over the value-flow of the source", "The affine map and its inverse are decided algebraically over the source; pint is assumed to be affine.")
prop("U02", "Conversion contexts apply only where they are asked for",
     "A conversion without context never uses a metric or species-crossing rule, even when contexts are or have been used elsewhere; a conversion with a context uses exactly this context and it is not active any more afterwards, also after an error. "
     "All contexts are available from the first use on, independent of what was called before.",
     ["histories", "inputs"], "every order of conversions with and without contexts", "the order of tests hides leaks between conversions", [UNITS],
     [("scoped context", "UnitConverter.__init__, ScmUnitRegistry.enable_contexts")], ["results and DimensionalityError"], PATHS + "; scope pairing of contexts", "Decided on all paths of the converter and of the loading of contexts.")
prop("U03", "Context transformations are mutually inverse",
     "In every context the transformation between two species and the one back are exact inverses of each other and are defined for the same pairs in both directions; their factor is the ratio of the molar masses of carbon or nitrogen and the species, or in metric contexts the value of the table. "
     "Metric contexts convert a plain species, its mass, its flow and its mass flow alike.",
     ["inputs", "configurations"], "all contexts, species and dimensionalities", "tests check some pairs and often only one direction", [UNITS],
     [("add_transformation pairs", "ScmUnitRegistry._load_contexts, _load_metric_conversions")], ["converted values"], "symbolic algebra over the registered transformation functions extracted from the source", "Pairing, inverse relation and factor agreement are decided for every registration.")
prop("U04", "The table of gases defines each unit consistently",
     "Every species has exactly one definition: base species have distinct dimensions of their own, derived species are defined by the ratio of the molar mass of one atom (one molecule) of their base species to their own, and aliases mean their species. "
     "For each species the upper-case version and the joint mass units with grams and tonnes exist and mean the same as the separate units; parts per million, billion and trillion differ by factors of 1000.",
     ["configurations"], "every entry of the table", "tests use about ten of the hundred units", [UNITS], [("_standard_gases", UNITS), ("_add_gases", UNITS)],
     ["unit conversions"], "table analysis: the literal table and the definitions generated from it are extracted and checked exhaustively", "All entries are decided; molar masses are computed from the chemical formula with integer atomic masses.")
prop("U05", "Metric tables carry the published global warming potentials",
     "The metric contexts for the second, fourth and fifth assessment reports use the published 100-year global warming potentials: every value of every gas in the table that is read is the published one (or empty where the report gives none), no gas is left out or listed twice, "
     "every species in the table is a defined unit, and every value is a positive number or empty.",
     ["configurations"], "every cell of the table", "tests look at a few cells", ["openscm/data/metric_conversions.csv", UNITS], [("metric_conversions.csv", "openscm/data"), ("_load_metric_conversions", UNITS)], ["conversions to CO2 equivalents"],
     "table analysis: the file, reader options, rows and columns which the loading code uses are taken from its value-flow; every cell is compared with the published tables",
     "Exhaustive over the table as it is read; the published values are a pinned copy in the rule, checked by hand against the reports.")
prop("T01", "Interpolation of averages preserves the averages",
     "The piecewise linear representation of a series of interval averages is continuous and reproduces each interval's average exactly, including the first and the last interval. "
     "Its points are the interval edges and the interval middles in increasing order.",
     ["inputs"], "all values and series lengths", "tests compare fixed arrays with tolerances", [TIME],
     [("edge and middle values", "_calc_integral_preserving_linear_interpolation, _calc_continuous_representation")], ["interval averages"],
     "symbolic linear algebra (rational normal forms) over the value-flow of the source", "Decided algebraically for generic interior and boundary intervals.")
prop("T02", "Timeseries conversion keeps direction, type and range checks",
     "Converting from the source evaluates the source series at the target points and converting back the reverse; average series are integrated over each target interval and divided by its length, point series are evaluated. "
     "Series with fewer than three values, and targets outside the source range without extrapolation, raise the insufficient-data error instead of giving numbers; constant extrapolation uses the first and last value and linear extrapolation the end slopes.",
     ["inputs", "configurations"], "all grids and combinations of types and extrapolations", "tests use grids that overlap and few combinations", [TIME],
     [("TimeseriesConverter", TIME)], ["converted values, InsufficientDataError"], PATHS, "Structure of the conversion is decided on all paths; numerical accuracy of quadrature is not.")
prop("T03", "Time conversion does not depend on the resolution of the time points",
     "Source and target time points are compared and interpolated in the same unit whatever datetime resolution each of them is given in.",
     ["inputs"], "all datetime resolutions of both grids", "tests use the same resolution on both sides", [TIME], [("normalisation of both grids", "TimeseriesConverter.__init__")],
     ["converted values"], PATHS + "; unit-of-measure tracking of time values", "Decides that every use of the grids goes through the same normalisation to seconds.")
prop("T04", "String and enum spellings of time settings are interchangeable",
     "Every timeseries, interpolation and extrapolation type can be given as its enum member or as its name in any letter case with the same result; converting a timeseries type to a string and back gives the same type. "
     "Anything else that is not a timeseries type is rejected with ValueError.",
     ["inputs"], "every member and spelling", "tests check lower case only", [PAR, TIME], [("from_* class methods", "ParameterType, InterpolationType, ExtrapolationType")],
     ["results and errors"], PATHS + " over the finite set of members", "Exhaustive over the enum members.")
prop("T05", "Time points are kept to the second for every way of giving them",
     "Years as integers or floats, strings, datetimes and numpy datetimes of any resolution become the same seconds-resolution time points, without changing the caller's array and without going through a type with a restricted range. "
     "Years, months, days, hours and weekdays are those of each time point.",
     ["inputs"], "all dtypes and times, also outside the range of nanosecond timestamps", "tests sample dtypes at few dates", [TIME], [("_format_datetime, TimePoints", TIME)],
     ["TimePoints values and accessors"], PATHS + " with a dtype decision table", "Decides the dispatch on dtypes, the conversion chain per dtype and the accessors.")
prop("T06", "Generated time grids have the right number of points for their type",
     "An equidistant grid starts at the start time, has the given spacing and one point per value for point series and one more for average series, so that the number of values it describes is the number requested.",
     ["inputs"], "all starts, periods and lengths", "tests use few lengths", [TIME], [("create_time_points", TIME)], ["time points"],
     "symbolic linear algebra over the value-flow of the source", "Algebraic equality of first point, spacing and count per type.")
prop("D01", "Operations without in-place request never change the data frame",
     "Filtering, renaming, converting units, interpolating, resampling, appending, aggregating, relating to a reference period, converting to other types, reading series, metadata and time points and copying leave the data frame on which they are called unchanged unless in-place operation is requested, and what they return shares no mutable state with it.",
     ["inputs", "histories"], "all operations, arguments and later changes of the results", "tests check the result but rarely the original and never later changes", [BASE, SDF],
     [("copies before changes", BASE)], ["the original after the operation"], PATHS + "; ownership / effect analysis (which object each mutation reaches)", "Decided with a model of which pandas operations alias, copy or mutate.")
prop("D02", "Arguments passed in are never changed",
     "Creating a data frame from any supported input, setting times, filtering, interpolating, appending to a new object and converting to or from parameter sets never changes the objects that the caller passes as data, index, columns, filter values, mappings or target times.",
     ["inputs"], "all argument types", "tests rarely look at the arguments afterwards", [BASE, FILT, TIME, SDF], [("copies on entry", BASE)], ["arguments after the call"],
     PATHS + "; ownership / effect analysis of arguments", "Decided with a model of which pandas/numpy operations mutate.")
prop("D03", "Failed in-place operations leave the data frame unchanged",
     "When an in-place rename, filter or unit conversion or an assignment of times or metadata is rejected with an error, the data frame still has the data, metadata and time points it had before; the in-place and the copying variant of an operation compute the same result, the former returning nothing.",
     ["fault_sequences", "inputs"], "every point at which such an operation can fail", "tests check that the error is raised", [BASE], [("validate before commit", "rename, convert_unit, filter, __setitem__")],
     ["data frame after an error"], PATHS + "; exception-safety (commit-point) ordering", "Decides that no fallible step follows the first change of the object.")
prop("D04", "Filters select exactly what is asked for",
     "Filters on different keys are combined by conjunction and alternatives for one key by disjunction (no alternatives select nothing), each key is compared with the matching metadata column or time component, and dropping instead of keeping selects exactly the complement; series and times of which nothing remains are left out. "
     "Unknown keys raise ValueError, and missing metadata matches like an empty string unless this is switched off (metadata columns named like filter options, e.g. level, are not covered).",
     ["inputs"], "all combinations of keys and values", "tests use single keys and short combinations", [BASE, FILT], [("_apply_filters, filter", BASE)], ["remaining data"],
     PATHS + "; dispatch table completeness", "Decides for each key which data is matched with which arguments and how the masks are combined.")
prop("D05", "In filter patterns only the asterisk is special and levels count separators",
     "In a filter string every character except the asterisk stands for itself, whole names (without line breaks) are compared, and with regular expressions switched on the pattern is used as it is. "
     "A level restricts to variables with exactly, at most (suffix -) or at least (suffix +) that number of separators after the pattern is taken away, and other level strings raise ValueError.",
     ["inputs"], "all pattern strings and levels", "tests use few special characters", [FILT], [("pattern_match, find_depth", FILT)], ["matching rows"],
     PATHS + " with symbolic string normal forms", "Decides how the pattern is built and how the depth is compared.")
prop("D06", "Time filters are inclusive and respect their units",
     "Filters by year, month, day, weekday, hour and time select the time points whose component equals one of the values; ranges of month and weekday names include both ends, several names and ranges can be combined, and ranges running backwards raise ValueError. "
     "The first value of a list decides whether it is read as names or as numbers. Years and times that are not of the right type raise TypeError.",
     ["inputs"], "all combinations of names, ranges and numbers", "tests use single ranges", [FILT, BASE], [("years_match, time_match, datetime_match", FILT)], ["remaining time points"],
     PATHS, "Decides ranges, conversions and dispatch for every kind of value.")
prop("D07", "Data, metadata and time axis of a data frame stay aligned",
     "Every operation that changes the time axis or the set of series of a data frame changes its data, metadata and time points together, so that there is one row of metadata per series, in the order of the series, and one row of data per time point. "
     "After construction, appending and setting metadata with an index of its own the metadata columns have the documented order (required columns first, the others sorted), and metadata set with an index of its own goes to the series with the same labels only. "
     "The wide table handed out has one row for each series, labelled by the metadata of that series, and is refused if those labels are not unique. "
     "Accessors hand out copies: changing what they return does not change the data frame.",
     ["histories"], "every sequence of operations", "tests check single operations", [BASE], [("stores to data, metadata and time points", BASE)], ["shape and order of data, meta, time"],
     PATHS + "; paired-update rule on all exits", "All functions that store one of the three parts are decided on all exits.")
prop("D08", "Interpolation treats every series by its own type",
     "Interpolating maps each series from its own time points to exactly the requested ones, average series with their interval ends added on both sides and point series without, whatever other series are in the data frame; the type is taken from the metadata where given and guessed where missing. "
     "The result has the requested time points and states the type used for each series.",
     ["inputs"], "all mixes of types and missing types", "tests interpolate frames of one type", [BASE], [("interpolate", BASE)], ["interpolated data and metadata"],
     PATHS + "; loop-carried dependence analysis", "Decides what reaches the converter for each group and that nothing is carried over between groups.")
prop("D09", "Conversion between parameter sets and data frames is complete",
     "Converting a parameter set gives one series for every timeseries parameter without children, in every region at any depth, with its name, region, unit and type, and one metadata entry for every generic or scalar parameter (parameters with children are the sum of these, and given by them); converting a data frame writes every series and every metadata entry with its name, region, unit and type. "
     "Generic and scalar parameters outside the world region, data frames with different metadata for the series, and those of a given climate model raise ValueError. An entry of the metadata called \"name (unit)\" belongs to a scalar parameter, and any other to a generic one.",
     ["inputs"], "all parameter trees, region trees and frames", "tests use a flat tree with one level of regions", [SDF, BASE], [("walks over regions and parameters", SDF), ("to_parameterset", BASE)],
     ["series and metadata"], PATHS + "; structural induction over the walks", "Decides the traversals and what is stored per item. Numerical round trips are not decided.")
prop("D10", "Appending keeps all series and averages duplicates only",
     "Appending gives every series of all inputs with the union of their metadata columns and, in order, of their times, missing metadata staying missing; only values for the same metadata and time are combined, by their mean. The order of the series is not specified. "
     "Values for the same metadata and time in several inputs give a warning, are returned or are silently averaged as requested, and any other request about them raises ValueError; appending in place requires a data frame as first object and changes only it.",
     ["inputs"], "all sets of inputs and options", "tests append two small frames", [BASE], [("df_append", BASE)], ["appended data"], PATHS + "; value provenance", "Decides the option handling, which series, columns and times reach the result, how they are combined, and the object changed.")
prop("D11", "Resampling covers the full time range of the data",
     "Resampling interpolates to the points of the rule, starting with the first time point rolled back onto the rule and stepping by the rule up to the last time point rolled forward onto it, in strictly increasing order and leaving out none, so that for rules of a single step the full time range is covered. "
     "Business-day rules and rules that do not move forward raise ValueError, times outside the range of nanosecond timestamps are handled like others, and options are passed on to the interpolation.",
     ["inputs"], "all rules and ranges", "tests use two rules", [OFFS, BASE], [("generate_range, to_offset, resample", OFFS)], ["time points"], PATHS + "; loop invariants", "Decides bounds, step and guards of the generation; the calendar arithmetic of pandas is assumed.")
prop("D12", "Guessed parameter types follow the unit, then the name",
     "A series with a known unit is an average exactly if the unit's dimension involves time; without a usable unit the first matching name pattern decides, with emissions, fluxes and radiative forcing as averages and concentrations and temperatures as points, and anything else is a point series. "
     "A unit that is not defined never makes guessing fail.",
     ["inputs"], "all units and names", "tests use some names", [PTY], [("guess_parameter_type", PTY)], ["guessed type"], PATHS + "; table analysis", "Decision table and order of the rules are decided.")
prop("D13", "Unit conversion of frames changes selected series and their labels in lockstep",
     "Converting units of a data frame converts exactly the selected series, as a whole, each from its own unit to the requested one with the requested context, and changes unit and context label of exactly these series in lockstep with the data; all other series keep values and labels.",
     ["inputs"], "all mixes of units and selections", "tests convert uniform frames", [BASE], [("convert_unit", BASE)], ["data and labels"], PATHS + "; lockstep rule", "Decides that data and labels of the same group are changed together and nothing else.")
prop("D14", "Aggregation over columns groups by all other metadata",
     "Aggregating over one or several columns groups the series by all other metadata columns and applies the requested statistic with its options; unknown statistics raise ValueError, and no series is left out (known finding: those with missing metadata are). "
     "Data relative to a reference period is the data minus the mean over the requested reference period of the same series, for all series and time points, with only the variable name changed: the given text, or else one naming the period, is appended.",
     ["inputs"], "all column selections, statistics and periods", "tests use one grouping", [BASE], [("process_over, relative_to_ref_period_mean", BASE)], ["aggregated frames"], PATHS, "Dispatch, grouping columns and the subtraction are decided structurally.")
prop("D15", "Construction keeps all given series",
     "A data frame made from a wide table has one series per row: columns named by a datetime, number or date text are its times, sorted, and all others its metadata; from a long table (with a column 'value' and either 'year' or 'time') one series per distinct metadata, the mean where values repeat (known finding: rows with missing metadata are lost). "
     "Names of columns do not depend on case, and entries of the table's index are used like columns. With columns given, each has one entry for all series or one per series in turn, and an index given becomes the times; an existing data frame is copied with data and metadata, and a file is read as its table (csv or Excel by its name, sheet 'data' if there are several and none is asked for, options passed on). "
     "Series with the same label are told apart, values become floating point numbers and the times are those of the table. Missing required columns, columns of another length, both or neither of year and time, tables without times and lists of files raise ValueError, missing files OSError and anything else TypeError.",
     ["inputs"], "all tables, series, files and columns", "tests build few tables, all of one shape", [BASE], [("ScmDataFrameBase.__init__, _format_data, _from_ts, _read_pandas", BASE)], ["data, metadata, times or error of new data frames"], PATHS,
     "The final data and metadata of every path of construction are followed back to what was given; pandas operations are taken as their documented meaning.")
prop("A01", "Adapters initialise once and in order",
     "A model is initialised exactly once and before any of its inputs or run parameters, whichever of them is prepared first, and every request to prepare, reset, run or step reaches the model exactly once. "
     "A reset sets the current time to the start time of the inputs, and a step returns the current time after the step.",
     ["histories"], "every sequence of adapter calls", "tests call the methods in one order", [ADA], [("Adapter", ADA)], ["calls to the model, current time"], PATHS + "; typestate", "All paths of the base class are decided.")
prop("A02", "Looking up adapters is exact and stable",
     "Asking for a known model gives its adapter class, the same one every time, and never another model's; unknown names raise KeyError, missing dependencies the corresponding error, and neither of them affects later look-ups.",
     ["histories", "inputs"], "every sequence of names", "tests look up one name", [ADA], [("load_adapter", ADA)], ["class or error"], PATHS, "All paths are decided.")
prop("A03", "The DICE step follows its published equations and conserves carbon",
     "Each step computes atmosphere, ocean and temperature states from the states of the previous step only, by the published transition equations with their bounds; the carbon transition coefficients are such that apart from emissions and bounds the total carbon in the three pools does not change. "
     "Emissions count with their period's length and unit, and forcing from other gases grows linearly until its saturation time and is constant afterwards.",
     ["inputs"], "all parameter values and states", "tests compare one run with reference output", [DICE], [("_calc_step, _reset", DICE)], ["output timeseries"], "symbolic algebra (rational normal forms) over the value-flow of the source", "Each equation is decided as an algebraic identity over the source.")
prop("A04", "DICE respects given inputs and writes only its outputs",
     "Initialising the model fills in defaults only for parameters that are still empty and never overwrites a value given by the user, and each model parameter is read in the unit of its default; running writes nothing but the documented output series, and leaves none of them locked.",
     ["inputs", "histories"], "all sets of given parameters", "tests set few parameters", [DICE], [("_initialize_model, _initialize_run_parameters, _run", DICE)], ["parameter sets after runs"], PATHS + "; pairing of locks, effect analysis", "Decided on all paths.")
prop("A05", "Running DICE equals stepping it, and resetting makes runs reproducible",
     "A run performs exactly as many steps as stepping from start to stop time would, by the same calculation, advancing index and time by one period each; after a reset all state of earlier runs or steps is overwritten, so that results depend on the inputs only.",
     ["histories"], "every mix of runs, steps and resets", "tests run once and step once", [DICE, CORE], [("_run, _step, _reset", DICE)], ["outputs of repeated runs"], PATHS + "; state-reset completeness", "Decides that all carried state is set on reset and that both ways share one calculation.")
prop("A06", "The model facade uses the given parameter sets and prepares before running",
     "A model object uses the input and output sets it is given (also empty ones) or new ones of its own, and exposes exactly these; every run and every start of stepping first prepares inputs, then run parameters, then resets, and only then runs.",
     ["histories", "inputs"], "every construction and call sequence", "tests use one construction", [CORE], [("OpenSCM", CORE)], ["calls to the adapter"], PATHS, "All paths are decided.")

DECLINED = [
    ("N01", "CSV files read back give the same data frame", "Writing a data frame to a file and reading it back gives the same data, metadata and times.",
     [BASE], "round trip equality through pandas' and pyam's text formatting: the truth is in library runtime behaviour on values, no sound static argument over this repository's source reaches it"),
    ("N02", "Numerical accuracy of converted averages", "Converting average series to another grid and back gives the same averages up to the integration tolerance.",
     [TIME], "quantifies over rounding and adaptive quadrature at run time; no static bound in reach"),
    ("N03", "Outputs equal those of the original DICE code", "The model reproduces the output of the original model for the original inputs.",
     [DICE], "equality of numerical results with an external program; the equations themselves are claimed as A03"),
    ("N04", "Memory and time of conversions stay bounded", "Converting large frames needs memory and time linear in the number of values.",
     [BASE], "resource bounds depend on library internals; not visible in the shape of this code"),
]


def main():
    from sa import registry

    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in P:
            fh.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"]},
            }) + "\n")
        for i, t, s, files, why in DECLINED:
            fh.write(json.dumps({
                "id": i, "title": t, "statement": s, "quantifier": {"over": ["inputs"], "text": "all inputs"},
                "why_tests_cant": "sampled values only", "anchors": {"files": files, "mechanism": []},
            }) + "\n")
    checks, na = [], []
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
        elif p["id"] in registry.PROPERTIES:
            checks.append({
                "property": p["id"],
                "quick_cmd": "python3 -m sa %s --tier quick" % p["id"],
                "thorough_cmd": "python3 -m sa %s --tier thorough" % p["id"],
                "technique": p["technique"], "level": "other", "level_note": "static analysis: " + p["note"],
            })
        else:
            na.append({"property": p["id"], "reason": "no check registered yet"})
    for i, t, s, files, why in DECLINED:
        na.append({"property": i, "reason": why})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump({
            "version": 1, "setup_cmd": "python3 -m compileall -q sa", "checks": checks, "not_applicable": na,
            "notes": "python3 (standard library only). Every check parses /repo's current sources; nothing of /repo is imported or run.",
        }, fh, indent=1)
        fh.write("\n")
    design(registry)


def block(s, name, lines):
    a, b = "<!-- %s -->\n" % name, "<!-- /%s -->" % name
    i, j = s.index(a) + len(a), s.index(b)
    return s[:i] + "".join(x + "\n" for x in lines) + s[j:]


def design(registry):
    fn = os.path.join(HERE, "DESIGN.md")
    s = open(fn).read()
    lines = []
    for p in P:
        lines.append("### %s %s\n" % (p["id"], p["title"]))
        if p["na"] or p["id"] not in registry.PROPERTIES:
            lines.append("Not claimed: %s\n" % (p["na"] or "no check registered yet"))
            continue
        r = registry.PROPERTIES[p["id"]]
        lines.append("*Technique:* %s. *Anchors:* %s.\n" % (p["technique"], "; ".join("%s (%s)" % m for m in p["mech"])))
        lines.append("*Decided:* %s %s" % (r["explain"], p["note"]))
        if r["assumptions"]:
            lines.append("*Assumed:* " + "; ".join(dict.fromkeys(r["assumptions"])) + ".")
        lines.append("*Why tests do not reach it:* %s; decided for %s.\n" % (p["why"], p["quant"]))
    s = block(s, "props", lines)
    known = json.load(open(os.path.join(HERE, "known_findings.json")))
    s = block(s, "fixed", ["* %s `%s` – %s" % (e["property"], e["commit"], e["what"]) for e in known if e["status"] == "fixed"])
    s = block(s, "known", ["* %s (`%s`) – %s" % (e["property"], e["key"], e["what"]) for e in known if e["status"] == "known"] or ["none"])
    s = block(s, "declined", ["* %s %s – %s" % (i, t, why) for i, t, st, fs, why in DECLINED]
              + ["* %s %s – %s" % (p["id"], p["title"], p["na"]) for p in P if p["na"]])
    sd = os.path.join(HERE, "seeded")
    cf = os.path.join(HERE, "tools", "caught.json")
    caught = json.load(open(cf)) if os.path.exists(cf) else {}
    rows = ["| change | property | caught by | what it breaks |", "|---|---|---|---|"]
    for n in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, n, "meta.json")))
        rows.append("| %s | %s | %s | %s |" % (n, m["property"], " ".join(caught.get(n, ["?"])) or "none", m["what_it_breaks"].replace("|", "\\|")))
    s = block(s, "seeds", rows)
    open(fn, "w").write(s)


main()
