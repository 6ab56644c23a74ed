#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
PY = "bittrue/models/python/en_cl_fix_pkg/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

prop("C01", "Python rounding is exact in every mode, for narrow and wide formats",
 "Rounding a fixed-point value to fewer fractional bits yields exactly the value its rounding mode defines: truncation gives the floor; every other mode gives the nearest representable value, and only exact ties are decided by the mode (half-up, half-down, away from zero, towards zero, to even, to odd). When the number of fractional bits is not reduced the value is unchanged. This holds through the function interface and through both value classes, for any format and any representable value, and a result format that does not match the rounding-growth rule is rejected.",
 ["inputs", "configurations"], "all source formats, fractional-bit counts, seven rounding modes and all representable values (scalars and arrays)",
 "The existing scripts enumerate formats of a few bits and compare the two Python models or VHDL against each other; large widths, the 53/54-bit boundary between float and integer storage and negative I/F are only touched by single examples.",
 [PY+"narrow_fix.py", PY+"wide_fix.py", PY+"en_cl_fix.py"],
 [("offset-then-floor rounding in float64", PY+"narrow_fix.py NarrowFix.round"), ("offset-then-shift rounding on Python ints", PY+"wide_fix.py WideFix.round"), ("representation dispatch", PY+"en_cl_fix.py cl_fix_round")],
 ["cl_fix_round", "NarrowFix.round", "WideFix.round"])

prop("C02", "Python saturation clips and wrapping is modular, for every format pair",
 "Reducing the integer or sign bits of a fixed-point value with a saturating mode yields the value clipped to the minimum/maximum of the result format; with a non-saturating mode it yields the unique representable value congruent to the input modulo the span of the result format (two's complement wrap). Values that already fit are unchanged in every mode, and a change in the number of fractional bits is rejected.",
 ["inputs", "configurations"], "all format pairs with equal fractional bits, four saturation modes, all representable values",
 "Tests cover formats of at most a few bits with few wide examples; float64 wrapping only loses precision for formats near 53 bits and only for particular values.",
 [PY+"narrow_fix.py", PY+"wide_fix.py", PY+"en_cl_fix.py"],
 [("float64 clip/wrap with integer fallback", PY+"narrow_fix.py NarrowFix.saturate"), ("integer clip/wrap", PY+"wide_fix.py WideFix.saturate"), ("representation dispatch", PY+"en_cl_fix.py cl_fix_saturate")],
 ["cl_fix_saturate", "NarrowFix.saturate", "WideFix.saturate"])

prop("C03", "Python resize equals rounding followed by saturation; exact when nothing is lost",
 "Resizing from any format to any other equals rounding to the requested fractional bits followed by saturation to the requested range, as defined by the exact mathematical model of the rounding and saturation modes. A value that is representable in the result format is returned unchanged, and resizing to a format that contains the source format and back is lossless. The defaults are truncation and wrapping.",
 ["inputs", "configurations"], "all source/result format pairs, all 28 rounding/saturation mode pairs, all representable values",
 "The resize cosim enumerates formats with at most a few bits; mixed representations (narrow source with wide intermediate and narrow result, and so on) occur only for large formats.",
 [PY+"en_cl_fix.py", PY+"narrow_fix.py", PY+"wide_fix.py"],
 [("cl_fix_resize / NarrowFix.resize / WideFix.resize", PY+"en_cl_fix.py, narrow_fix.py, wide_fix.py"), ("rounded intermediate format", PY+"en_cl_fix_types.py FixFormat.for_round")],
 ["cl_fix_resize"])

prop("C04", "Python add, subtract and add/subtract are exact before resizing",
 "Addition, subtraction and selectable addition/subtraction of two fixed-point operands of any formats give the exact mathematical result when no result format is requested (in the full-precision format the library advertises), and otherwise the exact result resized to the requested format with the requested rounding and saturation. This holds for every mix of operand, intermediate and result widths, including mixed narrow and wide operands, and the add/subtract selector acts per element.",
 ["inputs", "configurations"], "all operand formats and values, result formats, rounding and saturation modes, selector arrays",
 "Cosim enumerates tiny formats with one or two modes; nothing samples operands on opposite sides of the 53-bit boundary or intermediate results crossing it.",
 [PY+"en_cl_fix.py", PY+"narrow_fix.py", PY+"wide_fix.py"],
 [("cl_fix_add/sub/addsub", PY+"en_cl_fix.py"), ("binary point alignment", PY+"wide_fix.py WideFix.add/sub")],
 ["cl_fix_add", "cl_fix_sub", "cl_fix_addsub", "value class operators"])

prop("C05", "Python multiply, negate, absolute value and shift are exact before resizing",
 "Multiplication, negation, absolute value and (constant or per-element) shifting of fixed-point operands of any format give the exact mathematical result when no result format is requested, and otherwise the exact result resized to the requested format with the requested rounding and saturation. A left shift by n multiplies by two to the power n without dropping bits before the final resize, in either direction. This holds for every mix of operand, intermediate and result widths.",
 ["inputs", "configurations"], "all operand formats and values, shift amounts (scalar or array, both signs), result formats and modes",
 "Cosim enumerates tiny formats with constant shifts; wide operands, narrow operands with wide products and per-element shifts are sampled by a handful of examples or not at all.",
 [PY+"en_cl_fix.py", PY+"narrow_fix.py", PY+"wide_fix.py"],
 [("cl_fix_mult/neg/abs/shift", PY+"en_cl_fix.py"), ("variable shift", PY+"wide_fix.py WideFix.shift, narrow_fix.py NarrowFix.shift")],
 ["cl_fix_mult", "cl_fix_neg", "cl_fix_abs", "cl_fix_shift"])

prop("C06", "Advertised result formats hold every possible result without wasted integer bits",
 "The full-precision result format advertised for add, subtract, add/subtract, multiply, negate, absolute value, shift, rounding and union represents exactly every value the operation can produce from any representable operands. Its fractional bits are those the operation needs, and where the format is documented as minimal (add, subtract, multiply, negate, shift) removing one integer bit (or the sign bit, except for negation, whose result is always signed) would make some extreme result unrepresentable. Invalid formats (sign not 0/1, negative magnitude width, empty operands) are rejected, and formats compare, copy and print by value.",
 ["inputs", "configurations"], "all operand formats (both signs, negative or large I and F), shift ranges, rounding modes, collections of formats",
 "The format tests enumerate I and F in -6..6 and check two extreme values; large or very asymmetric formats, shift ranges and union of collections are not enumerated.",
 [PY+"en_cl_fix_types.py"],
 [("FixFormat.for_* and union", PY+"en_cl_fix_types.py")],
 ["cl_fix_*_fmt", "FixFormat"])

prop("C07", "Narrow and wide number representations give identical results",
 "For every operation and comparison, performing it on the floating-point based value class and on the arbitrary-precision value class (after lossless conversion) gives the same value in the same format, whenever all formats involved fit the narrow class. The function interface returns the floating-point representation exactly when the result format is at most 53 bits wide and exact integers otherwise. Converting between the two representations, in either direction, never changes a value.",
 ["inputs", "programs"], "operation programs (chains of operations) over random formats and values, run in both representations",
 "Cosim compares the two classes on tiny formats where float64 cannot lose precision; differences arise only near 53 bits or after chains of operations.",
 [PY+"narrow_fix.py", PY+"wide_fix.py", PY+"en_cl_fix.py"],
 [("NarrowFix", PY+"narrow_fix.py"), ("WideFix", PY+"wide_fix.py"), ("cl_fix_is_wide dispatch", PY+"en_cl_fix.py")],
 ["NarrowFix methods/operators", "WideFix methods/operators", "cl_fix_*"])

prop("C08", "Real-to-fixed conversion is half-up rounding plus saturation, exactly",
 "Converting a floating-point number to any fixed-point format yields the representable value nearest to it, with exact ties rounded up, clipped to the range of the format. This holds for every finite input and every format, whether given as a Python number, a zero-dimensional array or an array, and for both narrow and wide formats. Requesting a non-saturating mode is refused rather than answered wrongly.",
 ["inputs", "configurations"], "all finite double inputs (including ties, neighbours of ties and of the range limits, huge and tiny magnitudes) and all formats",
 "The from_real cosim uses a fixed grid around small formats; ties at large magnitudes, scalars and wide formats are barely sampled.",
 [PY+"narrow_fix.py", PY+"wide_fix.py", PY+"en_cl_fix.py"],
 [("from_real", PY+"narrow_fix.py, wide_fix.py"), ("cl_fix_from_real", PY+"en_cl_fix.py")],
 ["cl_fix_from_real"])

prop("C09", "Integer and real conversions round-trip and reject unrepresentable integers",
 "Interpreting an integer as the raw bits of a format and converting back returns the same integer, and the converted value equals the integer divided by two to the number of fractional bits. An integer outside the range of the format is rejected with an error. Converting a fixed-point value to floating point is exact up to 53 significant bits and correctly scaled (to within one rounding) beyond, with a warning whenever bits are lost, and converting that back to a format of at most 53 bits restores the value.",
 ["inputs", "configurations"], "all formats, all raw integers inside and just outside the range, scalars and integer arrays of any integer type",
 "Unit tests use a few formats and in-range values; range rejection and round-trips over whole formats are not quantified.",
 [PY+"en_cl_fix.py", PY+"narrow_fix.py", PY+"wide_fix.py"],
 [("cl_fix_from_integer/to_integer/to_real", PY+"en_cl_fix.py"), ("NarrowFix.from_integer/to_integer, WideFix.to_real/from_narrowfix", PY+"narrow_fix.py, wide_fix.py")],
 ["cl_fix_from_integer", "cl_fix_to_integer", "cl_fix_to_real"])

prop("C10", "Range test and saturation warnings fire exactly when a value does not fit",
 "The range test answers true for a value exactly when, after rounding with the given mode, it lies between the minimum and maximum of the target format, whatever the widths of source and target. The warning saturation modes emit a warning exactly when at least one element is out of range (and then still wrap or clip as specified); the other modes never warn. The same holds for warnings of the real-to-fixed conversion with respect to the un-rounded real input.",
 ["inputs", "configurations"], "all format pairs, rounding modes, saturation modes and values, with one or many elements out of range",
 "Tests check warnings on a handful of values and the range test only on narrow formats, so mixed narrow/wide comparisons go unseen.",
 [PY+"en_cl_fix.py", PY+"narrow_fix.py", PY+"wide_fix.py"],
 [("cl_fix_in_range", PY+"en_cl_fix.py"), ("warnings in saturate/from_real", PY+"narrow_fix.py, wide_fix.py")],
 ["cl_fix_in_range", "Python warnings"])

prop("C11", "Packing wide data into 64-bit words and unpacking it is lossless",
 "Packing wide fixed-point data of any shape into 64-bit words and unpacking it with the same format returns the original data and shape, with the words in little-endian order of the two's complement bit pattern of the format's width, in as many words as the width needs. This holds for signed and unsigned formats of any width and for both packing interfaces (stacking along the last or the first axis). Narrow formats and wrongly typed input are rejected.",
 ["inputs", "configurations"], "all wide formats, data of any shape from scalar to 3-D, all representable values including extremes",
 "The interface test uses one or two formats with fixed values.",
 [PY+"matlab_interface.py", PY+"wide_fix.py"],
 [("to_uint64_array/from_uint64_array", PY+"matlab_interface.py"), ("WideFix.to_uint64_array/from_uint64_array", PY+"wide_fix.py")],
 ["to_uint64_array", "from_uint64_array"])

prop("C12", "Operations are element-wise, shape-preserving and never modify their inputs",
 "Every data operation acts independently on each element: its result on an array equals the results on the elements taken alone, with the input's shape (including broadcasting of binary operands, multi-dimensional and non-contiguous arrays, and scalars). No operation modifies any input array or format, and no result shares storage with an input such that later changes to one affect the other. Value objects likewise stay unchanged by operations, and copies handed out by their accessors are independent.",
 ["inputs", "histories"], "all operations, array shapes and layouts, and short histories of operations on shared arrays",
 "Tests compare result values only; aliasing or in-place damage shows only when inputs are reused after the call.",
 [PY+"en_cl_fix.py", PY+"narrow_fix.py", PY+"wide_fix.py", PY+"matlab_interface.py"],
 [("copy / copy=False construction", PY+"narrow_fix.py, wide_fix.py"), ("_clean_input", PY+"en_cl_fix.py")],
 ["all cl_fix_* functions", "value class accessors"])

prop("C13", "Fixed-point comparisons and range bounds agree with mathematical order",
 "Comparing fixed-point value objects with any of the six relations gives the mathematical truth about the represented values, also when the two formats differ in sign, integer or fractional bits. The reported maximum and minimum of a format are the largest and smallest representable values. Aligning binary points of several values keeps each value and gives all of them the largest number of fractional bits.",
 ["inputs", "configurations"], "all format pairs and values, six relations, collections of values",
 "The compare cosim enumerates tiny formats; large offsets between binary points and mixed signs at large widths are not sampled.",
 [PY+"narrow_fix.py", PY+"wide_fix.py", PY+"en_cl_fix.py"],
 [("comparison operators, align_binary_points", PY+"wide_fix.py, narrow_fix.py"), ("cl_fix_max_value/min_value", PY+"en_cl_fix.py")],
 ["value class comparison operators", "cl_fix_max_value", "cl_fix_min_value"])

prop("C14", "Generated zeros and random data are valid members of their format",
 "Zero-data and random-data generation return data of the requested shape in the representation of the requested format, for any format and shape. Every random value is representable, and over many draws both extremes' neighbourhoods, both signs and odd raw values are reached, so the whole range is in play. Seeding the underlying generators makes random data reproducible.",
 ["inputs", "configurations"], "all formats (narrow, wide, 53/54-bit boundary), shapes, and generator seeds",
 "One unit test draws from one format; range errors near the 53-bit limit and unreachable values go unseen.",
 [PY+"en_cl_fix.py"],
 [("cl_fix_zeros, cl_fix_random", PY+"en_cl_fix.py")],
 ["cl_fix_zeros", "cl_fix_random"])

prop("C15", "VHDL rounding, saturation, resize and range test are bit-true to the model",
 "The VHDL rounding, saturation and resize functions return, for every format pair, mode and input vector, exactly the bits that the mathematical definition (and hence the Python model) gives, and the VHDL range test agrees with it. The warning modes report a warning exactly when the value is out of range. Default arguments are truncation and wrap-with-warning, and vectors are accepted with any index range or direction.",
 ["inputs", "configurations"], "all source/result formats of widths 1 to beyond 128 bits, all modes, all vectors",
 "Cosim testbenches replay formats of at most a few bits; wide formats, far-apart binary points and index ranges are not covered.",
 ["hdl/en_cl_fix_pkg.vhd"],
 [("cl_fix_round, get_half, get_unit_bit", "hdl/en_cl_fix_pkg.vhd"), ("cl_fix_saturate, convert, cl_fix_in_range", "hdl/en_cl_fix_pkg.vhd")],
 ["cl_fix_round", "cl_fix_saturate", "cl_fix_resize", "cl_fix_in_range", "warning reports"])

prop("C16", "VHDL arithmetic and comparison are bit-true to exact arithmetic",
 "The VHDL add, subtract, add/subtract, multiply, negate, absolute value and shift functions return exactly the bits of the exact mathematical result, resized with the requested rounding and saturation, or in the advertised full-precision format when none is requested. The VHDL comparison returns the mathematical truth for all six relations and the sign function the sign bit of the value. This holds for all operand formats, including mixed signs and widths above 64 bits, and for any vector index range.",
 ["inputs", "configurations"], "all operand and result formats, modes, shift amounts and vectors",
 "Cosim replays only tiny formats in mostly one mode.",
 ["hdl/en_cl_fix_pkg.vhd"],
 [("cl_fix_add/sub/addsub/mult/neg/abs/shift/compare/sign", "hdl/en_cl_fix_pkg.vhd"), ("convert, resize_sensible", "hdl/en_cl_fix_pkg.vhd")],
 ["cl_fix_* functions via simulation"])

prop("C17", "VHDL and Python agree on every format calculation and bound",
 "For all operand formats, shift ranges and rounding modes, the VHDL functions that compute result formats, widths and minimum/maximum values give the same answers as the Python functions. The recommended pipelining is zero exactly where no logic is needed (truncating or not reducing fractional bits; wrapping, or keeping the sign and not reducing integer bits) and one otherwise, and for a resize it is the sum of both stages. A result format violating the rounding rule stops the simulation unless the check is switched off.",
 ["inputs", "configurations"], "all formats, shift ranges, rounding and saturation modes, both languages",
 "The VHDL unit testbench checks a few dozen hand-picked formats; the two implementations are never compared over the format space.",
 ["hdl/en_cl_fix_pkg.vhd", PY+"en_cl_fix_types.py"],
 [("cl_fix_*_fmt, cl_fix_width, cl_fix_max_value/min_value", "hdl/en_cl_fix_pkg.vhd"), ("cl_fix_recommended_pipelining", "hdl/en_cl_fix_pkg.vhd")],
 ["VHDL functions via simulation", "cl_fix_*_fmt"])

prop("C18", "VHDL real and integer conversions are exact, saturating and invertible",
 "The VHDL conversion from real rounds to nearest with ties up and clips to the range of the format, warning exactly when the input is out of range in the warning mode, for every format width. The conversion to real is exact for formats up to 53 bits, so converting to real and back restores the bits. Conversions from and to integer use the raw two's complement bits and round-trip for every value that fits a VHDL integer.",
 ["inputs", "configurations"], "all formats, real inputs (ties, neighbours of limits, huge magnitudes), raw integers",
 "The testbench replays a grid on small formats; wide formats and saturation above 53 bits are not exercised.",
 ["hdl/en_cl_fix_pkg.vhd"],
 [("cl_fix_from_real, cl_fix_to_real (30-bit chunks)", "hdl/en_cl_fix_pkg.vhd"), ("cl_fix_from_integer, cl_fix_to_integer", "hdl/en_cl_fix_pkg.vhd")],
 ["VHDL functions via simulation"])

prop("C19", "RTL blocks keep data, valid and metadata aligned at the documented latency",
 "For every configuration of formats, modes, metadata width and register mode, the pipelined round, saturate and resize blocks output at each clock the value of the corresponding function applied to the input of exactly the documented number of clocks earlier (always-register: 1, 1 and 2; never: 0; automatic: the recommended pipelining), together with that cycle's valid and metadata. A reset clears the valid of every sample in a pipeline register at that clock edge and nothing else; after reset valid samples flow again. This holds for every history of valid, reset, data and metadata.",
 ["histories", "configurations"], "random generics and random clocked histories of valid/reset/data/metadata including back-to-back and mid-stream resets",
 "The testbenches drive a continuous stream with fixed small formats and only check the data they expect; resets mid-stream and metadata alignment are not explored over configurations.",
 ["hdl/en_cl_fix_round.vhd", "hdl/en_cl_fix_saturate.vhd", "hdl/en_cl_fix_resize.vhd"],
 [("use_reg_c / g_register", "hdl/en_cl_fix_round.vhd, hdl/en_cl_fix_saturate.vhd"), ("two-stage structure", "hdl/en_cl_fix_resize.vhd")],
 ["block output ports per clock"])

prop("C20", "Format and mode strings round-trip, within VHDL and from Python to VHDL",
 "Printing any format, rounding mode or saturation mode in VHDL and parsing the text returns the same value, and parsing accepts the text Python prints for a format (with spaces, negative and multi-digit fields, surrounding text) and mode names in any letter case. Printing a fixed-point vector shows every bit in order with the binary point at the right place, with implied leading sign or trailing zero positions marked in parentheses. A list of formats written by Python to a file is read back in VHDL as the same list, and so is one written by VHDL; the numeric codes of the modes in Python are the positions of the same modes in VHDL.",
 ["inputs"], "all formats including large negative fields, all modes in any letter case, all vectors, format lists of any length",
 "The unit testbench parses a handful of literal strings.",
 ["hdl/en_cl_fix_pkg.vhd", "hdl/en_cl_fix_private_pkg.vhd", "tb/util/en_cl_fix_fileio_pkg.vhd", PY+"en_cl_fix.py"],
 [("to_string overloads, cl_fix_*_from_string", "hdl/en_cl_fix_pkg.vhd"), ("string_parse_int, toLower, string_find_next_match", "hdl/en_cl_fix_private_pkg.vhd"), ("cl_fix_write_formats", PY+"en_cl_fix.py"), ("cl_fix_read_format_file, cl_fix_write_format_file", "tb/util/en_cl_fix_fileio_pkg.vhd")],
 ["VHDL strings", "format files"])

prop("C21", "Numeric text files written in VHDL read back identically, in every base and type",
 "Writing numbers of any width to a text file or line in binary, decimal or hexadecimal and reading them back with the same type, width and signedness returns the same values, for every supported element type, with or without a header. The text written is the correct numeral of each value, and files with several delimited columns and any number of header lines produced elsewhere are read row by row into the same values. Values already written to a line are kept when further values are appended.",
 ["inputs", "configurations"], "element types, widths 1 to beyond 128, three bases, signedness, row and column counts, header lines, all values",
 "The file testbench covers three widths and fixed data.",
 ["lib/en_tb/hdl/en_tb_fileio_text_pkg.vhd", "lib/en_tb/hdl/en_tb_fileio_text_private_pkg.vhd"],
 [("dwrite/dread double-dabble decimal conversion", "lib/en_tb/hdl/en_tb_fileio_text_private_pkg.vhd"), ("read_file/write_file overloads", "lib/en_tb/hdl/en_tb_fileio_text_pkg.vhd"), ("get_ascii_columns", "lib/en_tb/hdl/en_tb_fileio_text_private_pkg.vhd")],
 ["text files", "values returned by reads"])

prop("C22", "Fixed-point data files exchange values between Python and VHDL without loss",
 "Fixed-point data saved by Python as raw integers with a header is read by the VHDL fixed-point file reader as exactly the bits of those values, for every format; data written by the VHDL writer is read back by the VHDL reader, and by Python as integers, unchanged. Signedness follows the format, reading single values leaves the file positioned at the next one, and requested leading lines are skipped.",
 ["inputs", "configurations"], "all formats (signed/unsigned, width 1 to beyond 128), text modes, value lists, skip counts",
 "Cosim files use tiny formats and one text mode.",
 ["tb/util/en_cl_fix_fileio_pkg.vhd", "lib/en_tb/hdl/en_tb_fileio_text_pkg.vhd"],
 [("cl_fix_read/cl_fix_write/cl_fix_read_file/cl_fix_write_file", "tb/util/en_cl_fix_fileio_pkg.vhd")],
 ["data files", "values returned by reads"])

prop("C23", "Testbench arrays flatten and unflatten losslessly and compare faithfully",
 "Flattening an array of equal-width vectors (indexed from zero) gives one vector whose length is the reported element count, with element i in bit positions i*width upwards, and unflattening it with the same shape returns the original array, for all supported element types and any index direction of the flat vector. The array equality checks pass exactly when lengths and all elements are equal.",
 ["inputs", "configurations"], "seven array types, element widths, lengths, contents, single-bit differences at any position",
 "Only used incidentally by other testbenches; no test varies shape or position of differences.",
 ["lib/en_tb/hdl/en_tb_base_pkg.vhd"],
 [("Numel/Flatten/Unflatten", "lib/en_tb/hdl/en_tb_base_pkg.vhd"), ("check_equal overloads", "lib/en_tb/hdl/en_tb_base_pkg.vhd")],
 ["returned vectors/arrays", "check results"])

prop("C24", "MATLAB wrappers return what the Python model returns",
 "Calling any MATLAB wrapper function with valid formats and data, narrow or wide, returns the same values as the Python function it wraps: row and column vectors and matrices keep their shape, a scalar operand is applied to every element of the other operand, and optional arguments have the same defaults. Data, formats and bounds are converted losslessly in both directions, and wide data converts to and from embedded.fi without changing a value.",
 ["inputs"], "all wrapper functions, formats, rounding and saturation modes, array layouts and data",
 "No MATLAB is available in the project's automated tests, so no wrapper is ever executed by them.",
 ["bittrue/models/matlab"],
 [("mat2py/py2mat conversions", "bittrue/models/matlab/mat2py.m, py2mat.m"), ("wide data container and embedded.fi conversion", "bittrue/models/matlab/wide.m"),
  ("one wrapper per Python function", "bittrue/models/matlab/cl_fix_*.m")],
 ["MATLAB function results"])

prop("C25", "The synthesizable VHDL is VHDL-93 and behaves as in VHDL-2008",
 "The packages and blocks for synthesis compile under the VHDL-93 standard, as documented, and a VHDL-93 build gives the same results as every other property requires of the VHDL: rounding, saturation, arithmetic, format and pipelining calculations, conversions, strings and the clocked behaviour of the blocks are those of the exact model for every input and configuration.",
 ["inputs", "configurations"], "the inputs of the VHDL properties, on a VHDL-93 build",
 "The test suite compiles the RTL as VHDL-2008 with the simulator it runs on; nothing builds or runs it as VHDL-93.",
 ["hdl/en_cl_fix_pkg.vhd", "hdl/en_cl_fix_private_pkg.vhd", "hdl/en_cl_fix_round.vhd", "hdl/en_cl_fix_saturate.vhd", "hdl/en_cl_fix_resize.vhd"],
 [("All RTL code is VHDL-93 compliant", "README.md"), ("functions replacing VHDL-2008 features (to_string, max, log2)", "hdl/en_cl_fix_private_pkg.vhd")],
 ["VHDL-93 build", "VHDL functions and block outputs of that build"])

prop("C26", "A cosim runner executes its cosim at most once under any thread schedule",
 "However the threads calling it are interleaved, a cosim runner never executes its cosim twice at the same time, nor again once an execution has completed; a call that returns does so only after the cosim has completed, and returns true. If the cosim fails, the error reaches the caller and no later call reports success without a completed execution; a disabled runner never executes its cosim. Creating runners, also concurrently and for cosims with equal file names, loads each runner's own cosim without executing it and leaves the module search path as it was, and the configuration returned is that of the cosim, or None if it has none.",
 ["schedules", "histories"], "interleavings of up to four threads calling or creating runners, failing and succeeding cosims, configurations present or absent",
 "The suite runs with cosims disabled or with whatever thread timing happens to occur.",
 ["sim/cosim_runner.py", "lib/en_tb/sim/cosim_runner.py"],
 [("double-checked enable flag and lock", "sim/cosim_runner.py run"), ("temporary sys.path entry under a global lock", "sim/cosim_runner.py __init__"), ("get_config", "sim/cosim_runner.py")],
 ["executions of the cosim", "return values", "sys.path"])

prop("C27", "Cosimulation data covers every value and every combination exactly once",
 "The data generator for a format gives every representable value exactly once in ascending order, and repeating each value of one array and the whole of another gives all pairs of their elements, each once, with values and types unchanged. The progress report prints its message first, percentages that increase and never exceed the share of steps done, and the final word at the last step only. Clearing a directory leaves exactly that directory, empty, whether or not it existed, and touches nothing else.",
 ["inputs", "histories"], "formats of up to 20 bits anywhere around the binary point, arrays of narrow and wide data, step counts, directory trees with links",
 "These helpers make the data of the tests and are never tested themselves.",
 ["bittrue/cosim/cosim_utils.py"],
 [("get_data, repeat_each_value, repeat_whole_array", "bittrue/cosim/cosim_utils.py"), ("ProgressReporter, clear_directory", "bittrue/cosim/cosim_utils.py")],
 ["returned arrays", "printed progress", "directory contents"])

prop("C28", "Misuse is refused: no result from wrong widths, formats, modes or data kinds",
 "A call that breaks a stated rule of the library is refused instead of answered, and a refused Python call leaves its arguments as they were. VHDL stops the simulation when: a data vector given to any fixed-point function is longer or shorter than the width of its format (either operand); a format string lacks '(', ',' or ')' or has a sign digit other than 0 and 1; a rounding or saturation mode name or a comparison operator is unknown; the shift range is reversed; rounding (function, pipelining or RTL block, checks on) is asked for a format that is not the rounding format; saturation changes the fractional bits; a real is converted with a non-saturating mode. Python raises when: data is not in the representation of its format (float64 up to 53 bits, Python integers above) in any operation or value class, in either operand; a narrow class gets a wide format; narrow and wide objects, or objects and plain numbers, are compared, added, subtracted or multiplied; or per-element shift amounts do not match the data in number.",
 ["inputs", "configurations"], "operations, operands, formats up to 120 bits, wrong lengths (also sign or zero extended, or compensating in two operands), malformed texts, wrong data kinds, object mixtures",
 "Tests only make legal calls, since a refused VHDL call ends the simulation; a guard that has become too lenient returns a plausible number.",
 ["hdl/en_cl_fix_pkg.vhd", "hdl/en_cl_fix_private_pkg.vhd", PY+"en_cl_fix.py", PY+"narrow_fix.py", PY+"wide_fix.py"],
 [("vectors constrained to the width of their format", "hdl/en_cl_fix_pkg.vhd, hdl/en_cl_fix_private_pkg.vhd convert"), ("assertions of severity failure", "hdl/en_cl_fix_pkg.vhd"), ("assertions on data and formats", PY+"narrow_fix.py, wide_fix.py, en_cl_fix.py")],
 ["simulation end", "raised exceptions"])

prop("C29", "Cosimulation data sets are complete, consistent, exact and repeatable",
 "Each cosimulation script (the twelve cl_fix_* ones and en_tb_fileio) writes, into the data directory beside it and nowhere else, one entry per test in every parameter list and the output file(s) of exactly these tests; the listed parameters are every usable combination of the parameter values that occur (all rounding and saturation modes for resize, round and saturate; both saturating modes for from_real), each once, and include signed and unsigned formats and negative numbers of integer and fractional bits. Every output file holds the exact results for the listed parameters, for all values of the operand formats in ascending order (a inside, b outside; subtraction before addition for addsub); the file I/O data are the same numbers in all three bases, use the listed width and columns, reach both ends of the range in each column, and number N_TESTS. Running a script again (as a script, through the runner, or twice in one process, from any working directory, with any random state, with anything left in the data directory) gives the same files.",
 ["inputs", "histories"], "all tests of all cosim scripts (sampled in blocks), whole data sets, repeated runs over left-over data",
 "The test benches believe these files: a test that is missing or computed for other parameters makes them pass for nothing, and left-over files come from earlier runs.",
 ["bittrue/cosim", "lib/en_tb/bittrue/cosim"],
 [("run() of each cosim script", "bittrue/cosim/*/cosim.py, lib/en_tb/bittrue/cosim/en_tb_fileio/cosim.py"), ("the order of tests and values expected by the test benches", "tb/*_tb.vhd")],
 ["files written"])

prop("C30", "Library calls depend on their arguments alone, whatever ran before or runs now",
 "Every function, format calculation and value-object method of the Python package gives the same result, the same warnings and the same refusal for equal arguments, whatever was called before: other formats, modes and values, repeated calls, calls that warned or were refused, calls whose argument or result arrays and formats were overwritten by the caller afterwards, calls on the same array, format or value object with other contents or parameters. The same holds while other threads are in the middle of calls, also on the same arrays and objects. No call changes a global setting (NumPy error handling and printing, warning filters, sys.path, working directory), and only the random data generator draws from the random generators.",
 ["histories", "schedules"], "all sequences of calls, all interleavings of calls in several threads",
 "Tests call each function with fresh arguments from one thread; caches, shared scratch buffers and warn-once flags pass them.",
 [PY+"en_cl_fix.py", PY+"en_cl_fix_types.py", PY+"narrow_fix.py", PY+"wide_fix.py", PY+"matlab_interface.py"],
 [("all functions", PY+"*.py"), ("concurrent cosims (VUnit runs pre_config functions in its threads)", "sim/run.py")],
 ["cl_fix_*", "FixFormat.for_*", "NarrowFix", "WideFix"])

prop("C31", "Each VHDL test bench passes exactly when the data files it checks are right",
 "Each of the twelve operation test benches (add, sub, addsub, mult, neg, abs, shift, from_real, compare, round, saturate, resize) reads the formats, modes and expected outputs of its data directory and passes when, for every listed test, the expected outputs are the exact results for all input values in the documented order (b outer, a inner; subtraction before addition), for any number of tests, any formats and modes the operation accepts and any metadata width. It fails when any expected value of any test differs from the exact result, or is missing: no test, position, comparison operator or selector value goes unchecked.",
 ["inputs", "configurations"], "all sets of tests (formats, modes, shifts), metadata widths, and all ways an expected value can be wrong",
 "The benches are run on right data only, and always on the same tests; a bench that checks nothing, skips the last value or takes the parameters of another test passes.",
 ["tb/*.vhd", "tb/util/en_cl_fix_fileio_pkg.vhd", "hdl/*.vhd"],
 [("Check / p_check", "tb/cl_fix_*_tb.vhd"), ("generics and data directories", "sim/run.py")],
 ["the verdict VUnit reads: simulation status and vunit_results"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
