"""Writes known_findings.json: repaired defects, and (none so far) recorded ones."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = """
C12 d2991f8 NarrowFix.__len__ raised NameError
C10 da0e23c cl_fix_in_range compared narrow and wide data representations with each other
C04 3154721 cl_fix_addsub mixed the add and sub formats by default and warned about results that were not selected
C11 e3a77d3 to_uint64_array modified the caller's unsigned data
C08 78d695e NarrowFix.from_real was off by one LSB where x + 0.5 is not exact in double precision
C08 10ab36a WideFix.from_real was wrong for scalars, 0-d arrays, huge inputs and near ties
C01 4fa917f NarrowFix.round lost precision for 53-bit unsigned formats
C02 df1c64b NarrowFix.saturate wrapped scalar data inexactly for formats near 53 bits
C05 3f28c27 WideFix.shift raised IndexError for per-element (array) shifts
C09 635a407 cl_fix_from_integer did not convert or range check wide data
C14 9328f40 cl_fix_random raised TypeError for a wide scalar (shape ())
C02 32fa969 WideFix.saturate silently changed values when the number of fractional bits differs
C11 7e9a380 WideFix uint64 packing failed for 0-d and multi-dimensional data
C18 6f22ec7 VHDL cl_fix_from_real rounded inexactly near ties and wrapped instead of saturating wide formats
C16 dd5caf7 VHDL cl_fix_addsub returned the add or sub format instead of the addsub format by default
C15 dfb511c VHDL cl_fix_round failed with fmt_check off if no operand bit is left in the result format
C18 d05cf12 VHDL cl_fix_from_real rounded wrongly or lost bits beyond 2**31 LSBs
C21 3f1d5b3 decimal write of negative numbers discarded values already written to the line
C21 f2edf2e read_file for SulvArray_t failed for files without data
C26 cc69b60 cosim runner get_config raised KeyError for cosims without COSIM_CONFIG
C24 995092b wide.fi2py lost the top bits of values of more than 64 bits (integer division rounds in MATLAB)
C24 c18f4ba wide.fi2py mixed elements and words up for arrays of at most 64 bits
C24 1c25eb8 MATLAB cl_fix_addsub failed for narrow scalar data
C24 50b5bb3 MATLAB add, sub, addsub and mult lost the shape if the first operand is a scalar
C28 e40b8d0 VHDL cl_fix_to_real and cl_fix_to_integer accepted data whose width does not match the format
C28 e813abf comparing a WideFix with a NarrowFix gave wrong results instead of being refused
C28 b0e4e26 NarrowFix arithmetic with a 0-d WideFix operand gave wrong results instead of being refused
C10 601d4e6 value class addsub warned about results that are not selected
C06 155fcfa format calculations overflowed for sizes and shifts given as small numpy integers
C05 e6c933d WideFix.shift overflowed for a wide range of per-element shifts given as small numpy integers
C08 3640730 NarrowFix.from_real gave NaN or wrong values for single- and half-precision input
C26 06a41cd cosim runner left the cosim path in sys.path if the cosim cannot be loaded
"""
fixed = ["fixed: property={} {} {}".format(*l.split(" ", 2)) for l in FIXED.strip().splitlines()]
FINDINGS = []
json.dump(dict(findings=FINDINGS, fixed=fixed), open(os.path.join(V, "known_findings.json"), "w"), indent=1)
