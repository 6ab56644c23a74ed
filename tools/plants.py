"""The planted bugs. See plant.py."""
PY = "bittrue/models/python/en_cl_fix_pkg/"
PLANTS = []


def plant(id, property, kind, edits, needs, breaks, demo, **kw):
    PLANTS.append(dict(id=id, property=property, kind=kind, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


# ------------------------------------------------------------------ Python

plant("c01_wide_round_true_division", "C01", "py",
      [(PY + "wide_fix.py", "            shift = f - fr\n            val >>= shift\n", "            shift = f - fr\n            val = np.floor(val / 2**shift)\n")],
      "rounding a wide value whose quotient needs more than 53 bits (or lies just below an integer)",
      "WideFix.round truncates with a floating-point division, so large quotients lose their low bits",
      '''
import sys
from en_cl_fix_pkg import *
a_fmt = FixFormat(1, 60, 10)
r_fmt = cl_fix_round_fmt(a_fmt, 2, FixRound.NonSymPos_s)
bad = 0
for raw in (2**69 - 1, 2**68 + 12345, -2**69 + 3, 2**65 + 2**7 - 1, 7):
    r = int(cl_fix_round(np.array([raw], dtype=object), a_fmt, r_fmt, FixRound.NonSymPos_s)[0])
    e = (raw + 2**7) >> 8
    if r != e:
        bad += 1
        print("round", raw, "gives", r, "expected", e)
sys.exit(1 if bad else 0)
'''.replace("from en_cl_fix_pkg import *", "import numpy as np\nfrom en_cl_fix_pkg import *"))

plant("c02_wrap_wide_threshold", "C02", "py",
      [(PY + "narrow_fix.py", "convert_to_wide = (add_fmt.width > NarrowFix.MAX_WIDTH)", "convert_to_wide = (add_fmt.width > NarrowFix.MAX_WIDTH + 2)")],
      "signed wrapping of a narrow format of 52 or 53 bits whose sum with the offset needs 54 or 55 bits, and an odd value",
      "NarrowFix.saturate wraps in float64 although the intermediate sum does not fit 53 bits",
      '''
import sys
import numpy as np
from en_cl_fix_pkg import *
bad = 0
for aI, rI, F in ((40, 39, 12), (41, 40, 12), (53, 52, 0), (10, 9, 42), (11, 10, 42)):
    for aS in (0, 1):
        a_fmt, r_fmt = FixFormat(aS, aI, F), FixFormat(1, rI, F)
        if a_fmt.width > 53 or r_fmt.width > 53:
            continue
        hi = 2**(aI + F) - 1
        for raw in ([1, 3, hi, hi - 2] + ([-1, -3, -hi] if aS else [])):
            a = np.array([raw / 2**F])
            r = cl_fix_saturate(a, a_fmt, r_fmt, FixSaturate.None_s)
            span = 2**(rI + F)
            e = (raw + span) % (2*span) - span
            if int(r[0] * 2**F) != e:
                bad += 1
                print(a_fmt, r_fmt, raw, "gives", int(r[0] * 2**F), "expected", e)
sys.exit(1 if bad else 0)
''')

plant("c03_resize_skips_saturate", "C03", "py",
      [(PY + "en_cl_fix.py", "    # Saturate\n    result = cl_fix_saturate(rounded, rounded_fmt, r_fmt, sat)\n",
        "    # Nothing to saturate if all integer bits are kept (saves time for wide data)\n"
        "    if cl_fix_is_wide(rounded_fmt) and cl_fix_is_wide(r_fmt) and r_fmt.I >= a_fmt.I and r_fmt.S == a_fmt.S:\n"
        "        return rounded\n"
        "    \n    # Saturate\n    result = cl_fix_saturate(rounded, rounded_fmt, r_fmt, sat)\n")],
      "wide source and result with the same integer bits, and a value that overflows only because of rounding",
      "cl_fix_resize returns a value outside the result format (rounding carry not saturated or wrapped)",
      '''
import sys
import numpy as np
from en_cl_fix_pkg import *
a_fmt, r_fmt = FixFormat(0, 30, 40), FixFormat(0, 30, 30)
a = np.array([2**70 - 1, 2**70 - 2**9, 2**70 - 2**9 - 1, 12345], dtype=object)
s = [int(x) for x in cl_fix_resize(a, a_fmt, r_fmt, FixRound.NonSymPos_s, FixSaturate.Sat_s)]
w = [int(x) for x in cl_fix_resize(a, a_fmt, r_fmt, FixRound.NonSymPos_s, FixSaturate.None_s)]
rounded = [(int(x) + 2**9) >> 10 for x in a]
es, ew = [min(x, 2**60 - 1) for x in rounded], [x % 2**60 for x in rounded]
print(s, es, w, ew)
sys.exit(0 if s == es and w == ew else 1)
''')

plant("c04_align_left_shift_64", "C04", "py",
      [(PY + "wide_fix.py", "            val = val * 2**(fr - f)\n", "            val = val * int(np.left_shift(1, fr - f))\n")],
      "operands whose binary points are 63 or more bits apart",
      "WideFix.round scales by a 64-bit shift, so aligning far-apart binary points destroys the value",
      '''
import sys
import numpy as np
from en_cl_fix_pkg import *
bad = 0
for bF in (10, 62, 63, 64, 80):
    a_fmt, b_fmt = FixFormat(1, 20, 0), FixFormat(0, 3, bF)
    m = cl_fix_add_fmt(a_fmt, b_fmt)
    w = cl_fix_is_wide(b_fmt)
    b = np.array([5], dtype=object) if w else np.array([5 / 2.0**bF])
    r = cl_fix_add(np.array([-777.0]), a_fmt, b, b_fmt)
    r = int(r[0]) if cl_fix_is_wide(m) else int(r[0] * 2.0**m.F)
    e = -777 * 2**bF + 5
    if r != e:
        bad += 1
        print("binary points", bF, "apart:", r, "expected", e)
sys.exit(1 if bad else 0)
''')

plant("c05_shift_fmt_includes_zero", "C05", "py",
      [(PY + "en_cl_fix.py", "mid_fmt = cl_fix_shift_fmt(a_fmt, np.min(shift), np.max(shift))",
        "mid_fmt = cl_fix_shift_fmt(a_fmt, min(np.min(shift), 0), max(np.max(shift), 0))")],
      "a wide operand (or wide intermediate) and a shift range that does not contain zero",
      "cl_fix_shift interprets the wide intermediate data in a format with the wrong binary point",
      '''
import sys
import numpy as np
from en_cl_fix_pkg import *
bad = 0
for shift in (-5, 0, 3):
    a_fmt, r_fmt = FixFormat(1, 40, 30), FixFormat(1, 60, 60)
    raw = 987654321987654321
    r = int(cl_fix_shift(np.array([raw], dtype=object), a_fmt, shift, r_fmt)[0])
    e = raw * 2**(30 + shift)
    if r != e:
        bad += 1
        print("shift", shift, "gives", r, "expected", e)
sys.exit(1 if bad else 0)
''')

plant("c06_add_growth_in_float", "C06", "py",
      [(PY + "en_cl_fix_types.py", "rmax_growth = 1 if min(a_fmt.I, b_fmt.I) + min(a_fmt.F, b_fmt.F) > 0 else 0",
        "rmax_growth = 1 if 2.0**min(a_fmt.I, b_fmt.I) - 2.0**-max(a_fmt.F, b_fmt.F) - 2.0**-min(a_fmt.F, b_fmt.F) >= 0 else 0")],
      "operand formats whose fractional bits differ by more than 53, at the exact boundary of the bit-growth condition",
      "the advertised sum format has an integer bit that no sum can ever use (not minimal)",
      '''
import sys
from en_cl_fix_pkg import *
bad = 0
for S in (0, 1):
    for F in (2, 20, 60, 90):
        a, b = FixFormat(1, 0, 0), FixFormat(0, 4, F)     # a is -1 or 0
        r = cl_fix_add_fmt(a, b)
        lo, hi = -2**F, 2**(4 + F) - 1                      # in units of 2**-F
        need = 4                                            # 2**(I+F) > hi and -2**(I+F) <= lo
        if (r.S, r.I, r.F) != (1, need, F):
            bad += 1
            print(a, "+", b, "gives", r)
sys.exit(1 if bad else 0)
''')

plant("c07_is_wide_off_by_one", "C07", "py",
      [(PY + "en_cl_fix.py", "return cl_fix_width(fmt) > NarrowFix.MAX_WIDTH", "return cl_fix_width(fmt) >= NarrowFix.MAX_WIDTH")],
      "a format of exactly 53 bits",
      "results in 53-bit formats come back as arbitrary-precision integers instead of floats",
      '''
import sys
import numpy as np
from en_cl_fix_pkg import *
r = cl_fix_resize(np.array([1.5]), FixFormat(1, 3, 4), FixFormat(1, 10, 42))
print(r, r.dtype)
n = NarrowFix(np.array([1.5]), FixFormat(1, 3, 4)).resize(FixFormat(1, 10, 42))
sys.exit(0 if r.dtype == np.float64 and r[0] == n.data[0] == 1.5 else 1)
''')

plant("c08_from_real_wide_limit", "C08", "py",
      [(PY + "wide_fix.py", "            x = np.where(x > WideFix.max_value(r_fmt)._data, WideFix.max_value(r_fmt)._data, x)\n"
        "            x = np.where(x < WideFix.min_value(r_fmt)._data, WideFix.min_value(r_fmt)._data, x)\n        else:\n            # Wrapping has not been implemented",
        "            x = np.where(a > WideFix.max_value(r_fmt).to_real(warn=False), WideFix.max_value(r_fmt)._data, x)\n"
        "            x = np.where(a < WideFix.min_value(r_fmt).to_real(warn=False), WideFix.min_value(r_fmt)._data, x)\n        else:\n            # Wrapping has not been implemented")],
      "converting exactly 2**I to a format of more than 53 bits",
      "the result is one above the maximum of the format instead of being clipped",
      '''
import sys
import numpy as np
from en_cl_fix_pkg import *
fmt = FixFormat(1, 4, 60)
bad = 0
for x in (15.75, 16.0, 16.5, 1e9, -16.0, -17.0):
    r = int(cl_fix_from_real(np.array([x]), fmt, FixSaturate.Sat_s)[0])
    e = max(-2**64, min(2**64 - 1, int(x * 4) * 2**58))
    if r != e:
        bad += 1
        print(x, "gives", r, "expected", e)
sys.exit(1 if bad else 0)
''')

plant("c09_from_integer_any", "C09", "py",
      [(PY + "narrow_fix.py", "if not np.all(NarrowFix(value, a_fmt).in_range(a_fmt)):", "if not np.any(NarrowFix(value, a_fmt).in_range(a_fmt)):")],
      "an integer array in which some, but not all, elements are out of range",
      "out-of-range integers are accepted as long as one element is in range",
      '''
import sys
import numpy as np
from en_cl_fix_pkg import *
fmt = FixFormat(0, 3, 1)
bad = 0
for a in ([16], [3, 16], [-1, 4, 5], [16, 17]):
    try:
        r = cl_fix_from_integer(np.array(a), fmt)
        bad += 1
        print(a, "accepted:", r)
    except ValueError:
        pass
sys.exit(1 if bad else 0)
''')

plant("c10_wide_warning_abs", "C10", "py",
      [(PY + "wide_fix.py", "if np.any(val > WideFix.max_value(r_fmt).data) or np.any(val < WideFix.min_value(r_fmt).data):",
        "if np.any(abs(val) > WideFix.max_value(r_fmt).data) or np.any(val < WideFix.min_value(r_fmt).data):")],
      "a wide value equal to the most negative value of a signed result format, with a warning saturation mode",
      "a saturation warning is emitted although the value fits",
      '''
import sys, warnings
import numpy as np
from en_cl_fix_pkg import *
bad = 0
a_fmt, r_fmt = FixFormat(1, 70, 4), FixFormat(1, 60, 4)
for raw, e in ((-2**64, False), (-2**64 - 1, True), (2**64 - 1, False), (2**64, True), (5, False)):
    for sat in (FixSaturate.Warn_s, FixSaturate.SatWarn_s):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            cl_fix_saturate(np.array([raw], dtype=object), a_fmt, r_fmt, sat)
        if bool(w) != e:
            bad += 1
            print(raw, sat, "warned:", bool(w), "expected:", e)
sys.exit(1 if bad else 0)
''')

plant("c11_extra_word", "C11", "py",
      [(PY + "matlab_interface.py", "n_ints = (fmt.width + 63) // 64  # ceil(width / 64)", "n_ints = fmt.width // 64 + 1")],
      "a format whose width is a multiple of 64",
      "one 64-bit word more than needed is produced",
      '''
import sys
import numpy as np
from en_cl_fix_pkg import *
import en_cl_fix_pkg.matlab_interface as mi
bad = 0
for w in (54, 63, 64, 65, 127, 128, 129, 192):
    fmt = FixFormat(0, w, 0)
    u = mi.to_uint64_array(np.array([1, 2**w - 1], dtype=object), fmt)
    if u.shape != (2, -(-w // 64)):
        bad += 1
        print("width", w, "packed into", u.shape)
sys.exit(1 if bad else 0)
''')

plant("c12_clean_input_alias", "C12", "py",
      [(PY + "en_cl_fix.py", "        return np.array(a)\n", "        return np.asarray(a)\n")],
      "an array passed through a conversion that returns its data unchanged, then modified by the caller",
      "the result of cl_fix_to_real/cl_fix_to_integer shares storage with the input array",
      '''
import sys
import numpy as np
from en_cl_fix_pkg import *
a = np.array([1.5, 2.0])
r = cl_fix_to_real(a, FixFormat(1, 4, 2))
a[0] = -3.0
w = np.array([2**60, 5], dtype=object)
i = cl_fix_to_integer(w, FixFormat(1, 60, 2))
w[1] = 77
print(r, i)
sys.exit(0 if r[0] == 1.5 and i[1] == 5 else 1)
''')

plant("c13_wide_lt_in_float", "C13", "py",
      [(PY + "wide_fix.py", '        a, b = WideFix.align_binary_points([self, other])\n        return a._data < b._data\n',
        '        return self.to_real(warn=False) < other.to_real(warn=False)\n')],
      "two different wide values that round to the same double",
      "the < relation of wide values answers False for close values",
      '''
import sys
import numpy as np
from en_cl_fix_pkg import *
a = WideFix(np.array([2**60, 2**60, 3], dtype=object), FixFormat(1, 61, 5))
b = WideFix(np.array([2**60 + 1, 2**60, 2], dtype=object), FixFormat(1, 61, 5))
r = [bool(x) for x in (a < b)]
print(r)
sys.exit(0 if r == [True, False, False] else 1)
''')

plant("c14_random_excludes_max", "C14", "py",
      [(PY + "en_cl_fix.py", "xint = np.random.randint(int_min, int_max+1, shape, np.int64)", "xint = np.random.randint(int_min, max(int_max, int_min+1), shape, np.int64)")],
      "many random draws from a small narrow format",
      "the maximum of the format is never generated",
      '''
import sys
import numpy as np
from en_cl_fix_pkg import *
np.random.seed(1)
bad = 0
for fmt in (FixFormat(0, 1, 0), FixFormat(0, 0, 2), FixFormat(1, 1, 1)):
    seen = sorted(set(float(x) for x in cl_fix_random((2000,), fmt)))
    if seen[-1] != float(cl_fix_max_value(fmt)) or len(seen) != 2**fmt.width:
        bad += 1
        print(fmt, "random values:", seen)
sys.exit(1 if bad else 0)
''')

# ------------------------------------------------------------------ VHDL package

CTX = '''
library ieee;
use ieee.std_logic_1164.all;
use ieee.numeric_std.all;
use work.en_cl_fix_pkg.all;
entity demo is end;
architecture a of demo is
begin
  process
@DECL@
  begin
@BODY@
    wait;
  end process;
end;
'''


def vhd(decl, body):
    return CTX.replace("@DECL@", decl.strip("\n")).replace("@BODY@", body.strip("\n"))


plant("c15_resize_default_silent", "C15", "vhdl",
      [("hdl/en_cl_fix_pkg.vhd", "        result_fmt  : FixFormat_t;\n        round       : FixRound_t := Trunc_s;\n        saturate    : FixSaturate_t := Warn_s\n    ) return std_logic_vector;\n    \n    function cl_fix_in_range",
        "        result_fmt  : FixFormat_t;\n        round       : FixRound_t := Trunc_s;\n        saturate    : FixSaturate_t := None_s\n    ) return std_logic_vector;\n    \n    function cl_fix_in_range"),
       ("hdl/en_cl_fix_pkg.vhd", "        round       : FixRound_t    := Trunc_s;\n        saturate    : FixSaturate_t := Warn_s\n    ) return std_logic_vector is\n        -- Round\n        constant rounded_fmt_c  : FixFormat_t := cl_fix_round_fmt(a_fmt, result_fmt.F, round);\n        constant rounded_c ",
        "        round       : FixRound_t    := Trunc_s;\n        saturate    : FixSaturate_t := None_s\n    ) return std_logic_vector is\n        -- Round\n        constant rounded_fmt_c  : FixFormat_t := cl_fix_round_fmt(a_fmt, result_fmt.F, round);\n        constant rounded_c ")],
      "calling cl_fix_resize without a saturation mode for a value that does not fit",
      "the documented warning of the default mode is not reported",
      vhd("", '''
    assert cl_fix_resize("01111", (1,4,0), (1,2,0)) = "111" report "wrong data" severity failure;
'''), after='grep -q "Saturation warning" run.log || { echo "no warning"; exit 1; }')

plant("c15_get_half_integer", "C15", "vhdl",
      [("hdl/en_cl_fix_pkg.vhd", "        -- Set the \"tie\" bit (i.e. half the LSB weight of rFmt)\n        v(tie_c) := '1';\n        return v;\n",
        "        -- Half the LSB weight of rFmt\n        if tie_c < 31 then\n            v := to_unsigned(2**tie_c, v'length);\n        end if;\n        return v;\n")],
      "rounding away 32 or more fractional bits with a mode other than truncation",
      "the rounding offset is missing, so values are truncated instead of rounded to nearest",
      vhd('''
    variable a : std_logic_vector(63 downto 0);
    variable r : std_logic_vector(24 downto 0);
''', '''
    for f in 30 to 40 loop
      a := (others => '0');
      a(f-1) := '1';  -- exactly one half
      a(f) := '1';    -- one and a half
      assert to_integer(unsigned(cl_fix_round(a, (0, 64-f, f), (0, 65-f, 0), NonSymPos_s))) = 2
        report "round of 1.5 with " & integer'image(f) & " fractional bits" severity failure;
    end loop;
'''))

plant("c16_sign_high", "C16", "vhdl",
      [("hdl/en_cl_fix_pkg.vhd", "        -- Force downto 0\n        constant a_c    : std_logic_vector(cl_fix_width(aFmt)-1 downto 0) := a;\n    begin\n        if aFmt.S = 0 or cl_fix_width(aFmt) = 0 then\n            return '0';\n        end if;\n        return a_c(a_c'high);\n",
        "    begin\n        if aFmt.S = 0 or cl_fix_width(aFmt) = 0 then\n            return '0';\n        end if;\n        return a(a'high);\n")],
      "a vector with ascending index range passed to cl_fix_sign or cl_fix_abs",
      "the least significant bit is taken for the sign",
      vhd('''
    variable a : std_logic_vector(0 to 3) := "0011";
    variable b : std_logic_vector(3 downto 0) := "0011";
''', '''
    assert cl_fix_sign(b, (1,3,0)) = '0' report "descending" severity failure;
    assert cl_fix_sign(a, (1,3,0)) = '0' report "ascending" severity failure;
    assert cl_fix_abs(a, (1,3,0), (1,4,0)) = "00011" report "abs ascending" severity failure;
'''))

plant("c16_compare_integer", "C16", "vhdl",
      [("hdl/en_cl_fix_pkg.vhd", '            elsif comparison = ">"  then return unsigned(a_v) >  unsigned(b_v);\n            elsif comparison = "<=" then return unsigned(a_v) <= unsigned(b_v);\n',
        '            elsif comparison = ">"  then return unsigned(a_v) >  unsigned(b_v);\n            elsif comparison = "<=" and mid_fmt_c.F > 31 then return unsigned(a_v(a_v\'high downto mid_fmt_c.F-31)) <= unsigned(b_v(b_v\'high downto mid_fmt_c.F-31));\n            elsif comparison = "<=" then return unsigned(a_v) <= unsigned(b_v);\n')],
      "comparing two unsigned numbers with <= that have more than 31 fractional bits and differ only below 2**-31",
      "<= ignores fractional bits beyond the 31st",
      vhd('''
    constant x : std_logic_vector(40 downto 0) := (0 => '1', 40 => '1', others => '0');
    constant y : std_logic_vector(40 downto 0) := (40 => '1', others => '0');
''', '''
    assert not cl_fix_compare("<=", x, (0,1,40), y, (0,1,40)) report "x <= y" severity failure;
    assert cl_fix_compare("<=", y, (0,1,40), x, (0,1,40)) report "y <= x" severity failure;
'''))

plant("c17_pipelining_sign", "C17", "vhdl",
      [("hdl/en_cl_fix_pkg.vhd", "if result_fmt.I >= a_fmt.I and result_fmt.S = a_fmt.S then", "if result_fmt.I > a_fmt.I or (result_fmt.I = a_fmt.I and result_fmt.S = a_fmt.S) then")],
      "saturating from signed to unsigned (or back) with more integer bits in the result",
      "the recommended pipelining is 0 although saturation logic is needed",
      vhd("", '''
    assert cl_fix_recommended_pipelining((1,3,2), (0,4,2), Sat_s) = 1 report "signed to unsigned" severity failure;
    assert cl_fix_recommended_pipelining((1,3,2), (1,4,2), Sat_s) = 0 report "signed to signed" severity failure;
    assert cl_fix_recommended_pipelining((1,3,2), (0,3,2), Sat_s) = 1 report "signed to unsigned, same I" severity failure;
'''))

plant("c18_from_real_min_silent", "C18", "vhdl",
      [("hdl/en_cl_fix_pkg.vhd", "        elsif a < min_real(result_fmt) then\n            assert saturate = Sat_s report \"cl_fix_from_real : Saturation warning!\" severity Warning;\n",
        "        elsif a < min_real(result_fmt) then\n            assert saturate = Sat_s or result_fmt.S = 0 report \"cl_fix_from_real : Saturation warning!\" severity Warning;\n")],
      "converting a negative real to an unsigned format in the warning mode",
      "no warning is reported although the value was clipped to zero",
      vhd("", '''
    assert cl_fix_from_real(-1.5, (0,4,2), SatWarn_s) = "000000" report "wrong data" severity failure;
'''), after='grep -q "Saturation warning" run.log || { echo "no warning"; exit 1; }')

plant("c18_to_real_chunk", "C18", "vhdl",
      [("hdl/en_cl_fix_pkg.vhd", "            result_v := result_v + real(to_integer(Chunk_v)) * 2.0**(-a_fmt.F);\n        end loop;\n        \n        -- Add sign bit contribution\n        result_v := result_v + Correction_v;\n        \n        return result_v;\n",
        "            result_v := result_v + real(to_integer(Chunk_v));\n        end loop;\n        \n        -- Add sign bit contribution\n        result_v := result_v * 2.0**(-a_fmt.F) + Correction_v;\n        \n        -- Avoid negative zero\n        if abs(result_v) < 2.0**(-a_fmt.F) or abs(result_v) < 1.0e-12 then\n            return 0.0;\n        end if;\n        return result_v;\n")],
      "a value smaller than 1e-12 in a format with 40 or more fractional bits",
      "cl_fix_to_real returns zero for very small values",
      vhd("", '''
    assert cl_fix_to_real("00000001", (1,-38,45)) = 2.0**(-45) report "2**-45" severity failure;
    assert cl_fix_to_real("11111111", (1,-38,45)) = -2.0**(-45) report "-2**-45" severity failure;
    assert cl_fix_to_real("11111111", (1,3,4)) = -0.0625 report "-1/16" severity failure;
'''))

plant("c19_resize_second_stage_reset", "C19", "vhdl",
      [("hdl/en_cl_fix_resize.vhd", "        clk         => clk,\n        rst         => rst,\n        -- Input\n        in_valid    => round_valid,", "        clk         => clk,\n        rst         => '0',\n        -- Input\n        in_valid    => round_valid,")],
      "a reset while a valid sample is between the two pipeline stages",
      "a sample in the first pipeline register survives the reset and appears as valid",
      '''
library ieee;
use ieee.std_logic_1164.all;
use work.en_cl_fix_pkg.all;
entity demo is end;
architecture a of demo is
  signal clk, rst, iv, ov : std_logic := '0';
  signal id : std_logic_vector(5 downto 0) := "010101";
  signal od : std_logic_vector(3 downto 0);
  signal om : std_logic_vector(-1 downto 0);
begin
  dut : entity work.en_cl_fix_resize
    generic map (in_fmt_g => (1,3,2), out_fmt_g => (1,3,0), round_g => NonSymPos_s, saturate_g => Sat_s, reg_mode_g => Yes_s)
    port map (clk => clk, rst => rst, in_valid => iv, in_data => id, out_valid => ov, out_meta => om, out_data => od);
  process
    procedure tick is
    begin
      wait for 5 ns; clk <= '1'; wait for 5 ns; clk <= '0'; wait for 1 ns;
    end procedure;
  begin
    rst <= '1'; tick; tick; rst <= '0';
    iv <= '1'; tick;            -- sample enters the first register
    iv <= '0'; rst <= '1'; tick; -- reset
    assert ov = '0' report "valid after reset" severity failure;
    rst <= '0'; tick;
    assert ov = '0' report "valid after reset" severity failure;
    iv <= '1'; tick; tick;
    assert ov = '1' report "no valid sample" severity failure;
    wait;
  end process;
end;
''')

plant("c20_tolower_z", "C20", "vhdl",
      [("hdl/en_cl_fix_private_pkg.vhd", "            when 'Y' => v := 'y';\n            when 'Z' => v := 'z';\n", "            when 'Y' => v := 'y';\n")],
      "parsing the rounding mode SymZero_s with an upper-case Z other than in its usual spelling",
      "cl_fix_round_from_string rejects SYMZERO_S / SymZero_s",
      vhd("", '''
    assert cl_fix_round_from_string("SymZero_s") = SymZero_s report "SymZero_s" severity failure;
    assert cl_fix_round_from_string("SYMZERO_S") = SymZero_s report "SYMZERO_S" severity failure;
'''))

plant("c20_parse_int_digits", "C20", "vhdl",
      [("hdl/en_cl_fix_private_pkg.vhd", "        -- Return number with correct sign\n        if IsNegative_v then\n", "        -- Return number with correct sign\n        if IsNegative_v and AbsoluteVal_v < 100 then\n")],
      "a format string with a negative field of three or more digits",
      "the sign of large negative fields is lost",
      vhd("", '''
    assert cl_fix_format_from_string("(1, -120, 130)") = FixFormat_t'(1, -120, 130) report "I = -120" severity failure;
    assert cl_fix_format_from_string("(1,-12,130)") = FixFormat_t'(1, -12, 130) report "I = -12" severity failure;
'''))

TBCTX = '''
library ieee;
use ieee.std_logic_1164.all;
use ieee.numeric_std.all;
library std;
use std.textio.all;
library vunit_lib;
context vunit_lib.vunit_context;
library en_tb;
context en_tb.en_tb_fileio_context;
use work.en_cl_fix_pkg.all;
use work.en_cl_fix_fileio_pkg.all;
entity demo is end;
architecture a of demo is
begin
  process
@DECL@
  begin
@BODY@
    wait;
  end process;
end;
'''


def tb(decl, body):
    return TBCTX.replace("@DECL@", decl.strip("\n")).replace("@BODY@", body.strip("\n"))


PRIV = "lib/en_tb/hdl/en_tb_fileio_text_private_pkg.vhd"
plant("c21_dwrite_digits", "C21", "tb",
      [(PRIV, "        constant n_digits_c : positive := (x'length + 2) / 3;\n", "        constant n_digits_c : positive := (x'length * 3) / 10 + 1;\n")],
      "writing a large number of 103 or more bits in decimal",
      "the leading digit of the decimal numeral is lost",
      tb('''
    variable l : line;
    variable x : ieee.numeric_std.unsigned(102 downto 0) := (others => '1');
    variable y : ieee.numeric_std.unsigned(102 downto 0);
''', '''
    write(l, x, ascii_dec);
    read(l, y, ascii_dec);
    assert x = y report "103-bit number changed by writing and reading" severity failure;
'''))

plant("c21_lowercase_hex_columns", "C21", "tb",
      [(PRIV, "                character'pos(c) <= character'pos('F')) or\n               (character'pos(c) >= character'pos('a') and\n                character'pos(c) <= character'pos('f'));",
        "                character'pos(c) <= character'pos('F'));")],
      "reading a hexadecimal file with lower-case digits",
      "lower-case digits are taken for column delimiters, so the number of columns is wrong",
      tb('''
    file f : text;
    variable l : line;
    impure function n(name : string) return integer is
      constant v : UnsignedArray_t := read_file(name, 16, ascii_hex, 0);
    begin
      return v'length;
    end function;
''', '''
    file_open(f, "x.txt", write_mode);
    write(l, string'("1a2b 00cd")); writeline(f, l);
    write(l, string'("ffff 0001")); writeline(f, l);
    file_close(f);
    assert n("x.txt") = 4 report "number of values: " & integer'image(n("x.txt")) severity failure;
'''))

plant("c22_read_ignores_mode", "C22", "tb",
      [("tb/util/en_cl_fix_fileio_pkg.vhd", "        cl_fix_read(Line_v, Value_v, Fmt, TextMode);\n", "        cl_fix_read(Line_v, Value_v, Fmt);\n")],
      "reading single values from a binary or hexadecimal file",
      "the text mode is ignored and the digits are read as decimal",
      tb('''
    file f : text;
    constant x : std_logic_vector(7 downto 0) := "00010010";
    impure function get(name : string) return std_logic_vector is
      file g : text;
    begin
      file_open(g, name, read_mode);
      return cl_fix_read(g, (0,4,4), ascii_hex, 0, true);
    end function;
''', '''
    file_open(f, "x.txt", write_mode);
    cl_fix_write(f, x, (0,4,4), ascii_hex);
    file_close(f);
    assert get("x.txt") = x report "hexadecimal value changed" severity failure;
'''))

BASE = "lib/en_tb/hdl/en_tb_base_pkg.vhd"
plant("c23_check_skips_last", "C23", "tb",
      [(BASE, "    procedure check_equal(checker : checker_t; got, expected : SignedArray_t; msg : string := \"\") is\n    begin\n        check_equal(checker, got'length, expected'length, msg & \" Length mismatch.\");\n        for i in 0 to expected'length-1 loop",
        "    procedure check_equal(checker : checker_t; got, expected : SignedArray_t; msg : string := \"\") is\n    begin\n        check_equal(checker, got'length, expected'length, msg & \" Length mismatch.\");\n        for i in 0 to expected'high-1 loop")],
      "comparing two signed arrays, with a checker, that differ only in the last element",
      "the last element is never compared",
      tb('''
    constant c : checker_t := new_checker("c");
    variable a, b : SignedArray_t(0 to 2)(3 downto 0) := ("0001", "0010", "0011");
    variable s : checker_stat_t;
''', '''
    disable_stop(get_logger(c), error);
    b(2) := "1011";
    check_equal(c, a, b);
    get_checker_stat(c, s);
    assert s.n_failed > 0 report "difference not detected" severity failure;
'''))

plant("c23_unflatten_direction", "C23", "tb",
      [(BASE, "    procedure Unflatten(X : bit_vector; Y : out BitVectorArray_t) is\n        constant Nbits_c    : natural := Y'element'length;\n        constant X_c        : bit_vector(X'length-1 downto 0) := X; -- Force downto 0.\n    begin\n        for i in Y'range loop\n            Y(i) := X_c((i+1)*Nbits_c-1 downto i*Nbits_c);",
        "    procedure Unflatten(X : bit_vector; Y : out BitVectorArray_t) is\n        constant Nbits_c    : natural := Y'element'length;\n        alias X_c           : bit_vector(0 to X'length-1) is X;\n    begin\n        for i in Y'range loop\n            if X'ascending then\n                Y(i) := X_c(i*Nbits_c to (i+1)*Nbits_c-1);\n            else\n                Y(i) := X(X'low + (i+1)*Nbits_c-1 downto X'low + i*Nbits_c);\n            end if;")],
      "unflattening a bit vector with ascending index range and two or more elements",
      "the elements come out in reverse order",
      tb('''
    variable x : bit_vector(0 to 7) := "00010010";
    variable z : bit_vector(7 downto 0) := "00010010";
    variable y : BitVectorArray_t(0 to 1)(3 downto 0);
''', '''
    Unflatten(z, y);
    assert y(0) = "0010" and y(1) = "0001" report "descending" severity failure;
    Unflatten(x, y);
    assert y(0) = "0010" and y(1) = "0001" report "ascending" severity failure;
'''))

# ------------------------------------------------------------------ MATLAB
MAT = "bittrue/models/matlab/"
MAT_HEAD = """
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import en_cl_fix_pkg as K
import mat
I = mat.Interp([os.path.join(os.getcwd(), "bittrue", "models", "matlab")], {"en_cl_fix_pkg": K})


def fmt(s, i, f):
    return I.call("cl_fix_format", mat.dbl(float(s)), mat.dbl(float(i)), mat.dbl(float(f)))


def wide(v, s, i, f):
    return mat.Fi(np.array(v, dtype=object).reshape(1, -1), s, s + i + f, f)


def narrow(v):
    return np.array(v, dtype=float).reshape(1, -1)


bad = 0
"""

plant("c24_fi2py_rounds", "C24", "py",
      [(MAT + "wide.m", "            x.RoundingMethod = 'Floor';\n            for k = 1:n_ints", "            for k = 1:n_ints")],
      "wide data of more than 64 bits with bit 63 set, passed from MATLAB to Python",
      "shifting the next 64-bit word down rounds to nearest, so the upper words are one too large",
      MAT_HEAD + """
f = fmt(1, 79, 0)
for v in (5, 2**70 + 3, -2**70 + 3, 2**63, 2**70 + 2**63 + 1, -1):
    r = int(I.call("cl_fix_resize", wide([v], 1, 79, 0), f, f).raw.reshape(-1)[0])
    if r != v:
        bad += 1
        print("resize", v, "gives", r)
sys.exit(1 if bad else 0)
""", extra=["lib/mat.py"])

plant("c24_sub_operand_format", "C24", "py",
      [(MAT + "cl_fix_sub.m", "    varargin{3} = wide.mat2py(varargin{3}, varargin{4});", "    varargin{3} = wide.mat2py(varargin{3}, varargin{2});")],
      "subtracting a narrow from a wide operand or a wide from a narrow one",
      "the second operand is converted with the first operand's format, which only works if both are narrow or both wide",
      MAT_HEAD + """
n, w = fmt(1, 15, 4), fmt(1, 79, 4)
try:
    a = I.call("cl_fix_sub", wide([16, -2**80 + 5], 1, 79, 4), w, narrow([1.5, -2.25]), n, w).raw.reshape(-1).tolist()
    b = I.call("cl_fix_sub", narrow([1.5, -2.25]), n, wide([16, -2**80 + 5], 1, 79, 4), w, w).raw.reshape(-1).tolist()
except mat.MError as e:
    print("error:", e)
    sys.exit(1)
e = [16 - 24, -2**80 + 5 + 36]
print(a, b)
sys.exit(0 if a == e and b == [-x for x in e] else 1)
""", extra=["lib/mat.py"])

# ------------------------------------------------------------------ VHDL-93

V93 = """#!/bin/bash
# cwd: the repository. Exit 0 if the RTL compiles as VHDL-93, nonzero if not.
repo="$PWD"
d="$(mktemp -d /tmp/demo_XXXXXX)"
trap 'rm -rf -- "$d"' EXIT
cd "$d" || exit 2
h="$repo/hdl"
ghdl -a --std=93 "$h/en_cl_fix_private_pkg.vhd" "$h/en_cl_fix_pkg.vhd" "$h/en_cl_fix_round.vhd" "$h/en_cl_fix_saturate.vhd" "$h/en_cl_fix_resize.vhd" > log 2>&1 && exit 0
cat log
exit 1
"""

plant("c25_conditional_in_process", "C25", "sh",
      [("hdl/en_cl_fix_saturate.vhd", "                out_valid <= in_valid and not rst;", "                out_valid <= '0' when rst = '1' else in_valid;")],
      "a VHDL-93 compiler (the tests compile as VHDL-2008)",
      "a conditional signal assignment inside a process does not exist in VHDL-93", V93)

plant("c25_else_generate", "C25", "sh",
      [("hdl/en_cl_fix_round.vhd", "    end generate;\n    \n    -- Without pipeline register\n    g_no_register : if not use_reg_c generate\n", "    \n    -- Without pipeline register\n    else generate\n")],
      "a VHDL-93 compiler (the tests compile as VHDL-2008)",
      "else generate does not exist in VHDL-93", V93)

# ------------------------------------------------------------------ cosim runner and helpers
RUNNER_HEAD = r"""
import os, sys, tempfile, threading, time, shutil
sys.path.insert(0, os.path.join(os.getcwd(), "sim"))
from cosim_runner import cosim_runner
d = tempfile.mkdtemp(prefix="demo_")
log = []


def make(name, text):
    os.mkdir(os.path.join(d, name))
    with open(os.path.join(d, name, "cosim.py"), "w") as f:
        f.write("import time\n" + text)
    return cosim_runner(False, os.path.join(d, name))


def finish(bad):
    shutil.rmtree(d)
    for b in bad:
        print(b)
    sys.exit(1 if bad else 0)

"""
RUN = "sim/cosim_runner.py"

plant("c26_disable_before_run", "C26", "py",
      [(RUN, "                    # Execute the cosimulation run() function\n                    self.module_dict[\"run\"]()\n                    # Self-disable to prevent multiple cosim executions\n                    self.enable = False\n",
        "                    # Self-disable to prevent multiple cosim executions\n                    self.enable = False\n                    # Execute the cosimulation run() function\n                    self.module_dict[\"run\"]()\n")],
      "a second thread calls the runner while its cosim is executing, or a call follows one whose cosim failed",
      "such a call reports success at once, although there is no complete cosim data", RUNNER_HEAD + r"""
r = make("a", "COSIM_CONFIG = []\ndef run():\n    time.sleep(1)\n    COSIM_CONFIG.append(1)\n")
bad = []
t = threading.Thread(target=r.run)
t.start()
time.sleep(0.3)
r.run()
if len(r.get_config()) != 1:
    bad.append("a call returned before the cosim was complete")
t.join()
s = make("b", "def run():\n    raise ValueError\n")
for k in range(2):
    try:
        s.run()
        bad.append("a call reports success although the cosim failed")
    except ValueError:
        pass
finish(bad)
""")

plant("c26_no_second_check", "C26", "py",
      [(RUN, "                if self.enable:\n                    # Execute the cosimulation run() function\n                    self.module_dict[\"run\"]()\n                    # Self-disable to prevent multiple cosim executions\n                    self.enable = False\n",
        "                # Execute the cosimulation run() function\n                self.module_dict[\"run\"]()\n                # Self-disable to prevent multiple cosim executions\n                self.enable = False\n")],
      "a second thread calls the runner while its cosim is executing",
      "the cosim is executed again", RUNNER_HEAD + r"""
r = make("a", "COSIM_CONFIG = []\ndef run():\n    COSIM_CONFIG.append(1)\n    time.sleep(0.7)\n")
t = [threading.Thread(target=r.run) for k in range(3)]
for x in t:
    x.start()
    time.sleep(0.1)
for x in t:
    x.join()
n = len(r.get_config())
finish([] if n == 1 else [f"executed {n} times"])
""")

plant("c26_path_appended", "C26", "py",
      [(RUN, "            # Note: Using insert() instead of append should avoid issues with module name clashes.\n            sys.path.insert(1, self.cosim_path)\n",
        "            # Note: A path which is there already needs no second entry.\n            if self.cosim_path not in sys.path:\n                sys.path.insert(1, self.cosim_path)\n")],
      "a cosim path that is in sys.path already (behind another one with a cosim of the same name)",
      "loads the cosim of the other directory, and removes the caller's entry", RUNNER_HEAD + r"""
a = make("a", "COSIM_CONFIG = 'a'\ndef run():\n    pass\n")
b = os.path.join(d, "b")
os.mkdir(b)
with open(os.path.join(b, "cosim.py"), "w") as f:
    f.write("COSIM_CONFIG = 'b'\ndef run():\n    pass\n")
sys.path.insert(1, b)
sys.path.insert(1, os.path.join(d, "a"))
before = list(sys.path)
got = cosim_runner(False, b).get_config()
finish([] if got == "b" and sys.path == before else [f"configuration {got}, {len(before)} -> {len(sys.path)} entries"])
""")

CU = "bittrue/cosim/cosim_utils.py"
UTIL_HEAD = """
import os, sys, tempfile, shutil
sys.path.insert(0, os.path.join(os.getcwd(), "bittrue", "cosim"))
from cosim_utils import *
"""

plant("c27_clear_keeps_hidden", "C27", "py",
      [(CU, "import os\nfrom os.path", "import os\nfrom glob import glob\nfrom os.path"),
       (CU, "    try:\n        rmtree(path)\n    except FileNotFoundError:\n        pass\n    os.mkdir(path)\n",
        "    # Keep the directory itself (it may be open in another program)\n    if not os.path.isdir(path):\n        os.mkdir(path)\n"
        "    for entry in glob(join(path, \"*\")):\n        if os.path.isdir(entry) and not os.path.islink(entry):\n            rmtree(entry)\n        else:\n            os.remove(entry)\n")],
      "clearing a directory that holds a hidden file",
      "files with names starting with a dot remain", UTIL_HEAD + """
d = tempfile.mkdtemp(prefix="demo_")
p = os.path.join(d, "data")
os.makedirs(os.path.join(p, "sub"))
for n in ("a.txt", ".hidden", "sub/b"):
    open(os.path.join(p, n), "w").close()
clear_directory(p)
left = os.listdir(p)
shutil.rmtree(d)
print(left)
sys.exit(1 if left else 0)
""")

plant("c27_get_data_int16", "C27", "py",
      [(CU, "np.arange(int_min, 1+int_max)", "np.arange(int_min, 1+int_max, dtype=np.int16)")],
      "a format of more than 15 bits without sign or 16 bits with",
      "the counter wraps around", UTIL_HEAD + """
for s, i, f in ((1, 3, 4), (0, 10, 4), (0, 10, 6), (1, 12, 6)):
    fmt = FixFormat(s, i, f)
    try:
        x = np.asarray(get_data(fmt)) * 2.0**f
    except Exception as e:
        print(fmt, e)
        sys.exit(1)
    if not np.array_equal(x, np.arange(-2**(i+f) if s else 0, 2**(i+f))):
        print(fmt, x[:3], x[-3:])
        sys.exit(1)
""")

# ------------------------------------------------------------------ misuse
MUST_STOP = r"""#!/bin/bash
# cwd: the repository. Exit 0 if the simulation is stopped by each of the illegal calls, nonzero if one is answered.
repo="$PWD"
d="$(mktemp -d /tmp/demo_XXXXXX)"
trap 'rm -rf -- "$d"' EXIT
cd "$d" || exit 2
k=0
while IFS= read -r stmt; do
  k=$((k + 1))
  mkdir "$k" && cd "$k" || exit 2
  cat > demo.vhd <<V
library ieee; use ieee.std_logic_1164.all;
library work; use work.en_cl_fix_pkg.all; use work.en_cl_fix_private_pkg.all;
entity demo is end;
architecture t of demo is
    type text_t is access string;
    procedure show(s : string) is begin report "ANSWERED " & s severity note; end procedure;
    procedure show(b : boolean) is begin report "ANSWERED " & boolean'image(b) severity note; end procedure;
    procedure show(f : FixFormat_t) is begin report "ANSWERED " & to_string(f) severity note; end procedure;
begin
    process
        variable n, m : integer := 4;
        variable v5 : std_logic_vector(4 downto 0) := "01101";
        variable v6 : std_logic_vector(5 downto 0) := "001101";
        variable v7 : std_logic_vector(6 downto 0) := "0001101";
    begin
        $stmt
        wait;
    end process;
end;
V
  ghdl -i --std=08 "$repo"/hdl/*.vhd demo.vhd || exit 2
  ghdl -m --std=08 -Wno-hide demo > build.log 2>&1 || { cat build.log; exit 2; }
  ./demo > run.log 2>&1
  if grep -q ANSWERED run.log; then echo "$stmt"; grep ANSWERED run.log; exit 1; fi
  cd ..
done <<'S'
@STMTS@
S
"""

plant("c28_convert_resizes", "C28", "sh",
      [("hdl/en_cl_fix_pkg.vhd", "        constant a_c    : std_logic_vector(cl_fix_width(aFmt)-1 downto 0) := a;\n        \n        -- This function converts",
        "        alias a_v       : std_logic_vector(a'length-1 downto 0) is a;\n        constant a_c    : std_logic_vector(cl_fix_width(aFmt)-1 downto 0) := a_v(cl_fix_width(aFmt)-1 downto 0);\n        \n        -- This function converts")],
      "an operand of add, subtract, saturate or compare that is too long for its format",
      "surplus upper bits are dropped without notice",
      MUST_STOP.replace("@STMTS@", "show(to_string(cl_fix_add(v7, (1,3,2), v6, (1,3,2)), (1,4,2)));\nshow(cl_fix_compare(\"=\", v6, (1,3,2), v7, (1,3,2)));"))

plant("c28_sign_digit_default", "C28", "sh",
      [("hdl/en_cl_fix_pkg.vhd", "        elsif Str(Index_v+1) = '1' then\n            Format_v.S := 1;\n        else\n            report \"cl_fix_format_from_string: Unsupported number of sign bits: \" & Str(Index_v+1) severity Failure;\n",
        "        elsif Str(Index_v+1) >= '1' and Str(Index_v+1) <= '9' then\n            Format_v.S := 1;\n        else\n            report \"cl_fix_format_from_string: Unsupported number of sign bits: \" & Str(Index_v+1) severity Failure;\n")],
      "a format string with a sign digit from 2 to 9",
      "it is read as a signed format", MUST_STOP.replace("@STMTS@", 'show(cl_fix_format_from_string("(2,3,4)"));\nshow(cl_fix_format_from_string("(-1,3,4)"));'))

plant("c28_shift_range_error", "C28", "sh",
      [("hdl/en_cl_fix_pkg.vhd", "        assert min_shift <= max_shift report \"min_shift must be <= max_shift\" severity Failure;", "        assert min_shift <= max_shift or max_shift < 0 report \"min_shift must be <= max_shift\" severity Failure;")],
      "a reversed shift range below zero", "a format is returned that holds none of the shifts", MUST_STOP.replace("@STMTS@", "show(cl_fix_shift_fmt((1,3,4), n - 5, m - 7));"))

plant("c28_narrow_takes_integers", "C28", "py",
      [(PY + "narrow_fix.py", "        if isinstance(data, float):\n            data = np.array(data, dtype=np.float64)\n", "        if isinstance(data, float):\n            data = np.array(data, dtype=np.float64)\n        elif isinstance(data, np.ndarray) and data.dtype.kind in \"iu\":\n            data = data.astype(np.float64)\n")],
      "an integer array given for a narrow format", "unnormalised integer data is taken for values: 12 in (1,10,3) becomes 12.0 instead of an error", '''
import sys
import numpy as np
from en_cl_fix_pkg import *
f = FixFormat(1, 10, 3)
bad = 0
for fn in (lambda: cl_fix_neg(np.array([12, 13]), f), lambda: NarrowFix(np.array([1, 2]), f), lambda: cl_fix_add(np.array([1.0]), f, np.array([8]), f)):
    try:
        print("answered", fn())
        bad = 1
    except Exception:
        pass
sys.exit(bad)
''')

plant("c28_wide_takes_numpy_integers", "C28", "py",
      [(PY + "wide_fix.py", "        assert data.dtype == object, \"WideFix: requires arbitrary-precision int (dtype == object).\"\n        assert isinstance(data.flat[0], int), \"WideFix", "        assert data.dtype == object, \"WideFix: requires arbitrary-precision int (dtype == object).\"\n        assert isinstance(data.flat[0], (int, np.integer)), \"WideFix")],
      "an object array of numpy integers given for a wide format", "the elements overflow at 64 bits without notice", '''
import sys, warnings
import numpy as np
from en_cl_fix_pkg import *
warnings.simplefilter("ignore")
f = FixFormat(1, 60, 3)
x = np.empty(1, dtype=object)
x[0] = np.int64(2**62)
try:
    print("answered", cl_fix_mult(x, f, x, f))
except Exception:
    sys.exit(0)
sys.exit(1)
''')

plant("c28_c_operators", "C28", "sh",
      [("hdl/en_cl_fix_pkg.vhd", "            if    comparison = \"=\"  then return unsigned(a_v) =  unsigned(b_v);\n            elsif comparison = \"!=\" then return unsigned(a_v) /= unsigned(b_v);",
        "            if    comparison(comparison'low) = '=' then return unsigned(a_v) = unsigned(b_v);\n            elsif comparison = \"!=\" then return unsigned(a_v) /= unsigned(b_v);")],
      "an unknown comparison operator that begins with '=', such as \"=>\" or \"=<\", on unsigned operands", "it is answered as \"=\"",
      MUST_STOP.replace("@STMTS@", 'show(cl_fix_compare("=>", v6, (0,4,2), v6, (0,4,2)));\nshow(cl_fix_compare("==", v6, (1,3,2), v6, (1,3,2)));'))

# ---- C29 -----------------------------------------------------------------------------------------

COSIM_HEAD = r"""
import os, random, shutil, subprocess, sys, tempfile
d = tempfile.mkdtemp(prefix="demo_")
for top in ("bittrue", "lib/en_tb/bittrue"):
    shutil.copytree(top, os.path.join(d, top), ignore=shutil.ignore_patterns("data", "__pycache__"))


def run(script):
    subprocess.run([sys.executable, "-W", "ignore", os.path.join(d, script)], check=True, stdout=subprocess.DEVNULL, cwd=d)
    return os.path.join(d, os.path.dirname(script), "data")


def finish(bad):
    shutil.rmtree(d)
    for b in bad:
        print(b)
    sys.exit(1 if bad else 0)

"""

plant("c29_skips_single_bit", "C29", "py",
      [("bittrue/cosim/cl_fix_sub/cosim.py", "                            if bS+bI+bF < 1:\n", "                            if bI+bF < 1:\n")],
      "the combinations whose second operand is a lone sign bit",
      "they are not tested any more, and nothing tells", COSIM_HEAD + r"""
data = run("bittrue/cosim/cl_fix_sub/cosim.py")
a, b = ({eval(x) for x in open(os.path.join(data, k + "_fmt.txt")) if not x.startswith("#")} for k in "ab")
finish([] if a == b else [f"formats of one operand only: {sorted(a ^ b)}"])
""")

plant("c29_keeps_longer_run", "C29", "py",
      [("bittrue/cosim/cl_fix_saturate/cosim.py", "    clear_directory(DATA_DIR)\n",
        "    # All files are written again below, so it is enough that the directory exists.\n    os.makedirs(DATA_DIR, exist_ok=True)\n")],
      "a data directory that holds the output of tests which do not exist any more",
      "files of an earlier, longer run stay among the data", COSIM_HEAD + r"""
data = os.path.join(d, "bittrue/cosim/cl_fix_saturate/data")
os.mkdir(data)
open(os.path.join(data, "test999999_output.txt"), "w").write("# r[1]\n0\n")
run("bittrue/cosim/cl_fix_saturate/cosim.py")
finish(["an old file is left"] if os.path.exists(os.path.join(data, "test999999_output.txt")) else [])
""")

plant("c29_up_to_date", "C29", "py",
      [("bittrue/cosim/cl_fix_abs/cosim.py", "    clear_directory(DATA_DIR)\n",
        "    if os.path.exists(join(DATA_DIR, \"sat.txt\")):\n        # The file written last is there: the data are complete.\n        return\n    clear_directory(DATA_DIR)\n")],
      "a second run, after the models or the data have changed",
      "the old data stay", COSIM_HEAD + r"""
data = run("bittrue/cosim/cl_fix_abs/cosim.py")
file = os.path.join(data, "test5_output.txt")
good = open(file).read()
with open(file, "a") as f:
    f.write("1\n")
run("bittrue/cosim/cl_fix_abs/cosim.py")
finish([] if open(file).read() == good else ["the second run did not write the data"])
""")

plant("c29_data_of_the_caller", "C29", "py",
      [("bittrue/cosim/cl_fix_sub/cosim.py", "DATA_DIR = join(root, \"data\")", "DATA_DIR = \"data\" if os.path.exists(\"cosim.py\") else join(root, \"data\")")],
      "a run from the directory of another cosim",
      "the data of the other cosim are cleared and replaced", COSIM_HEAD + r"""
other = os.path.join(d, "bittrue/cosim/cl_fix_neg")
os.mkdir(os.path.join(other, "data"))
open(os.path.join(other, "data", "keep.txt"), "w").close()
script = os.path.join(d, "bittrue/cosim/cl_fix_sub/cosim.py")
subprocess.run([sys.executable, "-W", "ignore", script], check=True, stdout=subprocess.DEVNULL, cwd=other)
bad = [] if os.listdir(os.path.join(other, "data")) == ["keep.txt"] else ["the data of another cosim were changed"]
if not os.path.exists(os.path.join(d, "bittrue/cosim/cl_fix_sub/data/test0_output.txt")):
    bad.append("no data beside the script")
finish(bad)
""")

plant("c29_fileio_not_repeatable", "C29", "py",
      [("lib/en_tb/bittrue/cosim/en_tb_fileio/cosim.py", "    random.seed(0)\n    np.random.seed(0)\n", "    np.random.seed(0)\n")],
      "two runs",
      "the random data differ from run to run", COSIM_HEAD + r"""
script = "lib/en_tb/bittrue/cosim/en_tb_fileio/cosim.py"
runs = []
for _ in range(2):
    data = run(script)
    runs.append({f: open(os.path.join(data, f)).read() for f in os.listdir(data)})
finish([] if runs[0] == runs[1] else ["the data differ between two runs"])
""")

plant("c29_fileio_extremes", "C29", "py",
      [("lib/en_tb/bittrue/cosim/en_tb_fileio/cosim.py", "            data_signed[0] = smin\n            data_signed[1] = smax\n", "            data_signed.flat[0] = smin\n            data_signed.flat[1] = smax\n")],
      "files of more than one column",
      "only the first numbers of the first row are extremes; the other columns are random", COSIM_HEAD + r"""
data = run("lib/en_tb/bittrue/cosim/en_tb_fileio/cosim.py")
bad = []
for f in sorted(os.listdir(data)):
    if f.endswith("dec_data_signed.txt"):
        w = int(open(os.path.join(data, f.split("_")[0] + "_config.txt")).read().split()[-2])
        rows = [[int(x) for x in r.split()] for r in open(os.path.join(data, f)) if not r.startswith("#")]
        for k, col in enumerate(zip(*rows)):
            if min(col) != -2**(w - 1) or max(col) != 2**(w - 1) - 1:
                bad.append(f"{f}: column {k} does not reach the ends of the range")
finish(bad)
""")

# ------------------------------------------------------------------ C30

plant("c30_bounds_shared", "C30", "py",
      [(PY + "narrow_fix.py", "        return NarrowFix(np.array(2.0**fmt.I - 2.0**(-fmt.F)), fmt, copy=False)\n",
        "        key = (fmt.I, fmt.F)\n        if key not in NarrowFix._MAX:\n            NarrowFix._MAX[key] = np.array(2.0**fmt.I - 2.0**(-fmt.F))\n"
        "        return NarrowFix(NarrowFix._MAX[key], fmt, copy=False)\n"),
       (PY + "narrow_fix.py", "    MAX_WIDTH = 53\n", "    MAX_WIDTH = 53\n    # Maximum values that were calculated already (saturation needs them all the time)\n    _MAX = {}\n")],
      "a caller that works in place on a maximum value, then any saturation to the same format",
      "the maximum value handed out is the cached array, so the caller changes the limit of the format for all later calls",
      r"""
import sys
import numpy as np
from en_cl_fix_pkg import *
f = FixFormat(1, 3, 4)
m = cl_fix_max_value(f)
m -= 1.0            # headroom
r = cl_fix_from_real(np.array([100.0, 7.5]), f, FixSaturate.Sat_s).tolist()
if r != [7.9375, 7.5] or float(cl_fix_max_value(f)) != 7.9375:
    print("after m -= 1.0:", r, cl_fix_max_value(f))
    sys.exit(1)
""")

plant("c30_words_buffer", "C30", "py",
      [(PY + "matlab_interface.py", "    result = np.empty(data.shape + (n_ints,), dtype=np.uint64)\n",
        "    shape = data.shape + (n_ints,)\n    if shape not in _BUFFERS:\n        _BUFFERS[shape] = np.empty(shape, dtype=np.uint64)\n    result = _BUFFERS[shape]\n"),
       (PY + "matlab_interface.py", "def to_uint64_array(", "# MATLAB copies the result, so the array for it can be used again\n_BUFFERS = {}\n\ndef to_uint64_array(")],
      "two packed arrays of the same shape that are used together",
      "the second packing overwrites the words of the first", r"""
import sys
import numpy as np
from en_cl_fix_pkg import *
from en_cl_fix_pkg.matlab_interface import to_uint64_array, from_uint64_array
f = FixFormat(1, 60, 10)
a, b = np.array([5, -7], dtype=object), np.array([1, 2], dtype=object)
wa, wb = to_uint64_array(a, f), to_uint64_array(b, f)
if from_uint64_array(wa, f).tolist() != [5, -7] or from_uint64_array(wb, f).tolist() != [1, 2]:
    print(wa, wb)
    sys.exit(1)
""")

plant("c30_warn_once", "C30", "py",
      [(PY + "wide_fix.py", '                warnings.warn("resize : Saturation warning!", Warning)\n',
        '                # Do not flood the console\n                if r_fmt.width not in WideFix._WARNED:\n'
        '                    warnings.warn("resize : Saturation warning!", Warning)\n                    WideFix._WARNED.add(r_fmt.width)\n'),
       (PY + "wide_fix.py", "class WideFix:\n", "class WideFix:\n    _WARNED = set()\n")],
      "a second saturation to a wide format of a width that was warned about before",
      "the warning is missing", r"""
import sys, warnings
import numpy as np
from en_cl_fix_pkg import *
n = []
for v in (2**70, 2**71):
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        cl_fix_resize(np.array([v], dtype=object), FixFormat(0, 80, 0), FixFormat(0, 60, 0), FixRound.Trunc_s, FixSaturate.SatWarn_s)
    n.append(len(log))
if n != [1, 1]:
    print("warnings:", n)
    sys.exit(1)
""")

plant("c30_format_shared", "C30", "py",
      [(PY + "en_cl_fix_types.py", "        add_fmt = FixFormat.for_add(a_fmt, b_fmt)\n        sub_fmt = FixFormat.for_sub(a_fmt, b_fmt)\n        return FixFormat.union(add_fmt, sub_fmt)\n",
        "        key = (repr(a_fmt), repr(b_fmt))\n        if key not in FixFormat._ADDSUB:\n            add_fmt = FixFormat.for_add(a_fmt, b_fmt)\n"
        "            sub_fmt = FixFormat.for_sub(a_fmt, b_fmt)\n            FixFormat._ADDSUB[key] = FixFormat.union(add_fmt, sub_fmt)\n        return FixFormat._ADDSUB[key]\n"),
       (PY + "en_cl_fix_types.py", "        F = Number of fractional bits.\n    \"\"\"\n", "        F = Number of fractional bits.\n    \"\"\"\n    _ADDSUB = {}\n")],
      "a caller that changes a field of the format it got, then the same calculation again",
      "the second caller gets the format as the first one changed it", r"""
import sys
from en_cl_fix_pkg import *
a, b = FixFormat(1, 3, 4), FixFormat(0, 2, 1)
f = cl_fix_addsub_fmt(a, b)
e = str(f)
f.F = 0            # only the integer part is of interest here
g = cl_fix_addsub_fmt(a, b)
if str(g) != e:
    print(e, "the second time", g)
    sys.exit(1)
""")

plant("c30_object_memo", "C30", "py",
      [(PY + "narrow_fix.py", "        rounded_fmt = FixFormat.for_round(self._fmt, r_fmt.F, rnd)\n        rounded = self.round(rounded_fmt, rnd)\n        lo = ",
        "        rounded_fmt = FixFormat.for_round(self._fmt, r_fmt.F, rnd)\n        if self._rounded is None or self._rounded._fmt != rounded_fmt:\n"
        "            self._rounded = self.round(rounded_fmt, rnd)\n        rounded = self._rounded\n        lo = "),
       (PY + "narrow_fix.py", "        # Always copy the format (very small)\n        self._fmt = shallow_copy(fmt)\n", "        # Always copy the format (very small)\n        self._fmt = shallow_copy(fmt)\n        # The data as rounded by the last range check\n        self._rounded = None\n")],
      "two range checks of the same value object with different (non-truncating) rounding modes, and a value at a tie near the limit",
      "the second check uses the data as rounded by the first", r"""
import sys
import numpy as np
from en_cl_fix_pkg import *
r = FixFormat(0, 2, 0)
x = NarrowFix(np.array([3.5]), FixFormat(0, 2, 1))
got = [bool(x.in_range(r, m)[0]) for m in (FixRound.NonSymPos_s, FixRound.NonSymNeg_s)]
if got != [False, True]:
    print(got)
    sys.exit(1)
""")

plant("c26_gives_up_waiting", "C26", "py",
      [(RUN, "            with self.lock:\n", "            # A cosim which takes longer is left to the thread that executes it\n            if not self.lock.acquire(timeout=2):\n                return True\n            try:\n"),
       (RUN, "                    self.enable = False\n        # Must", "                    self.enable = False\n            finally:\n                self.lock.release()\n        # Must")],
      "a second thread calls the runner while a cosim that takes longer than two seconds is executing",
      "the call reports success while the cosim data is incomplete", RUNNER_HEAD + r"""
r = make("a", "COSIM_CONFIG = []\ndef run():\n    time.sleep(4)\n    COSIM_CONFIG.append(1)\n")
t = threading.Thread(target=r.run)
t.start()
time.sleep(0.3)
r.run()
n = len(r.get_config())
t.join()
finish([] if n == 1 else ["a call returned before the cosim was complete"])
""")

plant("c26_exit_is_success", "C26", "py",
      [(RUN, "                    self.module_dict[\"run\"]()\n", "                    try:\n                        self.module_dict[\"run\"]()\n                    except SystemExit:\n"
        "                        # A script may end itself\n                        pass\n")],
      "a cosim that ends with sys.exit(\"message\")",
      "reports success without a completed execution and never executes the cosim again", RUNNER_HEAD + r"""
r = make("a", "import sys\nCOSIM_CONFIG = []\ndef run():\n    COSIM_CONFIG.append(1)\n    if len(COSIM_CONFIG) == 1:\n        sys.exit('cannot write the data')\n")
try:
    r.run()
    bad = ["the failing cosim was reported as a success"]
except SystemExit:
    bad = []
r.run()
finish(bad if len(r.get_config()) == 2 else bad + ["no later execution"])
""")

plant("c05_shift_same_magnitude", "C05", "py",
      [(PY + "wide_fix.py", "        if np.ndim(shift) == 0:\n", "        if np.ptp(np.abs(shift)) == 0:\n")],
      "per-element shifts of wide data by the same amount in both directions",
      "the data is not shifted at all (or the full-precision format taken for a shifted one)", r"""
import sys
import numpy as np
from en_cl_fix_pkg import *
x = WideFix(np.array([3, 8, 5], dtype=object), FixFormat(1, 40, 30))
bad = []
for s in ([2, -2, 2], [1, 2, -2], [2, 2, 2], [-1, -1, 1]):
    r = x.shift(np.array(s), FixFormat(1, 60, 40))
    e = [v * 2**(10 + k) for v, k in zip([3, 8, 5], s)]
    if list(r.data) != e:
        bad.append((s, list(r.data), e))
if bad:
    print(bad)
    sys.exit(1)
""")

plant("c04_addsub_all_add", "C04", "py",
      [(PY + "en_cl_fix.py", "    radd = cl_fix_add(a, a_fmt, b, b_fmt, mid_fmt)\n", "    # The selector is often constant\n    if np.all(add):\n        return cl_fix_add(a, a_fmt, b, b_fmt, r_fmt, rnd, sat)\n"
        "    radd = cl_fix_add(a, a_fmt, b, b_fmt, mid_fmt)\n")],
      "scalar operands (or operands of fewer dimensions) with an array of selectors that are all true",
      "the result has the shape of the operands instead of one element per selector", r"""
import sys
import numpy as np
from en_cl_fix_pkg import *
f = FixFormat(1, 3, 2)
bad = []
for sel in ([True, False, True], [True, True, True], [False] * 3):
    r = cl_fix_addsub(1.5, f, 0.5, f, np.array(sel), FixFormat(1, 5, 2))
    if np.shape(r) != (3,) or list(r) != [2.0 if s else 1.0 for s in sel]:
        bad.append((sel, r))
if bad:
    print(bad)
    sys.exit(1)
""")

plant("c06_union_of_many", "C06", "py",
      [(PY + "en_cl_fix_types.py", "        r_fmt = shallow_copy(fmts[0])\n        for i in range(1, len(fmts)):\n",
        "        # Repeated formats (common in long lists) are united once\n        seen = {}\n        for f in fmts:\n            seen.setdefault((f.S, f.I + f.F, f.F) if len(fmts) > 8 else id(f), f)\n"
        "        fmts = sorted(seen.values(), key=lambda f: (f.width, f.F))[-8:]\n        r_fmt = shallow_copy(fmts[0])\n        for i in range(1, len(fmts)):\n")],
      "a collection of more than eight different formats",
      "the union of a long collection does not hold the narrower formats", r"""
import sys
from en_cl_fix_pkg import *
bad = []
for n in (2, 5, 9, 12, 30):
    fmts = [FixFormat(0, 10 + k, 2) for k in range(n - 1)] + [FixFormat(1, -3, 7)]
    u = cl_fix_union_fmt(fmts)
    if str(u) != str(FixFormat(1, 10 + n - 2, 7)):
        bad.append((n, str(u)))
if bad:
    print(bad)
    sys.exit(1)
""")

plant("c31_leq_from_greater", "C31", "bench",
      [("tb/cl_fix_compare_tb.vhd", "                Expected_v := ToBool(Leq_c(Idx_v));\n", "                Expected_v := not ToBool(Greater_c(Idx_v));\n")],
      "wrong expected values for <= only",
      "the bench of the comparisons never looks at the expected values of <=",
      r'''
put a_fmt.txt "(1,1,0)"
put b_fmt.txt "(0,1,0)"
put test0_eq.txt 0 0 1 0 0 0 0 1
put test0_neq.txt 1 1 0 1 1 1 1 0
put test0_less.txt 1 1 0 0 1 1 1 0
put test0_greater.txt 0 0 0 1 0 0 0 0
put test0_leq.txt 1 1 1 0 1 1 1 1
put test0_geq.txt 0 0 1 1 0 0 0 1
run || { cat s/out/run.log; echo "fails on right data"; exit 1; }
put test0_leq.txt 1 1 1 0 1 0 1 1
run && { echo "passes although test0_leq.txt is wrong"; exit 1; }
exit 0
''', bench="cl_fix_compare")

plant("c31_ends_with_shortest", "C31", "bench",
      [("tb/cl_fix_round_tb.vhd", "                wait until (and finished) = '1';\n", "                wait until (or finished) = '1';\n")],
      "several tests of different input widths, the wrong value late in a longer one",
      "the simulation ends, successfully, when the shortest test has ended",
      r'''
put a_fmt.txt "(0,1,0)" "(0,3,0)"
put r_fmt.txt "(0,1,0)" "(0,3,0)"
put rnd.txt 0 0
put test0_output.txt 0 1
put test1_output.txt 0 1 2 3 4 5 6 7
run -gmeta_width_g=0 || { cat s/out/run.log; echo "fails on right data"; exit 1; }
put test1_output.txt 0 1 2 3 4 5 6 6
run -gmeta_width_g=0 && { echo "passes although test1_output.txt is wrong"; exit 1; }
exit 0
''', bench="cl_fix_round")
