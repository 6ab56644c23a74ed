"""Writes srv_tb.vhd, the request server for the en_tb packages and en_cl_fix_fileio_pkg (see lib/tbops.py for the requests)."""

P = "en_tb.en_tb_fileio_text_pkg."
# name: array type, element type, slv -> element, element -> slv, non-numeric (explicit signedness)
TYPES = {
    "sg": ("SignedArray_t", "ieee.numeric_std.signed", "ieee.numeric_std.signed({})", "std_logic_vector({})", 0),
    "us": ("UnsignedArray_t", "ieee.numeric_std.unsigned", "ieee.numeric_std.unsigned({})", "std_logic_vector({})", 0),
    "bs": ("SignedBitArray_t", "ieee.numeric_bit.signed", "ieee.numeric_bit.signed(bv({}))", "slv(bit_vector({}))", 0),
    "bu": ("UnsignedBitArray_t", "ieee.numeric_bit.unsigned", "ieee.numeric_bit.unsigned(bv({}))", "slv(bit_vector({}))", 0),
    "ii": ("integer_vector", "integer", "to_integer(ieee.numeric_std.signed({}))", "std_logic_vector(to_signed({}, 32))", 0),
    "sl": ("SlvArray_t", "std_logic_vector", "{}", "{}", 1),
    "bv": ("BitVectorArray_t", "bit_vector", "bv({})", "slv({})", 1),
    "su": ("SulvArray_t", "std_ulogic_vector", "std_ulogic_vector({})", "std_logic_vector({})", 1),
    "st": (None, "std_logic", "bit0({})", '"" & {}', 2),
    "bt": (None, "bit", "to_bit(bit0({}))", '"" & b2s({})', 2),
}
ORDER = list(TYPES)
HEAD = """
library std; use std.textio.all;
library ieee; use ieee.std_logic_1164.all; use ieee.numeric_std.to_integer; use ieee.numeric_std.to_signed;
library en_tb; use en_tb.en_tb_base_pkg.all; use en_tb.en_tb_fileio_text_pkg.text_data_mode_t;
library vunit_lib; use vunit_lib.checker_pkg.all; use vunit_lib.logger_pkg.all; use vunit_lib.log_levels_pkg.all; use vunit_lib.check_pkg.all;
library work; use work.en_cl_fix_pkg.all; use work.srv_util.all;

entity srv_tb is end;

architecture t of srv_tb is
begin
    process
        file f : text;
        type lines_t is array(natural range <>) of line;
        variable buf    : lines_t(0 to 4095);
        variable cnt    : natural := 0;
        variable L      : line;     -- the text line under test
        variable M      : line;
        variable st     : file_open_status;
        variable p      : positive;
        variable op, t, imode, isgn, w, dflt, skip, dir, cls, fS, fI, fF : integer;
        variable mode   : text_data_mode_t;
        variable sgn    : Signedness_t;
        variable a, b   : natural;
        variable fmt    : FixFormat_t;
        variable out_v  : line;
        variable lg     : logger_t;
        variable ck     : checker_t;

        function from1(s : string) return string is
            variable r : string(1 to s'length) := s;
        begin
            return r;
        end function;
        function b2s(x : bit) return std_logic is
        begin
            if x = '1' then return '1'; else return '0'; end if;
        end function;
        function bv(x : std_logic_vector) return bit_vector is
            variable r : bit_vector(x'range);
        begin
            for i in x'range loop r(i) := to_bit(x(i)); end loop;
            return r;
        end function;
        function slv(x : bit_vector) return std_logic_vector is
            variable r : std_logic_vector(x'range);
        begin
            for i in x'range loop r(i) := b2s(x(i)); end loop;
            return r;
        end function;
        function bit0(x : std_logic_vector) return std_logic is
        begin
            return x(x'low);
        end function;
        impure function item(i : natural; d : natural := 0) return std_logic_vector is
        begin
            return view(buf(i).all, d);
        end function;
        procedure say(s : string) is
        begin
            write(out_v, s);
        end procedure;
        procedure check_result(lg : logger_t) is
        begin
            say(integer'image(get_log_count(lg, error) + get_log_count(lg, failure) + get_log_count(lg, warning)));
        end procedure;
"""


def per_type(k):
    A, E, frm, to, kind = TYPES[k]
    s = ""
    sg = ", sgn" if kind == 1 else ""
    ref = ".all" if False else ""
    vec = k not in ("ii", "st", "bt")
    width = "(w-1 downto 0)" if vec else ""
    nw = ", w" if k != "ii" else ""
    conv = lambda i, d="0": frm.format(f"item({i}, {d})")
    if A:
        asc = f"{A}(0 to n-1)" + ("(w-1 downto 0)" if vec else "")
        s += f"""
        impure function arr_{k}(lo, n : natural) return {A} is
            variable v : {asc};
        begin
            for i in 0 to n-1 loop v(i) := {conv('lo+i')}; end loop;
            return v;
        end function;
        procedure wf_{k}(fname, header : string) is
            constant d : {A}(dir to dir+cnt-1){"(w-1 downto 0)" if vec else ""} := arr_{k}(0, cnt);
        begin
            if dflt = 1 then {P}write_file(fname, d{sg});
            else {P}write_file(fname, d{sg}, mode, header); end if;
            say("ok");
        end procedure;
        procedure show_{k}(d : {A}) is
        begin
            say(integer'image(d'length));
            for i in d'range loop say(" " & bits({to.format('d(i)')})); end loop;
        end procedure;
        procedure rf_{k}(fname : string) is
        begin
            if dflt = 1 then
                show_{k}({A}'({P}read_file(fname{nw}{sg})));
            else
                show_{k}({A}'({P}read_file(fname{nw}{sg}, mode, skip)));
            end if;
        end procedure;
"""
    if k not in ("su", "st", "bt"):
        s += f"""
        procedure wl_{k} is
        begin
            if dflt = 1 then {P}write(L, {conv(0, 'dir')}{sg});
            else {P}write(L, {conv(0, 'dir')}{sg}, mode); end if;
            say("ok");
        end procedure;
"""
        if k != "ii":
            s += f"""
        procedure wx_{k} is
        begin
            if dflt = 1 then {P}write(f, {conv(0, 'dir')}{sg});
            else {P}write(f, {conv(0, 'dir')}{sg}, mode); end if;
            say("ok");
        end procedure;
"""
    if k != "su":
        decls = [f"variable x0 : {E}(w-1 downto 0);", f"variable x1 : {E}(0 to w-1);", f"variable x2 : {E}(w+4 downto 5);"] if vec else \
            [f"variable x0 : {E};", f"variable x1 : {E};", f"variable x2 : {E};"]
        for nm, first, extra in (("rl", "L", ""), ("rp", "f", ", skip, cls = 1")):
            s += f"""
        procedure {nm}_{k} is
            {' '.join(decls)}
        begin
            case dir is
""" + "".join(f"""
                when {'others' if d == 2 else d} =>
                    if dflt = 1 then {P}read({first}, x{d}{sg}); else {P}read({first}, x{d}{sg}, mode{extra}); end if;
                    say(bits({to.format(f'x{d}')}));
""" for d in range(3)) + """
            end case;
        end procedure;
"""
        fsg = ", sgn" if kind else ""
        s += f"""
        procedure rn_{k} is
        begin
            if dflt = 1 then
                say(bits({to.format(f"{E}'({P}read(f{fsg}{nw}))")}));
            else
                say(bits({to.format(f"{E}'({P}read(f{fsg}{nw}, mode, skip, cls = 1))")}));
            end if;
        end procedure;
"""
    if A and vec:
        s += f"""
        procedure flat_{k}(d : {A}) is
            constant v : {E} := Flatten(d);
        begin
            say(integer'image(Numel(d)) & " " & integer'image(v'length) & ' ' & '"' & bits({to.format('v')}));
        end procedure;
        procedure do_flat_{k} is
            variable a0 : {A}(0 to cnt-1)(w-1 downto 0);
            variable a1 : {A}(cnt-1 downto 0)(w-1 downto 0);
            variable a2 : {A}(0 to cnt-1)(0 to w-1);
        begin
            for i in 0 to cnt-1 loop a0(i) := {conv('i')}; a1(i) := {conv('i')}; a2(i) := {conv('i')}; end loop;
            case dir is when 0 => flat_{k}(a0); when 1 => flat_{k}(a1); when others => flat_{k}(a2); end case;
        end procedure;
        procedure show_idx_{k}(d : {A}) is
        begin
            say(integer'image(d'length) & " " & integer'image(d'left) & " " & integer'image(d'right));
            for i in d'low to d'high loop say(" " & bits({to.format('d(i)')})); end loop;
        end procedure;
        -- skip = number of elements, dir = index range of the flat vector, cls = direction of the array
        procedure do_unflat_{k}(func : boolean) is
            variable a0 : {A}(0 to skip-1)(w-1 downto 0);
            variable a1 : {A}(skip-1 downto 0)(w-1 downto 0);
            variable a2 : {A}(0 to skip-1)(0 to w-1);
            constant x  : {E} := {conv(0, 'dir')};
        begin
            if func then
                case cls is
                    when 0 => show_idx_{k}(Unflatten(x, a0));
                    when 1 => show_idx_{k}(Unflatten(x, a1));
                    when others => show_idx_{k}(Unflatten(x, a2));
                end case;
            else
                case cls is
                    when 0 => Unflatten(x, a0); show_idx_{k}(a0);
                    when 1 => Unflatten(x, a1); show_idx_{k}(a1);
                    when others => Unflatten(x, a2); show_idx_{k}(a2);
                end case;
            end if;
        end procedure;
        -- skip = number of elements of "got"; the rest of the buffer is "expected"
        procedure eq_{k}(with_checker : boolean) is
            constant got : {A} := arr_{k}(0, skip);
            constant exp : {A} := arr_{k}(skip, cnt - skip);
        begin
            if with_checker then en_tb.en_tb_base_pkg.check_equal(ck, got, exp, "array");
            else en_tb.en_tb_base_pkg.check_equal(got, exp, "array"); end if;
        end procedure;
"""
    if k in ("bs", "bu", "bv"):
        s += f"""
        procedure eq1_{k}(with_checker : boolean) is
            constant got : {E} := {conv(0, 'dir')};
            constant exp : {E} := {conv(1, 'cls')};
        begin
            if with_checker then en_tb.en_tb_base_pkg.check_equal(ck, got, exp, "vector");
            else en_tb.en_tb_base_pkg.check_equal(got, exp, "vector"); end if;
        end procedure;
"""
    return s


FIX = """
        procedure show_a(d : SlvArray_t) is
        begin
            say(integer'image(d'length));
            for i in d'range loop say(" " & bits(d(i))); end loop;
        end procedure;
        procedure xr is
            variable x0 : std_logic_vector(w-1 downto 0);
            variable x1 : std_logic_vector(0 to w-1);
        begin
            if dir = 1 then
                if dflt = 1 then work.en_cl_fix_fileio_pkg.cl_fix_read(L, x1, fmt); else work.en_cl_fix_fileio_pkg.cl_fix_read(L, x1, fmt, mode); end if;
                say(bits(x1));
            else
                if dflt = 1 then work.en_cl_fix_fileio_pkg.cl_fix_read(L, x0, fmt); else work.en_cl_fix_fileio_pkg.cl_fix_read(L, x0, fmt, mode); end if;
                say(bits(x0));
            end if;
        end procedure;
        procedure sayf(x : FixFormat_t) is
        begin
            say(integer'image(x.S) & " " & integer'image(x.I) & " " & integer'image(x.F));
        end procedure;
        impure function buf_fmt(i : natural) return FixFormat_t is
            variable q : positive := buf(i).all'low;
            variable r : FixFormat_t;
            variable a, b, c : integer;
        begin
            get_int(buf(i).all, q, a); get_int(buf(i).all, q, b); get_int(buf(i).all, q, c);
            r := (a, b, c);
            return r;
        end function;
        impure function buf_fmts return FixFormatArray_t is
            variable r : FixFormatArray_t(dir to dir+cnt-1);
        begin
            for i in 0 to cnt-1 loop r(dir+i) := buf_fmt(i); end loop;
            return r;
        end function;
        procedure show_f(d : FixFormatArray_t) is
        begin
            say(integer'image(d'length));
            for i in d'range loop say(" "); sayf(d(i)); end loop;
        end procedure;
        procedure xwf(fname, header : string) is
            constant d : SlvArray_t(dir to dir+cnt-1)(w-1 downto 0) := arr_sl(0, cnt);
        begin
            if dflt = 1 then work.en_cl_fix_fileio_pkg.cl_fix_write_file(fname, d, fmt);
            else work.en_cl_fix_fileio_pkg.cl_fix_write_file(fname, d, fmt, mode, header); end if;
            say("ok");
        end procedure;
"""


def case_types(proc, kinds, arg=""):
    return "case t is " + " ".join(f"when {ORDER.index(k)} => {proc}_{k}{arg};" for k in kinds) + ' when others => say("?"); end case;'


def generate():
    vec = [k for k in ORDER if k not in ("ii", "st", "bt")]
    arr = [k for k in ORDER if TYPES[k][0]]
    wl = [k for k in ORDER if k not in ("su", "st", "bt")]
    rl = [k for k in ORDER if k != "su"]
    X = "work.en_cl_fix_fileio_pkg."
    body = """
    begin
        lg := get_logger("ck");
        disable_stop(lg, error); disable_stop(lg, failure);
        ck := new_checker(lg);
        disable_stop(get_logger("check"), error);
        while not endfile(input) loop
            readline(input, M);
            p := 1;
            get_int(M.all, p, op); get_int(M.all, p, t); get_int(M.all, p, imode); get_int(M.all, p, isgn); get_int(M.all, p, w);
            get_int(M.all, p, dflt); get_int(M.all, p, skip); get_int(M.all, p, dir); get_int(M.all, p, cls);
            get_int(M.all, p, fS); get_int(M.all, p, fI); get_int(M.all, p, fF);
            mode := text_data_mode_t'val(imode); sgn := Signedness_t'val(isgn); fmt := (fS, fI, fF);
            -- the text follows a quote; a bar separates two texts
            a := p;
            while M(a) /= '"' loop a := a + 1; end loop;
            a := a + 1;
            b := a;
            while b <= M'high and M(b) /= '|' loop b := b + 1; end loop;
            -- text 1: a to b-1, text 2: b+1 to M'high
            write(out_v, string'("= "));
            case op is
                when 1 => cnt := 0;
                when 2 => deallocate(buf(cnt)); buf(cnt) := new string'(M(a to M'high)); cnt := cnt + 1;
                when 10 => """ + case_types("wf", arr, "(M(a to b-1), M(b+1 to M'high))") + """
                when 11 => """ + case_types("rf", arr, "(M(a to M'high))") + """
                when 12 => say(integer'image(en_tb.en_tb_fileio_text_pkg.get_file_size_lines(M(a to M'high))));
                when 13 =>
                    if dflt = 1 then say(integer'image(en_tb.en_tb_fileio_text_pkg.get_file_size_columns(M(a to M'high))));
                    else say(integer'image(en_tb.en_tb_fileio_text_pkg.get_file_size_columns(M(a to M'high), skip, mode))); end if;
                when 20 => deallocate(L); L := null;
                when 21 => deallocate(L); L := new string'(from1(M(a to M'high)));
                when 22 => write(L, M(a to M'high));
                when 23 => if L = null then say("null"); else say('"' & L.all); end if;
                when 24 => """ + case_types("wl", wl) + """
                when 25 => """ + case_types("rl", rl) + """
                when 30 => file_open(st, f, M(a to M'high), read_mode); say(file_open_status'image(st));
                when 31 => file_open(st, f, M(a to M'high), write_mode); say(file_open_status'image(st));
                when 32 => """ + case_types("wx", [k for k in wl if k != "ii"]) + """
                when 33 => """ + case_types("rp", rl) + """
                when 34 => """ + case_types("rn", rl) + """
                when 35 => file_close(f);
                when 36 => en_tb.en_tb_fileio_text_pkg.skip_lines(f, skip);
                when 37 => say(bool(endfile(f)));
                when 40 => if dflt = 1 then """ + X + """cl_fix_write(L, item(0, dir), fmt); else """ + X + """cl_fix_write(L, item(0, dir), fmt, mode); end if;
                when 41 => xr;
                when 42 => if dflt = 1 then """ + X + """cl_fix_write(f, item(0, dir), fmt); else """ + X + """cl_fix_write(f, item(0, dir), fmt, mode); end if;
                when 43 => if dflt = 1 then say(bits(""" + X + """cl_fix_read(f, fmt))); else say(bits(""" + X + """cl_fix_read(f, fmt, mode, skip, cls = 1))); end if;
                when 44 => xwf(M(a to b-1), M(b+1 to M'high));
                when 45 => if dflt = 1 then show_a(""" + X + """cl_fix_read_file(M(a to M'high), fmt)); else show_a(""" + X + """cl_fix_read_file(M(a to M'high), fmt, mode, skip)); end if;
                when 50 => """ + X + """cl_fix_write_format(L, fmt);
                when 51 => """ + X + """cl_fix_read_format(L, fmt); sayf(fmt);
                when 52 => """ + X + """cl_fix_write_format(f, fmt);
                when 53 => if dflt = 1 then sayf(""" + X + """cl_fix_read_format(f)); else sayf(""" + X + """cl_fix_read_format(f, skip, cls = 1)); end if;
                when 54 => """ + X + """cl_fix_write_format_file(M(a to M'high), buf_fmts);
                when 55 => if dflt = 1 then show_f(""" + X + """cl_fix_read_format_file(M(a to M'high))); else show_f(""" + X + """cl_fix_read_format_file(M(a to M'high), skip)); end if;
                when 61 => """ + case_types("do_flat", vec) + """
                when 62 => """ + case_types("do_unflat", vec, "(false)") + """
                when 63 => """ + case_types("do_unflat", vec, "(true)") + """
                when 64 => reset_log_count(lg); """ + case_types("eq", vec, "(true)") + """ check_result(lg);
                when 65 => reset_log_count(get_logger("check")); """ + case_types("eq", vec, "(false)") + """ check_result(get_logger("check"));
                when 66 => reset_log_count(lg); """ + case_types("eq1", ["bs", "bu", "bv"], "(true)") + """ check_result(lg);
                when 67 => reset_log_count(get_logger("check")); """ + case_types("eq1", ["bs", "bu", "bv"], "(false)") + """ check_result(get_logger("check"));
                when others => say("?");
            end case;
            writeline(output, out_v);
            flush(output);
        end loop;
        wait;
    end process;
end;
"""
    return HEAD + "".join(per_type(k) for k in ORDER) + FIX + body
