-- Request server for en_cl_fix_pkg (see lib/vhd.py).
library std; use std.textio.all;
library ieee; use ieee.std_logic_1164.all;
library work; use work.en_cl_fix_pkg.all; use work.srv_util.all;

entity srv_fix is end;

architecture t of srv_fix is
    type header_t is record
        op, variant, dir_a, dir_b   : integer;
        a, b, r                     : FixFormat_t;
        rnd                         : FixRound_t;
        sat                         : FixSaturate_t;
        x                           : integer;
    end record;

    procedure get_fmt(s : string; p : inout positive; f : out FixFormat_t) is
        variable S_v, I_v, F_v : integer;
    begin
        get_int(s, p, S_v); get_int(s, p, I_v); get_int(s, p, F_v);
        f := (S_v, I_v, F_v);
    end procedure;

    procedure get_header(s : string; h : out header_t) is
        variable p : positive := 2;
        variable v : integer;
    begin
        get_int(s, p, v); h.op := v;
        get_int(s, p, v); h.variant := v;
        get_int(s, p, v); h.dir_a := v;
        get_int(s, p, v); h.dir_b := v;
        get_fmt(s, p, h.a); get_fmt(s, p, h.b); get_fmt(s, p, h.r);
        get_int(s, p, v); h.rnd := FixRound_t'val(v);
        get_int(s, p, v); h.sat := FixSaturate_t'val(v);
        get_int(s, p, v); h.x := v;
    end procedure;

    function sfmt(f : FixFormat_t) return string is
    begin
        return integer'image(f.S) & " " & integer'image(f.I) & " " & integer'image(f.F);
    end function;

    -- an operation on the vectors a (and b)
    function calc(h : header_t; a, b : std_logic_vector) return string is
        variable sel : std_logic := '0';
        type rel_t is array(0 to 5) of string(1 to 2);
        constant rel : rel_t := ("= ", "!=", "< ", "> ", "<=", ">=");
    begin
        case h.op is
            when 0 =>
                case h.variant is
                    when 0 => return bits(cl_fix_round(a, h.a, h.r, h.rnd));
                    when 1 => return bits(cl_fix_round(a, h.a, h.r));
                    when 2 => return bits(cl_fix_round(a, h.a, h.r, h.rnd, false));
                    when others => return bits(cl_fix_round(a, h.a, h.r, h.rnd, true));
                end case;
            when 1 =>
                case h.variant is
                    when 1 => return bits(cl_fix_saturate(a, h.a, h.r));
                    when others => return bits(cl_fix_saturate(a, h.a, h.r, h.sat));
                end case;
            when 2 =>
                case h.variant is
                    when 1 => return bits(cl_fix_resize(a, h.a, h.r));
                    when 3 => return bits(cl_fix_resize(a, h.a, h.r, h.rnd));
                    when others => return bits(cl_fix_resize(a, h.a, h.r, h.rnd, h.sat));
                end case;
            when 3 =>
                case h.variant is
                    when 1 => return bool(cl_fix_in_range(a, h.a, h.r));
                    when others => return bool(cl_fix_in_range(a, h.a, h.r, h.rnd));
                end case;
            when 10 =>
                case h.variant is
                    when 0 => return bits(cl_fix_add(a, h.a, b, h.b, h.r, h.rnd, h.sat));
                    when 1 => return bits(cl_fix_add(a, h.a, b, h.b, h.r));
                    when 2 => return bits(cl_fix_add(a, h.a, b, h.b));
                    when others => return bits(cl_fix_add(a, h.a, b, h.b, h.r, h.rnd));
                end case;
            when 11 =>
                case h.variant is
                    when 0 => return bits(cl_fix_sub(a, h.a, b, h.b, h.r, h.rnd, h.sat));
                    when 1 => return bits(cl_fix_sub(a, h.a, b, h.b, h.r));
                    when 2 => return bits(cl_fix_sub(a, h.a, b, h.b));
                    when others => return bits(cl_fix_sub(a, h.a, b, h.b, h.r, h.rnd));
                end case;
            when 12 =>
                case h.x is
                    when 1 => sel := '1';
                    when 2 => sel := 'H';
                    when 3 => sel := 'L';
                    when others => sel := '0';
                end case;
                case h.variant is
                    when 0 => return bits(cl_fix_addsub(a, h.a, b, h.b, sel, h.r, h.rnd, h.sat));
                    when 1 => return bits(cl_fix_addsub(a, h.a, b, h.b, sel, h.r));
                    when 2 => return bits(cl_fix_addsub(a, h.a, b, h.b, sel));
                    when others => return bits(cl_fix_addsub(a, h.a, b, h.b, sel, h.r, h.rnd));
                end case;
            when 13 =>
                case h.variant is
                    when 0 => return bits(cl_fix_mult(a, h.a, b, h.b, h.r, h.rnd, h.sat));
                    when 1 => return bits(cl_fix_mult(a, h.a, b, h.b, h.r));
                    when 2 => return bits(cl_fix_mult(a, h.a, b, h.b));
                    when others => return bits(cl_fix_mult(a, h.a, b, h.b, h.r, h.rnd));
                end case;
            when 14 =>
                case h.variant is
                    when 0 => return bits(cl_fix_neg(a, h.a, h.r, h.rnd, h.sat));
                    when 1 => return bits(cl_fix_neg(a, h.a, h.r));
                    when 2 => return bits(cl_fix_neg(a, h.a));
                    when others => return bits(cl_fix_neg(a, h.a, h.r, h.rnd));
                end case;
            when 15 =>
                case h.variant is
                    when 0 => return bits(cl_fix_abs(a, h.a, h.r, h.rnd, h.sat));
                    when 1 => return bits(cl_fix_abs(a, h.a, h.r));
                    when 2 => return bits(cl_fix_abs(a, h.a));
                    when others => return bits(cl_fix_abs(a, h.a, h.r, h.rnd));
                end case;
            when 16 =>
                case h.variant is
                    when 1 => return bits(cl_fix_shift(a, h.a, h.x, h.r));
                    when 3 => return bits(cl_fix_shift(a, h.a, h.x, h.r, h.rnd));
                    when others => return bits(cl_fix_shift(a, h.a, h.x, h.r, h.rnd, h.sat));
                end case;
            when 17 =>
                if rel(h.x)(2) = ' ' then
                    return bool(cl_fix_compare(rel(h.x)(1 to 1), a, h.a, b, h.b));
                end if;
                return bool(cl_fix_compare(rel(h.x), a, h.a, b, h.b));
            when 18 =>
                return "" & std_logic'image(cl_fix_sign(a, h.a))(2);
            when 20 =>
                return show_real(cl_fix_to_real(a, h.a));
            when 21 =>
                return integer'image(cl_fix_to_integer(a, h.a));
            when 22 =>
                return to_string(a, h.a);
            when others =>
                return "?";
        end case;
    end function;

    -- an operation on formats only
    function calc_fmt(h : header_t; y : integer) return string is
    begin
        case h.op is
            when 30 => return sfmt(cl_fix_add_fmt(h.a, h.b));
            when 31 => return sfmt(cl_fix_sub_fmt(h.a, h.b));
            when 32 => return sfmt(cl_fix_addsub_fmt(h.a, h.b));
            when 33 => return sfmt(cl_fix_mult_fmt(h.a, h.b));
            when 34 => return sfmt(cl_fix_neg_fmt(h.a));
            when 35 => return sfmt(cl_fix_abs_fmt(h.a));
            when 36 => return sfmt(cl_fix_shift_fmt(h.a, h.x, y));
            when 37 => return sfmt(cl_fix_shift_fmt(h.a, h.x));
            when 38 => return sfmt(cl_fix_round_fmt(h.a, h.x, h.rnd));
            when 39 => return integer'image(cl_fix_width(h.a));
            when 40 => return bits(cl_fix_max_value(h.a));
            when 41 => return bits(cl_fix_min_value(h.a));
            when 42 =>
                case h.variant is
                    when 2 => return integer'image(cl_fix_recommended_pipelining(h.a, h.r, h.rnd, false));
                    when others => return integer'image(cl_fix_recommended_pipelining(h.a, h.r, h.rnd));
                end case;
            when 43 => return integer'image(cl_fix_recommended_pipelining(h.a, h.r, h.sat));
            when 44 => return integer'image(cl_fix_recommended_pipelining(h.a, h.r, h.rnd, h.sat));
            when 45 => return to_string(h.a);
            when 46 => return to_string(h.rnd);
            when 47 => return to_string(h.sat);
            when 48 => return sfmt(choose(h.x = 1, h.a, h.b));
            when others => return "?";
        end case;
    end function;

    -- an operation on text; the string is given a chosen lower bound
    function calc_text(h : header_t; s : string) return string is
        variable t : string(1 + h.x to s'length + h.x) := s;
    begin
        case h.op is
            when 50 => return sfmt(cl_fix_format_from_string(t));
            when 51 => return integer'image(FixRound_t'pos(cl_fix_round_from_string(t)));
            when 52 => return integer'image(FixSaturate_t'pos(cl_fix_saturate_from_string(t)));
            when 53 => return bool(cl_fix_compare(t, cl_fix_max_value(h.a), h.a, cl_fix_min_value(h.b), h.b));
            when others => return "?";
        end case;
    end function;
begin
    process
        variable L : line;
        variable h : header_t;
        variable p : positive;
        variable a0, a1, b0, b1 : natural;
        variable x : real;
        variable n : integer;
        impure function req return string is
        begin
            return L.all;
        end function;
    begin
        while not endfile(input) loop
            readline(input, L);
            p := 2;
            case L(1) is
                when 'H' =>
                    get_header(L.all, h);
                when 'V' =>
                    token(L.all, p, a0, a1);
                    token(L.all, p, b0, b1);
                    reply(calc(h, view(L(a0 to a1), h.dir_a), view(L(b0 to b1), h.dir_b)));
                when 'F' =>
                    get_int(L.all, p, n);
                    reply(calc_fmt(h, n));
                when 'R' =>
                    get_real(L.all, p, x);
                    if h.variant = 1 then
                        reply(bits(cl_fix_from_real(x, h.r)));
                    else
                        reply(bits(cl_fix_from_real(x, h.r, h.sat)));
                    end if;
                when 'I' =>
                    get_int(L.all, p, n);
                    reply(bits(cl_fix_from_integer(n, h.r)));
                when 'T' =>
                    reply(calc_text(h, L(3 to L'high)));
                when others =>
                    reply("?");
            end case;
        end loop;
        wait;
    end process;
end;
