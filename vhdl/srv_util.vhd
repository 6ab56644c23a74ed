-- Helpers shared by the servers: parsing of requests, printing of replies, vectors with chosen index ranges.
library std; use std.textio.all;
library ieee; use ieee.std_logic_1164.all; use ieee.math_real.all;

package srv_util is
    -- next space-separated token of s from position p on (p is moved behind it)
    procedure token(s : string; p : inout positive; first, last : out natural);
    procedure get_int(s : string; p : inout positive; x : out integer);
    -- vector with the bits of s (MSB left) and index range number dir
    function view(s : string; dir : natural) return std_logic_vector;
    function bits(v : std_logic_vector) return string;
    function bool(b : boolean) return string;
    procedure get_real(s : string; p : inout positive; x : out real);
    function show_real(x : real) return string;
    procedure reply(s : string);
end package;

package body srv_util is
    procedure token(s : string; p : inout positive; first, last : out natural) is
        variable i : positive := p;
    begin
        while i <= s'high and s(i) = ' ' loop i := i + 1; end loop;
        first := i;
        while i <= s'high and s(i) /= ' ' loop i := i + 1; end loop;
        last := i - 1;
        p := i;
    end procedure;

    procedure get_int(s : string; p : inout positive; x : out integer) is
        variable a, b : natural;
        variable v : integer := 0;
        variable neg : boolean := false;
    begin
        token(s, p, a, b);
        if s(a) = '-' then neg := true; a := a + 1; end if;
        for i in a to b loop
            v := v * 10 - (character'pos(s(i)) - 48);   -- negative accumulation reaches integer'low
        end loop;
        if neg then x := v; else x := -v; end if;
    end procedure;

    function down0(s : string) return std_logic_vector is
        variable v : std_logic_vector(s'length-1 downto 0);
        variable k : integer := s'low;
    begin
        for i in v'range loop
            case s(k) is
                when '1' => v(i) := '1';
                when '0' => v(i) := '0';
                when 'U' => v(i) := 'U';
                when 'Z' => v(i) := 'Z';
                when 'W' => v(i) := 'W';
                when 'L' => v(i) := 'L';
                when 'H' => v(i) := 'H';
                when '-' => v(i) := '-';
                when others => v(i) := 'X';
            end case;
            k := k + 1;
        end loop;
        return v;
    end function;

    function view(s : string; dir : natural) return std_logic_vector is
        constant n  : natural := s'length;
        constant v0 : std_logic_vector(n-1 downto 0) := down0(s);
        variable v1 : std_logic_vector(0 to n-1) := v0;
        variable v2 : std_logic_vector(n+4 downto 5) := v0;
        variable v3 : std_logic_vector(3 to n+2) := v0;
        variable v4 : std_logic_vector(n downto 1) := v0;
    begin
        case dir is
            when 1 => return v1;
            when 2 => return v2;
            when 3 => return v3;
            when 4 => return v4;
            when others => return v0;
        end case;
    end function;

    function bits(v : std_logic_vector) return string is
        constant chars : string(1 to 9) := "UX01ZWLH-";
        variable s : string(1 to v'length);
        variable k : natural := 1;
    begin
        for i in v'range loop
            s(k) := chars(1 + std_logic'pos(v(i)));
            k := k + 1;
        end loop;
        return s;
    end function;

    function bool(b : boolean) return string is
    begin
        if b then return "1"; else return "0"; end if;
    end function;

    function pow2(e : integer) return real is
        variable x : real := 1.0;
    begin
        if e >= 0 then
            for i in 1 to e loop x := x * 2.0; end loop;
        else
            for i in 1 to -e loop x := x * 0.5; end loop;
        end if;
        return x;
    end function;

    procedure get_real(s : string; p : inout positive; x : out real) is
        variable sgn, hi, lo, e, h : integer;
        variable v : real;
    begin
        get_int(s, p, sgn); get_int(s, p, hi); get_int(s, p, lo); get_int(s, p, e);
        v := real(hi) * 67108864.0 + real(lo);
        h := e / 2;
        v := v * pow2(h);
        v := v * pow2(e - h);
        if sgn = 1 then v := -v; end if;
        x := v;
    end procedure;

    function show_real(x : real) return string is
        variable v : real := abs x;
        variable e, hi, lo : integer := 0;
        variable s : integer := 0;
    begin
        if x < 0.0 then s := 1; end if;
        if v = 0.0 then return "0 0 0 0"; end if;
        if not (v <= real'high) then return "inf"; end if;
        while v >= 9007199254740992.0 loop v := v * 0.5; e := e + 1; end loop;
        while v < 4503599627370496.0 loop v := v * 2.0; e := e - 1; end loop;
        hi := integer(floor(v / 67108864.0));
        lo := integer(v - real(hi) * 67108864.0);
        return integer'image(s) & " " & integer'image(hi) & " " & integer'image(lo) & " " & integer'image(e);
    end function;

    procedure reply(s : string) is
        variable L : line;
    begin
        write(L, string'("= "));
        write(L, s);
        writeline(output, L);
        flush(output);
    end procedure;
end package body;
