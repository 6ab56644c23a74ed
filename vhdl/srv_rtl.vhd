-- Drives one of the RTL blocks with a history read from stdin and prints its outputs around every clock edge (see checks/c19.py).
library std; use std.textio.all;
library ieee; use ieee.std_logic_1164.all;
library work; use work.en_cl_fix_pkg.all; use work.srv_util.all;

entity srv_rtl is
    generic(
        block_g     : natural := 0;     -- 0 round, 1 saturate, 2 resize
        as_g, rs_g  : natural := 0;
        ai_g, ri_g  : integer := 1;
        af_g, rf_g  : integer := 0;
        rnd_g       : natural := 0;
        sat_g       : natural := 0;
        mode_g      : natural := 0;
        meta_g      : natural := 0;
        check_g     : natural := 1;
        defaults_g  : natural := 0      -- leave generics and ports with a default unassociated
    );
end;

architecture t of srv_rtl is
    constant a_c    : FixFormat_t := (as_g, ai_g, af_g);
    constant r_c    : FixFormat_t := (rs_g, ri_g, rf_g);
    constant rnd_c  : FixRound_t := FixRound_t'val(rnd_g);
    constant sat_c  : FixSaturate_t := FixSaturate_t'val(sat_g);
    constant mode_c : RegisterMode_t := RegisterMode_t'val(mode_g);
    signal clk, rst : std_logic := '0';
    signal in_valid, out_valid  : std_logic := '0';
    signal in_meta, out_meta    : std_logic_vector(meta_g-1 downto 0) := (others => '0');
    signal in_data  : std_logic_vector(cl_fix_width(a_c)-1 downto 0) := (others => '0');
    signal out_data : std_logic_vector(cl_fix_width(r_c)-1 downto 0);
begin
    g_round : if block_g = 0 and defaults_g = 0 generate
        i : entity work.en_cl_fix_round
        generic map(in_fmt_g => a_c, out_fmt_g => r_c, round_g => rnd_c, reg_mode_g => mode_c, meta_width_g => meta_g, fmt_check_g => check_g = 1)
        port map(clk => clk, rst => rst, in_valid => in_valid, in_meta => in_meta, in_data => in_data,
                 out_valid => out_valid, out_meta => out_meta, out_data => out_data);
    end generate;
    g_round_d : if block_g = 0 and defaults_g = 1 generate
        i : entity work.en_cl_fix_round
        generic map(in_fmt_g => a_c, out_fmt_g => r_c, round_g => rnd_c, reg_mode_g => mode_c)
        port map(clk => clk, rst => rst, in_valid => in_valid, in_data => in_data, out_valid => out_valid, out_data => out_data);
    end generate;
    g_saturate : if block_g = 1 and defaults_g = 0 generate
        i : entity work.en_cl_fix_saturate
        generic map(in_fmt_g => a_c, out_fmt_g => r_c, saturate_g => sat_c, reg_mode_g => mode_c, meta_width_g => meta_g)
        port map(clk => clk, rst => rst, in_valid => in_valid, in_meta => in_meta, in_data => in_data,
                 out_valid => out_valid, out_meta => out_meta, out_data => out_data);
    end generate;
    g_saturate_d : if block_g = 1 and defaults_g = 1 generate
        i : entity work.en_cl_fix_saturate
        generic map(in_fmt_g => a_c, out_fmt_g => r_c, saturate_g => sat_c, reg_mode_g => mode_c)
        port map(clk => clk, rst => rst, in_valid => in_valid, in_data => in_data, out_valid => out_valid, out_data => out_data);
    end generate;
    g_resize : if block_g = 2 and defaults_g = 0 generate
        i : entity work.en_cl_fix_resize
        generic map(in_fmt_g => a_c, out_fmt_g => r_c, round_g => rnd_c, saturate_g => sat_c, reg_mode_g => mode_c, meta_width_g => meta_g)
        port map(clk => clk, rst => rst, in_valid => in_valid, in_meta => in_meta, in_data => in_data,
                 out_valid => out_valid, out_meta => out_meta, out_data => out_data);
    end generate;
    g_resize_d : if block_g = 2 and defaults_g = 1 generate
        i : entity work.en_cl_fix_resize
        generic map(in_fmt_g => a_c, out_fmt_g => r_c, round_g => rnd_c, saturate_g => sat_c, reg_mode_g => mode_c)
        port map(clk => clk, rst => rst, in_valid => in_valid, in_data => in_data, out_valid => out_valid, out_data => out_data);
    end generate;

    -- request line: <disturb> <rst><valid> "<meta> "<data>     (meta and data are preceded by a quote: they may be empty)
    -- disturb: 1 = all inputs are inverted between the edges, 2 = only rst is pulsed between the edges
    process
        variable L          : line;
        variable rst_v, val_v : std_logic;
        procedure run(s : string) is
            variable p, d   : positive;
            variable n, a, b, c, e : natural;
            variable x      : integer;
            variable o_a    : line;
            function sl(ch : character) return std_logic is
            begin
                if ch = '1' then return '1'; else return '0'; end if;
            end function;
        begin
            p := 1;
            get_int(s, p, x);
            token(s, p, a, b);
            rst_v := sl(s(a)); val_v := sl(s(a+1));
            token(s, p, a, b);      -- meta
            token(s, p, c, e);      -- data
            -- low phase
            if x = 1 then
                rst <= not rst_v; in_valid <= not val_v;
                in_meta <= not view(s(a+1 to b), 0); in_data <= not view(s(c+1 to e), 0);
                wait for 1 ns;
            elsif x = 2 then
                rst <= '1'; wait for 1 ns; rst <= '0'; wait for 1 ns;
            end if;
            rst <= rst_v; in_valid <= val_v;
            in_meta <= view(s(a+1 to b), 0); in_data <= view(s(c+1 to e), 0);
            wait for 1 ns;
            write(o_a, string'("= "));
            write(o_a, bits("" & out_valid) & " " & '"' & bits(out_meta) & " " & '"' & bits(out_data));
            clk <= '1';
            wait for 1 ns;
            write(o_a, " " & bits("" & out_valid) & " " & '"' & bits(out_meta) & " " & '"' & bits(out_data));
            if x = 1 then
                rst <= not rst_v; in_valid <= not val_v; in_meta <= not in_meta; in_data <= not in_data;
                wait for 1 ns;
            elsif x = 2 then
                rst <= '1'; wait for 1 ns; rst <= '0'; wait for 1 ns;
            end if;
            clk <= '0';
            wait for 1 ns;
            writeline(output, o_a);
        end procedure;
    begin
        while not endfile(input) loop
            readline(input, L);
            run(L.all);
        end loop;
        wait;
    end process;
end;
