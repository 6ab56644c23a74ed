"""C19 RTL blocks: histories of valid, reset, metadata and data against a clocked model."""
import os, subprocess
from hypothesis import strategies as st
import core, gen, model as M, vhd
from core import Sub, Violation
import vops as V

EXE = None
BLOCKS = ["round", "saturate", "resize"]
MODES = ["Auto_s", "Yes_s", "No_s"]


def prepare():
    global EXE
    EXE = vhd.build_fix("srv_rtl")


@st.composite
def history(draw, a, r, meta, n):
    xs = draw(gen.raws(a, r, max_n=24))
    kind = draw(st.sampled_from(["random", "random", "burst", "always", "sparse", "reset-storm", "short"]))
    n = 4 if kind == "short" else n
    h = []
    val, rst = 1, 0
    # a compact source of randomness (one draw per history keeps cases small and shrinkable)
    bits = draw(st.lists(gen.ints(0, 255), min_size=n, max_size=n))
    for t, k in enumerate(bits):
        v = k & 1
        if kind == "always":
            v = 1
        elif kind == "sparse":
            v = (k & 7) == 1
        elif kind == "burst":
            if (k & 3) == 0:
                val ^= 1
            v = val
        res = ((k >> 2) & 15) == 1 if kind != "reset-storm" else ((k >> 2) & 1)
        if kind == "always":
            res = ((k >> 2) & 31) == 1
        dist = {0: 1, 1: 2}.get((k >> 6) & 3, 0)
        h.append([int(dist), int(bool(res)), int(bool(v)), (k * 2654435761 + t * 40503) % (1 << meta) if meta else 0,
                  xs[(t + (k >> 5)) % len(xs)]])
    return h


@st.composite
def case(draw, block):
    a = draw(gen.fmts(max_w=100, far=False))
    rnd, sat = draw(gen.rounds), draw(gen.sats)
    check = 1
    if block == "round":
        w = M.width(a)
        rF = draw(gen.ints(a[2] - min(w + 1, 12), a[2] + 2))
        r = M.round_fmt(a, rF, rnd)
        if draw(gen.ints(0, 3)) == 0:
            check = 0
            r = gen.legal(draw(st.sampled_from([a[0], a[0], 1 - a[0]])), r[1] + draw(gen.ints(-2, 2)), r[2])
    elif block == "saturate":
        r = draw(gen.rel_fmts(a, max_w=110, same_f=True))
    else:
        r = draw(gen.rel_fmts(a, max_w=110))
    meta = draw(st.sampled_from([0, 1, 2, 8, 8, 33]))
    dflt = check and draw(gen.ints(0, 5)) == 0
    if dflt:
        meta = 0
    return dict(block=block, a=a, r=r, rnd=rnd, sat=sat, mode=draw(st.sampled_from(MODES)), meta=meta, check=check,
                defaults=int(dflt), h=draw(history(a, r, meta, draw(gen.ints(6, 40)))))


def latency(c, a, r):
    if c["mode"] == "No_s":
        return 0
    if c["mode"] == "Yes_s":
        return 2 if c["block"] == "resize" else 1
    if c["block"] == "round":
        return M.pipe_round(a, r[2], c["rnd"])
    if c["block"] == "saturate":
        return M.pipe_sat(a, r, c["sat"])
    return M.pipe_round(a, r[2], c["rnd"]) + M.pipe_sat(M.round_fmt(a, r[2], c["rnd"]), r, c["sat"])


def function(c, a, r, x):
    if c["block"] == "round":
        return M.sat_raw(M.round_raw(x, a[2], r[2], c["rnd"]), r, "None_s")
    if c["block"] == "saturate":
        return M.sat_raw(x, r, c["sat"])
    return M.resize_raw(x, a[2], r, c["rnd"], c["sat"])


def simulate(c, a, r):
    g = dict(block_g=BLOCKS.index(c["block"]), as_g=a[0], ai_g=a[1], af_g=a[2], rs_g=r[0], ri_g=r[1], rf_g=r[2], rnd_g=V.RND[c["rnd"]],
             sat_g=V.SAT[c["sat"]], mode_g=MODES.index(c["mode"]), meta_g=c["meta"], check_g=c["check"], defaults_g=c["defaults"])
    w = M.width(a)
    req = "".join(f'{d} {rst}{v} "{M.bits(m, c["meta"]) if c["meta"] else ""} "{M.bits(x, w)}\n' for d, rst, v, m, x in c["h"])
    try:
        p = subprocess.run([EXE, "--max-stack-alloc=0", *(f"-g{k}={v}" for k, v in g.items())], input=req.encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, cwd=core.scratch_private(), timeout=60)
    except subprocess.TimeoutExpired:
        raise Violation("the simulation did not end within 60 s")
    out = p.stdout.decode("latin1").splitlines()
    rows = [l[2:].replace('"', "").split(" ") for l in out if l.startswith("= ")]
    if p.returncode or len(rows) != len(c["h"]):
        bad = [l for l in out if not l.startswith("= ")]
        raise Violation(f"the simulation stopped after {len(rows)} of {len(c['h'])} clocks: {' '.join(bad)[-600:]}")
    return rows


def run(c):
    a, r = tuple(c["a"]), tuple(c["r"])
    L = latency(c, a, r)
    what = (f"en_cl_fix_{c['block']} {a}->{r} {c['rnd']} {c['sat']} {c['mode']} meta={c['meta']} fmt_check={c['check']} "
            f"defaults={c['defaults']} latency={L}")
    rows = simulate(c, a, r)
    w = M.width(r)
    killed = moved = 0
    h = c["h"]
    for t, row in enumerate(rows):
        # before the edge of clock t the sample of clock t-L is visible, after it the one of t-L+1 (or still t if not registered)
        for when, s, edges, (v, m, x) in (("before", t - L, range(t - L, t), row[:3]),
                                          ("after", t - L + 1 if L else t, range(t - L + 1, t + 1), row[3:])):
            if s < 0 or s > t:
                continue
            _, _, iv, im, ix = h[s]
            gone = L > 0 and any(h[k][1] for k in edges)
            ev = iv and not gone
            killed += iv and gone
            moved += bool(ev)
            exp = (str(int(ev)), M.bits(im, c["meta"]) if c["meta"] else "", M.bits(function(c, a, r, ix), w))
            if (v, m, x) != exp:
                raise Violation(f"{what}: outputs {when} the rising edge of clock {t}: (valid, meta, data) = {(v, m, x)}, "
                                f"expected {exp} of the input of clock {s}")
    tags = [f"elems={2 * len(rows)}", f"latency{L}", c["mode"]] + ["reset-hit"] * (killed > 0) + ["defaults"] * c["defaults"] + \
        ["unchecked-format"] * (not c["check"]) + ["disturbed"] * any(k[0] for k in h)
    if moved and (killed or L == 0) and len({k[4] for k in h}) > 1:
        tags.append("nontrivial")
    return tags


SUBS = [Sub(b, case(b), run, 5000 if b == "resize" else 3000, 40000) for b in BLOCKS]
RULE = ("distinct cases in which a valid sample comes out, and (for a latency above zero) a reset clears another one, with differing data")

if __name__ == "__main__":
    raise SystemExit(core.main("C19", SUBS, RULE, ["GHDL 4.1 implements VHDL-2008 correctly",
                                                  "outputs are judged 1 ns before and after each rising edge, from the first sample on"],
                               prepare=prepare))
