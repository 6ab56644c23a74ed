#!/usr/bin/env python3
"""Mutation testing of the checks.

mutate.py FILE... [--checks c01,c02,...] [--scale 0.02,0.3] [--sample N] [--seed S] [--out OUT] [--jobs 8]
Makes small syntactic changes to FILE (of /repo, one at a time, in scratch copies), runs the checks in order until one reports a violation,
and writes one line per change: killed-by / SURVIVED / ERROR. Survivors are either equivalent or a gap of the checks.
"""
import argparse, io, os, random, re, shutil, subprocess, sys, tokenize
from concurrent.futures import ThreadPoolExecutor
import queue

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SWAP = {"+": ["-"], "-": ["+"], "*": ["+"], "**": ["*"], "//": ["%"], "%": ["//"], "<": ["<="], "<=": ["<"], ">": [">="], ">=": [">"],
        "==": ["!="], "!=": ["=="], "and": ["or"], "or": ["and"], "max": ["min"], "min": ["max"], "True": ["False"], "False": ["True"],
        "not": [""], ">>": ["<<"], "any": ["all"], "all": ["any"], "is": ["is not"], "floor": ["ceil"], "F": ["I"], "I": ["F"],
        "a_fmt": ["b_fmt", "r_fmt"], "b_fmt": ["a_fmt"], "r_fmt": ["a_fmt"], "mid_fmt": ["a_fmt"]}
VSWAP = {"+": ["-"], "-": ["+"], "*": ["+"], "<": ["<="], ">": [">="], ">=": [">"], "=": ["/="], "/=": ["="], "and": ["or"], "or": ["and"],
         "max": ["min"], "min": ["max"], "true": ["false"], "false": ["true"], "not": [""], "high": ["low"], "low": ["high"], "left": ["right"],
         "right": ["left"], "signed": ["unsigned"], "unsigned": ["signed"], "'0'": ["'1'"], "'1'": ["'0'"], "F": ["I"], "I": ["F"],
         "a_fmt": ["b_fmt", "result_fmt"], "b_fmt": ["a_fmt"], "result_fmt": ["a_fmt"], "Trunc_s": ["NonSymPos_s"], "None_s": ["Sat_s"],
         "Warn_s": ["None_s"], "SatWarn_s": ["Sat_s"], "Sat_s": ["SatWarn_s"], "downto": [], "length": []}


def py_mutants(text):
    lines = text.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l))
    out = []
    depth, prev, imp = 0, None, False
    for t in tokenize.generate_tokens(io.StringIO(text).readline):
        s = starts[t.start[0] - 1] + t.start[1]
        e = starts[t.end[0] - 1] + t.end[1]
        if t.type == tokenize.NAME and t.string in ("import", "from", "def", "class") and t.line.lstrip().startswith(t.string):
            imp = t.start[0]
        if imp == t.start[0]:
            continue
        if t.type == tokenize.NUMBER and t.string.isdigit():
            n = int(t.string)
            out += [(s, e, str(n + 1))] + ([(s, e, str(n - 1))] if n > 0 else [])
        elif t.type in (tokenize.OP, tokenize.NAME) and t.string in SWAP:
            if not (t.string in ("F", "I") and prev != "."):
                out += [(s, e, r) for r in SWAP[t.string]]
        prev = t.string
    for i, l in enumerate(lines):
        m = re.match(r"( +)(?!def |class |return\b.*\bNone|\"|'|#|@|import|from|else|elif|if |for |with |try|except)(\S.*)\n", l)
        if m and re.match(r"([\w.\[\], ]+ [-+*>]*= .*[^\[(,]|\w.*\)|raise .*|assert .*|return .*)$", m.group(2)) and not m.group(2).rstrip().endswith((",", "(", "\\", "|")):
            if l.count("(") == l.count(")"):
                out.append((starts[i] + len(m.group(1)), starts[i] + len(l) - 1, "pass"))
    return out


def vhdl_mutants(text):
    out = []
    tok = re.compile(r"--[^\n]*|\"[^\"\n]*\"|'.'(?!')|\b\d+\.\d+\b|\b\d+\b|[A-Za-z]\w*|/=|<=|>=|:=|=>|\*\*|[-+*/=<>&]|\n")
    decl = False
    body = False
    for m in tok.finditer(text):
        t, s, e = m.group(0), m.start(), m.end()
        if t.startswith("--") or t.startswith('"') or t == "\n":
            continue
        line = text[text.rfind("\n", 0, s) + 1:text.find("\n", s)].strip().lower()
        if line.startswith("package body") or line.startswith("architecture"):
            body = True
        if not body or re.match(r"(function|procedure|impure|pure|end|library|use|entity|architecture|package|type|subtype)\b", line):
            continue
        if re.fullmatch(r"\d+", t):
            n = int(t)
            out += [(s, e, str(n + 1))] + ([(s, e, str(n - 1))] if n > 0 else [])
        elif re.fullmatch(r"\d+\.\d+", t):
            out.append((s, e, str(float(t) + 1)))
        elif t in VSWAP or t.lower() in VSWAP:
            if t in ("F", "I") and text[s - 1] != ".":
                continue
            out += [(s, e, r) for r in (VSWAP.get(t) or VSWAP.get(t.lower()) or [])]
    for m in re.finditer(r"(?m)^[ \t]+([A-Za-z][\w.]*(\([^\n]*\))?[ \t]*(:=|<=)[^\n;]*;|return[^\n;]*;|assert[^\n;]*;)[ \t]*(--[^\n]*)?$", text):
        if body and not re.match(r"\s*(constant|variable|signal|alias)", m.group(0)) and m.start(1) > text.lower().find(" body "):
            if not m.group(1).startswith("return"):
                out.append((m.start(1), m.end(1), "null;"))
    return out


def m_mutants(text):
    out = []
    swap = {"iscolumn": ["isrow"], "isrow": ["iscolumn"], "mat2py": ["py2mat"], "py2mat": ["mat2py"], "ceil": ["floor"], "S": ["I"], "I": ["F"],
            "F": ["I"], "s": ["w"], "w": ["f"], "f": ["w"], "i": ["f"], "a_fmt": ["r_fmt"], "r_fmt": ["a_fmt"], "add": ["sub"], "int32": ["uint8"],
            "int64": ["int8", "uint8"], "uint64": ["int64", "uint32"], "double": ["single"], "isscalar": ["isrow"], "cl_fix_add": ["cl_fix_sub"],
            "cl_fix_sub": ["cl_fix_add"], "cl_fix_abs": ["cl_fix_neg"], "cl_fix_neg": ["cl_fix_abs"], "cl_fix_round": ["cl_fix_resize"],
            "cl_fix_add_fmt": ["cl_fix_sub_fmt"], "cl_fix_sub_fmt": ["cl_fix_add_fmt"], "cl_fix_max_value": ["cl_fix_min_value"], "ndim": [],
            "cl_fix_min_value": ["cl_fix_max_value"], "cl_fix_zeros": ["cl_fix_random"], "+": ["-"], "-": ["+"], "*": ["+"], "==": ["~="], "&&": ["||"],
            "'Floor'": ["'Nearest'", "'Ceiling'"], "'KeepLSB'": ["'FullPrecision'"], "'FullPrecision'": ["'KeepLSB'"], "columns": []}
    for mm in re.finditer(r"%[^\n]*|'[^'\n]*'|\"[^\"\n]*\"|\b\d+\b|[A-Za-z]\w*|==|&&|[-+*]", text):
        t, s, e = mm.group(0), mm.start(), mm.end()
        line = text[text.rfind("\n", 0, s) + 1:text.find("\n", s)].strip()
        if t.startswith("%") or re.match(r"(function|methods|classdef|%)", line):
            continue
        if t.isdigit():
            out += [(s, e, str(int(t) + 1))] + ([(s, e, str(int(t) - 1))] if int(t) else [])
        elif t in swap:
            out += [(s, e, r) for r in swap[t]]
    for mm in re.finditer(r"(?m)^ +([\w{}(),: ]+ = [^\n]*;)[ ]*(%[^\n]*)?$", text):
        out.append((mm.start(1), mm.end(1), ""))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("files", nargs="+")
    ap.add_argument("--checks", required=True)
    ap.add_argument("--scale", default="0.02,0.3")
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--out", default="/tmp/mut/out.txt")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--lines", default="")
    a = ap.parse_args()
    skip = set()
    if os.path.exists(a.out):            # continue an interrupted run
        skip = {l.split(" | ", 1)[1] for l in open(a.out)}
    todo = []
    for f in a.files:
        text = open(os.path.join("/repo", f), newline="").read()
        ms = {"py": py_mutants, "vhd": vhdl_mutants}.get(f.rsplit(".", 1)[1], m_mutants)(text)
        if a.lines:
            lo, hi = map(int, a.lines.split("-"))
            ms = [m for m in ms if lo <= text.count("\n", 0, m[0]) + 1 <= hi]
        todo += [(f, text, m) for m in dict.fromkeys(ms)]
    random.Random(a.seed).shuffle(todo)
    if a.sample:
        todo = todo[:a.sample]
    print(len(todo), "mutants", flush=True)
    slots = queue.Queue()
    for k in range(a.jobs):
        w = f"/tmp/mut/w{os.getpid()}_{k}"
        subprocess.run(["mkdir", "-p", w], check=True)
        subprocess.run(["bash", "-c", f"cd /repo && git archive HEAD | tar x -C {w}"], check=True)
        slots.put(w)
    res = open(a.out, "a")

    def one(job):
        f, text, (s, e, new) = job
        w = slots.get()
        path = os.path.join(w, f)
        try:
            with open(path, "w", newline="") as g:
                g.write(text[:s] + new + text[e:])
            line = text.count("\n", 0, s) + 1
            src = text[text.rfind("\n", 0, s) + 1:text.find("\n", s)].strip()
            what = f"{f}:{line}: `{text[s:e]}` -> `{new}` @{s - text.rfind(chr(10), 0, s)}: {src[:110]}"
            if what + "\n" in skip:
                return
            verdict = "SURVIVED"
            for scale, c in [(x, c) for x in a.scale.split(",") for c in a.checks.split(",")]:
                env = dict(os.environ, VERIF_REPO=w, VERIF_NPROC="1", VERIF_FAST="1", VERIF_SCALE=scale, VERIF_EVIDENCE=w + ".ev")
                try:
                    p = subprocess.run([os.path.join(V, "run.sh"), c, "quick"], env=env, capture_output=True, text=True, timeout=400)
                except subprocess.TimeoutExpired:
                    verdict = f"TIMEOUT {c}"
                    break
                if p.returncode == 1:
                    built = "-build.json" in p.stdout or "cannot import" in p.stdout + p.stderr
                    verdict = f"{'does-not-build' if built else 'killed'} {c}"
                    break
                if p.returncode != 0:
                    verdict = f"ERROR {c}: {(p.stdout + p.stderr)[-300:]!r}"
                    if "cannot import" in verdict or "SyntaxError" in verdict:
                        verdict = "does-not-build"
                    break
            res.write(f"{verdict} | {what}\n")
            res.flush()
        finally:
            with open(path, "w", newline="") as g:
                g.write(text)
            slots.put(w)

    with ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(one, todo))
    res.close()
    while not slots.empty():
        shutil.rmtree(slots.get(), ignore_errors=True)
    from collections import Counter
    print(Counter(l.split(" ")[0] for l in open(a.out)))


main()
