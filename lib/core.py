"""
Harness: runs sub-checks (a Hypothesis strategy of JSON-able cases + an evaluation function) in
parallel shards, shrinks failures, writes replay files and the evidence file.

Exit status: 0 held, 1 violation (with a VIOLATION line), 2 harness error.
"""
import sys, os, json, time, hashlib, traceback, multiprocessing, collections, shutil, tempfile, atexit, signal, subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
NPROC = int(os.environ.get("VERIF_NPROC", "0")) or min(8, os.cpu_count() or 1)
FAST = bool(os.environ.get("VERIF_FAST"))    # mutation testing only: stop at the first violation, without shrinking
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

import hypothesis
from hypothesis import given, settings, HealthCheck, Phase
import hypothesis.internal.conjecture.engine as _engine
_engine.MAX_SHRINKING_SECONDS = 60
sys.set_int_max_str_digits(0)


class Violation(Exception):
    """The property does not hold for the current case."""
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class HarnessError(Exception):
    pass


class Stuck(BaseException):
    """A case takes far longer than any case of a correct tree."""


def _stuck(signum, frame):
    raise Stuck

def repo_frame(e):
    tb, found = e.__traceback__, None
    while tb:
        f = tb.tb_frame.f_code.co_filename
        if os.path.abspath(f).startswith(os.path.abspath(REPO) + os.sep):
            found = f"{os.path.relpath(f, REPO)}:{tb.tb_lineno}"
        tb = tb.tb_next
    return found


class Sub:
    """
    One sub-check.
      strategy : Hypothesis strategy producing JSON-able case dicts
      run      : run(case) -> iterable of tags; the tag "nontrivial" marks a non-trivial case,
                 "elems=N" adds N elementary evaluations.  Raises Violation.
      quick / thorough : total number of cases
    """
    def __init__(self, name, strategy, run, quick, thorough, setup=None, teardown=None, weight=1, max_shards=8, min_shard=50):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = quick, thorough
        self.setup, self.teardown = setup, teardown
        self.max_shards, self.min_shard = max_shards, min_shard


def digest(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=8).hexdigest()


def derive(*parts):
    return int.from_bytes(hashlib.blake2b(repr(parts).encode(), digest_size=8).digest(), "big")


_scratch = None


def scratch():
    """A scratch directory, removed at exit of the process that created it."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif_fix_")
        owner = os.getpid()
        d = _scratch

        def rm():
            if os.getpid() == owner:
                shutil.rmtree(d, ignore_errors=True)
        atexit.register(rm)
    return _scratch


_private = {}


def scratch_private():
    """A directory of this process inside the scratch directory."""
    pid = os.getpid()
    if pid not in _private:
        _private[pid] = tempfile.mkdtemp(prefix=f"p{pid}_", dir=scratch())
    return _private[pid]


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]


def run_shard(prop, sub, n, seed, deadline_s):
    res = dict(sub=sub.name, cases=0, skipped=0, elems=0, tags={}, hashes=[], samples=[], violation=None, error=None)
    tags = collections.Counter()
    seen = set()
    last = {}
    t0 = time.time()
    known = [k for k in load_known(prop) if k.get("sub") == sub.name]
    known_hit = collections.Counter()
    failing, stuck = [False], [False]
    signal.signal(signal.SIGALRM, _stuck)

    def body(case):
        if not failing[0] and time.time() - t0 > deadline_s:
            res["skipped"] += 1
            return
        if stuck[0]:
            raise Violation(last["msg"])        # no further attempts to shrink it
        limit = int(max(120, min(240, 800 - (time.time() - t0))))
        try:
            signal.alarm(limit)
            try:
                out = list(sub.run(case) or ())
            finally:
                signal.alarm(0)
        except Stuck:
            failing[0] = stuck[0] = True
            last["case"], last["msg"] = case, f"no result after {limit} s"
            raise Violation(last["msg"])
        except Violation as v:
            for k in known:
                if k.get("key") is not None and k["key"] == v.key:
                    known_hit[k["id"]] += 1
                    return
            failing[0] = True
            last["case"], last["msg"] = case, str(v)
            raise
        except Exception as e:
            # An error raised inside the code under test is its own fault. One raised while the harness takes a result apart means that the
            # result has a type or a shape that no correct result has. Lack of resources is neither.
            if isinstance(e, (HarnessError, MemoryError, hypothesis.errors.HypothesisException)):
                raise
            where = repo_frame(e)
            if where is None:
                if isinstance(e, (OSError, subprocess.SubprocessError)):
                    raise
                where = "the check, on a result of an unexpected type or shape"
            failing[0] = True
            last["case"], last["msg"] = case, f"unexpected {type(e).__name__} raised in {where}: {e}"
            raise Violation(last["msg"])
        if failing[0]:
            return
        res["cases"] += 1
        h = digest(case)
        nt = False
        for t in out:
            if t == "nontrivial":
                nt = True
            elif t.startswith("elems="):
                res["elems"] += int(t[6:])
            else:
                tags[t] += 1
        if nt:
            tags["nontrivial"] += 1
            if h not in seen:
                seen.add(h)
                if len(res["samples"]) < 2 and len(seen) % 37 == 5:
                    s = json.dumps(case)
                    if len(s) < 1500:
                        res["samples"].append(case)

    test = settings(max_examples=n, deadline=None, database=None, derandomize=False, report_multiple_bugs=False,
                    print_blob=False, phases=(Phase.generate,) if FAST else (Phase.generate, Phase.shrink),
                    suppress_health_check=list(HealthCheck))(given(sub.strategy)(body))
    test = hypothesis.seed(seed)(test)
    try:
        if sub.setup:
            sub.setup()
        try:
            test()
        except BaseException as e:
            if "case" in last:
                res["violation"] = dict(case=last["case"], msg=last["msg"])
            elif isinstance(e, Violation):
                raise HarnessError("violation without case")
            else:
                raise
        finally:
            if sub.teardown:
                sub.teardown()
    except BaseException:
        res["error"] = traceback.format_exc()
    res["stuck"] = stuck[0]
    res["tags"] = dict(tags)
    res["hashes"] = list(seen)
    res["known"] = dict(known_hit)
    res["wall"] = time.time() - t0
    return res


def _worker(args):
    prop, subs, i, n, seed, deadline, outfile = args
    res = run_shard(prop, subs[i], n, seed, deadline)
    with open(outfile, "w") as f:
        json.dump(res, f)


def run_all(prop, subs, tier, deadline_s):
    """Runs every sub in shards, at most NPROC processes at a time."""
    jobs = []
    mult = float(os.environ.get("VERIF_SCALE", "1"))
    for i, s in enumerate(subs):
        total = max(1, int((s.thorough if tier == "thorough" else s.quick) * mult))
        shards = max(1, min(s.max_shards, total // s.min_shard))
        for k in range(shards):
            n = total // shards + (1 if k < total % shards else 0)
            jobs.append((i, n, derive(SEED, prop, s.name, k)))
    d = scratch()
    ctx = multiprocessing.get_context("fork")
    running, results, todo = [], [], list(enumerate(jobs))
    # longest-first is unknown; interleave shards of all subs
    while todo or running:
        while todo and len(running) < NPROC:
            j, (i, n, seed) = todo.pop(0)
            out = os.path.join(d, f"shard{j}.json")
            p = ctx.Process(target=_worker, args=((prop, subs, i, n, seed, deadline_s, out),))
            p.start()
            running.append((p, out, subs[i].name))
        time.sleep(0.01)
        for item in list(running):
            p, out, name = item
            if not p.is_alive():
                p.join()
                running.remove(item)
                if os.path.exists(out):
                    results.append(json.load(open(out)))
                    if results[-1]["violation"] and (FAST or results[-1]["stuck"]):
                        for q, _, _ in running:
                            q.terminate()
                        return results
                else:
                    results.append(dict(sub=name, cases=0, skipped=0, elems=0, tags={}, hashes=[], samples=[], violation=None, stuck=False,
                                        known={}, error=f"shard died with exit code {p.exitcode}", wall=0))
    return results


def main(prop, subs, rule, level_assumptions=(), prepare=None, argv=None, deadline=(150, 700)):
    argv = sys.argv[1:] if argv is None else argv
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    only = None
    while argv:
        a = argv.pop(0)
        if a == "--replay":
            replay = argv.pop(0)
        elif a == "--tier":
            tier = argv.pop(0)
        elif a == "--sub":
            only = argv.pop(0)
        else:
            print("unknown argument", a)
            return 2
    t0 = time.time()
    rdir = os.path.join(EVIDENCE, "replay")
    os.makedirs(rdir, exist_ok=True)
    try:
        if prepare:
            prepare()
    except Violation as v:
        path = os.path.join(rdir, f"{prop}-build.json")
        json.dump(dict(property=prop, sub="(build)", case=None, message=str(v)), open(path, "w"), indent=1)
        print(str(v))
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    except Exception:
        traceback.print_exc()
        return 2
    if replay:
        r = json.load(open(replay))
        sub = next(s for s in subs if s.name == r["sub"])
        try:
            if sub.setup:
                sub.setup()
            tags = list(sub.run(r["case"]) or ())
            print("replay: property held;", tags)
            return 0
        except Violation as v:
            print(v)
            print(f"VIOLATION property={prop} replay={os.path.abspath(replay)}")
            return 1
        finally:
            if sub.teardown:
                sub.teardown()
    if only:
        subs = [s for s in subs if s.name == only]
    results = run_all(prop, subs, tier, deadline[1] if tier == "thorough" else deadline[0])
    known_defs = {k["id"]: k for k in load_known(prop)}
    hashes, tags, per_sub, samples = set(), {}, {}, []
    errors, viol = [], {}
    known = collections.Counter()
    for r in results:
        ps = per_sub.setdefault(r["sub"], dict(cases=0, elementary=0, nontrivial_distinct=0, skipped_after_time_budget=0, classes={}))
        ps["cases"] += r["cases"]
        ps["elementary"] += r["elems"]
        ps["skipped_after_time_budget"] += r["skipped"]
        for k, v in r["tags"].items():
            ps["classes"][k] = ps["classes"].get(k, 0) + v
        hs = set((r["sub"], h) for h in r["hashes"])
        ps["nontrivial_distinct"] += len(hs - hashes)
        hashes |= hs
        if len([s for s in samples if s["sub"] == r["sub"]]) < 2:
            samples += [dict(sub=r["sub"], case=c) for c in r["samples"][:1]]
        for k, v in r.get("known", {}).items():
            known[k] += v
        if r["error"]:
            errors.append((r["sub"], r["error"]))
        if r["violation"]:
            v = r["violation"]
            cur = viol.get(r["sub"])
            if cur is None or len(json.dumps(v["case"])) < len(json.dumps(cur["case"])):
                viol[r["sub"]] = v
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=SEED, level="exploration",
              coverage=dict(evaluations=sum(p["cases"] for p in per_sub.values()),
                            distinct_nontrivial=len(hashes), rule=rule,
                            samples=samples[:12] or [dict(sub="none", case="no non-trivial sample recorded")],
                            elementary_evaluations=sum(p["elementary"] for p in per_sub.values()),
                            per_sub=per_sub, known_finding_hits=dict(known)),
              assumptions=list(level_assumptions), wall_s=round(wall, 2), violations=len(viol))
    ev["coverage"]["samples"] = samples[:12]
    if only is None:
        with open(os.path.join(EVIDENCE, f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{prop} tier={tier} seed={SEED}: {ev['coverage']['evaluations']} cases, "
          f"{ev['coverage']['elementary_evaluations']} elementary evaluations, {len(hashes)} distinct non-trivial, {wall:.1f} s")
    for s, p in per_sub.items():
        print(f"  {s}: {p['cases']} cases, {p['elementary']} elementary, {p['nontrivial_distinct']} non-trivial, "
              f"skipped {p['skipped_after_time_budget']}; {dict(sorted(p['classes'].items()))}")
    for k in known_defs.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for s, v in viol.items():
        path = os.path.join(rdir, f"{prop}-{s}.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, sub=s, case=v["case"], message=v["msg"]), f, indent=1)
        print(f"  [{s}] {v['msg']}\n    case: {json.dumps(v['case'])[:2000]}")
        print(f"VIOLATION property={prop} replay={path}")
    if viol:
        return 1
    if errors:
        for s, e in errors[:3]:
            print(f"HARNESS ERROR in {s}:\n{e}")
        return 2
    return 0
