"""C30 results depend on the arguments alone: not on earlier calls, not on other threads; no global setting is changed."""
import os, sys, threading, warnings
from hypothesis import strategies as st
import core, gen, model as M
from core import Sub, Violation
import pkgcalls as P

sys.pycache_prefix = os.path.join(core.scratch(), "pyc")      # every case imports the package anew
sys.dont_write_bytecode = False
import pyapi
sys.path.insert(0, os.path.join(core.VERIF, "checks"))
UNARY = ["round", "saturate", "resize", "in_range", "from_real", "to_real", "from_integer", "to_integer"]


@st.composite
def case_unary(draw):
    a = draw(gen.fmts(max_w=90, far=False))
    return dict(fn=draw(st.sampled_from(UNARY)), a=a, r=draw(gen.rel_fmts(a, max_w=90)), rF=a[2] + draw(gen.ints(-6, 2)),
                rnd=draw(gen.rounds), sat=draw(gen.sats), x=draw(st.lists(gen.raw(a), min_size=1, max_size=4)), lay=draw(gen.layouts))


@st.composite
def case_history(draw):
    return dict(steps=draw(P.steps(case_unary(), 8)), reuse=draw(st.booleans()), keep=draw(st.booleans()), spoil=draw(st.booleans()))


@st.composite
def case_same(draw):
    return dict(steps=draw(P.same_data()), reuse=False, keep=True, spoil=False)


def reference(steps, warn):
    """Each step as the first call of a new instance of the package."""
    memo, out = {}, []
    for s in steps:
        d = core.digest(s)
        if d not in memo:
            K = P.fresh()
            memo[d] = P.execute(K, s, P.Env(K), warn)[0]
        out.append(memo[d])
    return out


def describe(s):
    c = s.get("c", s)
    return f"{s['k']} " + " ".join(f"{k}={v}" for k, v in c.items() if k != "k")


def run_history(c):
    g = P.Settings()
    try:
        return history(c, g)
    finally:
        g.restore()


def history(c, g):
    ref = reference(c["steps"], True)
    g.check("one of " + "; ".join(map(describe, c["steps"])), any(s["k"] == "rand" for s in c["steps"]))
    K = P.fresh()
    env = P.Env(K, c["reuse"], c["keep"])
    for i, s in enumerate(c["steps"]):
        got, returned = P.execute(K, s, env)
        if got != ref[i]:
            raise Violation(f"call {i} ({describe(s)}) gives {got} after {i} other calls, {ref[i]} as the first call")
        g.check(f"call {i} ({describe(s)})", s["k"] == "rand")
        if c["spoil"]:
            P.spoil(returned)
            P.spoil(env.given)
    n = len(c["steps"])
    return [f"elems={n}"] + sorted({s["k"] for s in c["steps"]}) + ["error"] * any("error" in r for r in ref) + \
        ["warning"] * any(r["warnings"] for r in ref) + ["nontrivial"] * (n > 1)


# ------------------------------------------------------------------------------------------------------------------ threads

class Abort(BaseException):
    pass


class Worker:
    """A thread that runs only in its turns; a turn ends after a number of lines of package code."""
    def __init__(self, job):
        self.job, self.go, self.state, self.budget, self.error = job, threading.Semaphore(0), "ready", 0, None
        self.abort = False

    def start(self, main):
        self.main = main
        self.t = threading.Thread(target=self.body, daemon=True)
        self.t.start()

    def local(self, frame, event, arg):
        if event == "line":
            self.budget -= 1
            if self.budget <= 0:
                self.stop()
        return self.local

    def trace(self, frame, event, arg):
        return self.local if frame.f_code.co_filename.startswith(P.HOME) else None

    def stop(self):
        self.state = "ready"
        self.main.release()
        self.go.acquire()
        if self.abort:
            raise Abort
        self.state = "running"

    def body(self):
        self.go.acquire()
        self.state = "running"
        try:
            if not self.abort:
                sys.settrace(self.trace)
                try:
                    self.job()
                finally:
                    sys.settrace(None)
        except Abort:
            pass
        except BaseException as e:
            self.error = e
        self.state = "done"
        self.main.release()


def interleave(jobs, schedule):
    main = threading.Semaphore(0)
    ws = [Worker(j) for j in jobs]
    for w in ws:
        w.start(main)
    k = switches = idle = 0
    try:
        while True:
            live = [w for w in ws if w.state != "done"]
            if not live:
                break
            r = [w for w in live if w.state == "ready"]
            if not r:           # all wait for something
                if not main.acquire(timeout=5):
                    idle += 1
                    if idle > 3:
                        raise Violation("deadlock of threads that use the package")
                continue
            who, burst = schedule[k] if k < len(schedule) else (0, 1 << 40)
            k += 1
            w = r[who % len(r)]
            w.budget = burst
            w.state = "running"
            w.go.release()
            switches += 1
            main.acquire(timeout=5 if len(live) == 1 else 0.2)     # a thread that does not come back waits for a lock; go on with another one
    finally:
        for w in ws:
            w.abort = True
            w.go.release()
        for w in ws:
            w.t.join(10)
    for w in ws:
        if w.error is not None:
            raise w.error
    return switches


turns = st.tuples(gen.ints(0, 3), st.one_of(gen.ints(1, 10), gen.ints(1, 60), gen.ints(1, 250)))


@st.composite
def case_threads(draw):
    n = draw(gen.ints(2, 3))
    first = draw(P.steps(case_unary(), 3, False))
    threads = [first]
    for _ in range(n - 1):
        t = []
        for s in first[:draw(gen.ints(1, 3))]:
            for _ in range(draw(gen.ints(0, 2))):
                s = draw(P.changed(s, case_unary()))
            if P.legal(s):
                t.append(s)
        threads.append(t or draw(P.steps(case_unary(), 3, False)))
    return dict(threads=threads, sched=draw(st.lists(turns, min_size=2, max_size=40)), shared=draw(st.booleans()))


def run_threads(c):
    flat = [s for t in c["threads"] for s in t]
    ref = iter(reference(flat, False))
    refs = [[next(ref) for _ in t] for t in c["threads"]]
    K = P.fresh()
    got = [[] for _ in c["threads"]]
    arrays, objects = {}, {}

    def job(i):
        env = P.SharedEnv(K, arrays, objects) if c["shared"] else P.Env(K)

        def f():
            for s in c["threads"][i]:
                got[i].append(P.execute(K, s, env, False)[0])
        return f
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        n = interleave([job(i) for i in range(len(got))], c["sched"])
    for i, t in enumerate(c["threads"]):
        for s, a, b in zip(t, got[i], refs[i]):
            if a != b:
                raise Violation(f"thread {i}: {describe(s)} gives {a} while other threads use the package, {b} alone")
    return [f"elems={len(flat)}", f"threads{len(got)}"] + ["nontrivial"] * (n > len(got))


SUBS = [Sub("history", case_history(), run_history, 9000, 120000),
        Sub("same-data", case_same(), run_history, 6000, 80000),
        Sub("threads", case_threads(), run_threads, 4000, 50000)]
if __name__ == "__main__":
    sys.exit(core.main("C30", SUBS, "a history of at least two calls (often variations or repetitions of one another); for threads: at least one "
                       "switch between threads in the middle of a call",
                       ["a turn of a thread ends at a line of package code; switches inside one line are not explored"]))
