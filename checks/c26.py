"""C26 Cosim runners under generated thread schedules.

Threads run one at a time under a scheduler that follows a generated schedule: each thread stops before every byte code of the
runner and every line of a cosim script, and goes on when the schedule picks it. A thread that is given a turn but does not
arrive at its next stop within a short time waits for a lock; the others go on then.
"""
import importlib.util, os, shutil, sys, threading, types
from hypothesis import strategies as st
import core, gen
from core import Sub, Violation

COPIES = [("sim/cosim_runner.py", "cosim_runner"), ("lib/en_tb/sim/cosim_runner.py", "CosimRunner")]
BLOCKED_S, STUCK_S = 0.004, 20
EXCS = ["RuntimeError", "RuntimeError", "AssertionError", "KeyError", "AttributeError", "OSError", "StopIteration", "SystemExit", "KeyboardInterrupt"]
RETS = ["None", "None", "False", "True", "0", "'done'"]
CONFIGS = ["absent", "None", "0", "{}", "{'N_TESTS': 7}", "[1, 'x']", "False"]
SCRIPT = '''
import verif_hist
ID = {id!r}
{config}
LOADED = verif_hist.event("load", ID)
if {load_fail}:
    raise {exc}("cosim cannot be loaded")
left = {fail}
def run():
    global left
    verif_hist.event("start", ID)
    n = 0
    for i in range({lines}):
        n += i
    if left > 0:
        left -= 1
        verif_hist.event("fail", ID)
        raise {exc}("cosim failed")
    n += 1
    verif_hist.event("end", ID)
    return {ret}
'''


class Abort(BaseException):
    pass


class Worker:
    def __init__(self, sched, name, job, files):
        self.sched, self.name, self.job, self.files = sched, name, job, files
        self.state = "ready"        # ready: stopped, running: has a turn (or waits for a lock), done
        self.go = False
        self.error = None
        self.t = threading.Thread(target=self.main, daemon=True)

    def stop_point(self):
        s = self.sched
        with s.cv:
            self.state = "ready"
            s.cv.notify_all()
            while not self.go:
                if s.abort:
                    raise Abort
                s.cv.wait()
            self.go = False

    def trace(self, frame, event, arg):
        f = frame.f_code.co_filename
        if f == self.files[0]:
            frame.f_trace_opcodes = True
            return self.local
        if f.startswith(self.files[1]):
            return self.local
        return None

    def local(self, frame, event, arg):
        if event in ("line", "opcode"):
            self.stop_point()
        return self.local

    def main(self):
        try:
            self.stop_point()
            sys.settrace(self.trace)
            try:
                self.job()
            finally:
                sys.settrace(None)
        except Abort:
            pass
        except BaseException as e:
            self.error = e
        with self.sched.cv:
            self.state = "done"
            self.sched.cv.notify_all()


class Scheduler:
    def __init__(self, jobs, files):
        self.cv = threading.Condition()
        self.abort = False
        self.steps = self.switches = self.blocked = 0
        self.workers = [Worker(self, f"thread {i}", j, files) for i, j in enumerate(jobs)]

    def turn(self, w):
        """One step of a ready worker. Returns whether it stopped again (False: finished or blocked)."""
        with self.cv:
            w.state, w.go = "running", True
            self.cv.notify_all()
            self.steps += 1
            if not self.cv.wait_for(lambda: w.state != "running", BLOCKED_S):
                self.blocked += 1
                return False
            return w.state == "ready"

    def ready(self):
        with self.cv:
            if all(w.state == "done" for w in self.workers):
                return []
            ok = self.cv.wait_for(lambda: any(w.state == "ready" for w in self.workers) or
                                  all(w.state == "done" for w in self.workers), STUCK_S)
            if not ok:
                raise Violation("deadlock: " + ", ".join(f"{w.name} {w.state}" for w in self.workers))
            return [w for w in self.workers if w.state == "ready"]

    def go(self, schedule):
        for w in self.workers:
            w.t.start()
        try:
            k = 0
            while True:
                r = self.ready()
                if not r:
                    break
                who, burst = schedule[k] if k < len(schedule) else (k, 2000)
                k += 1
                w = r[who % len(r)]
                self.switches += 1
                while burst > 0 and self.turn(w):
                    burst -= 1
        finally:
            with self.cv:
                self.abort = True
                self.cv.notify_all()
            for w in self.workers:
                w.t.join(5)


class History:
    def __init__(self):
        self.log, self.lock = [], threading.Lock()

    def event(self, *e):
        with self.lock:
            self.log.append(e)


_loaded = {}


class Lock:
    """A lock whose timed waits end at once when it is taken: a cosim can take longer than any timeout."""
    def __init__(self, make=threading.Lock):
        self.lock = make()

    def acquire(self, blocking=True, timeout=-1):
        return self.lock.acquire(bool(blocking) and timeout < 0)

    __enter__ = acquire

    def __exit__(self, *_):
        self.lock.release()

    def __getattr__(self, name):
        return getattr(self.lock, name)


def RLock():
    return Lock(_make_rlock)


_make_rlock = threading.RLock
_threading = types.ModuleType("threading")
_threading.__dict__.update(threading.__dict__, Lock=Lock, RLock=RLock)


def runner_module(copy):
    if copy not in _loaded:
        path = os.path.join(core.REPO, COPIES[copy][0])
        spec = importlib.util.spec_from_file_location(f"verif_cosim_runner_{copy}", path)
        m = importlib.util.module_from_spec(spec)
        sys.modules["threading"] = _threading
        try:
            spec.loader.exec_module(m)
        finally:
            sys.modules["threading"] = threading
        _loaded[copy] = (m, getattr(m, COPIES[copy][1]), path)
    return _loaded[copy]


turns = st.tuples(gen.ints(0, 7), st.one_of(gen.ints(1, 12), gen.ints(1, 60), gen.ints(1, 400)))
# a few long turns: one or two preemptions anywhere
long_turns = st.tuples(gen.ints(0, 3), st.sampled_from(range(1, 90)))


def schedules(n):
    return st.one_of(st.lists(turns, max_size=n), st.lists(long_turns, min_size=2, max_size=4))


_names = [0]


class Scene:
    """A directory of generated cosim scripts and the history they write."""
    def __init__(self, scripts, module):
        _names[0] += 1
        self.dir = os.path.join(core.scratch_private(), f"cosim{_names[0]}")
        self.paths = []
        self.hist = History()
        sys.modules["verif_hist"] = types.SimpleNamespace(event=self.hist.event)
        for i, s in enumerate(scripts):
            d = os.path.join(self.dir, f"c{i}")
            os.makedirs(d)
            cfg = "" if s["config"] == "absent" else f"COSIM_CONFIG = {s['config']}"
            with open(os.path.join(d, module + ".py"), "w") as f:
                f.write(SCRIPT.format(id=i, config=cfg, fail=s["fail"], lines=s["lines"],
                                      load_fail=s.get("load_fail", 0), exc=s.get("exc", "RuntimeError"), ret=s.get("ret", "None")))
            self.paths.append(d)

    def close(self):
        for p in self.paths:
            sys.path_importer_cache.pop(p, None)
        shutil.rmtree(self.dir, ignore_errors=True)


def check_history(log, i, enabled, calls):
    """calls: number of run() calls for runner i. The history of one cosim."""
    ev = [e for e in log if e[1] == i]
    running = complete = False
    for e in ev:
        k = e[0]
        if k == "start":
            if not enabled:
                raise Violation(f"a disabled runner executed its cosim: {log}")
            if running:
                raise Violation(f"two executions of cosim {i} overlap: {log}")
            if complete:
                raise Violation(f"cosim {i} was executed again after it had completed: {log}")
            running = True
        elif k in ("end", "fail"):
            running = False
            complete |= k == "end"
        elif k == "return":
            if e[2] is not True:
                raise Violation(f"run() of runner {i} returned {e[2]!r}, expected True: {log}")
            if enabled and not complete:
                raise Violation(f"run() of runner {i} returned before the cosim was complete: {log}")
    returns = sum(e[0] == "return" for e in ev)
    raised = sum(e[0] == "raised" for e in ev)
    fails = sum(e[0] == "fail" for e in ev)
    if returns + raised != calls:
        raise Violation(f"{calls} calls of run() of runner {i}, {returns} returned and {raised} raised: {log}")
    if raised and not fails:
        raise Violation(f"run() of runner {i} raised though the cosim did not fail: {log}")


def script():
    return st.fixed_dictionaries(dict(config=st.sampled_from(CONFIGS), lines=gen.ints(0, 3), fail=st.sampled_from([0, 0, 0, 0, 1, 2]), exc=st.sampled_from(EXCS), ret=st.sampled_from(RETS)))


@st.composite
def run_case(draw):
    n = draw(gen.ints(1, 2))
    return dict(copy=draw(gen.ints(0, 1)), module=draw(st.sampled_from(["cosim", "cosim", "verif_gen_data"])),
                scripts=[draw(script()) for _ in range(n)], disable=[int(draw(gen.ints(0, 4)) == 0) for _ in range(n)],
                threads=[[draw(gen.ints(0, n - 1)) for _ in range(draw(gen.ints(1, 2)))] for _ in range(draw(gen.ints(1, 4)))],
                sched=draw(schedules(14)))


def is_error(e, text):
    """Whether e is the error with this text, perhaps inside another one."""
    while e is not None:
        if e.args == (text,):
            return True
        e = e.__cause__ or e.__context__
    return False


def call_run(hist, i, r):
    try:
        v = r.run()
    except Abort:
        raise
    except BaseException as e:
        if not is_error(e, "cosim failed"):
            raise
        hist.event("raised", i)
    else:
        hist.event("return", i, v)


def run_run(c):
    m, cls, path = runner_module(c["copy"])
    s = Scene(c["scripts"], c["module"])
    try:
        log = s.hist.log
        before = list(sys.path)
        runners = [cls(bool(d), p) if c["module"] == "cosim" else cls(bool(d), p, c["module"]) for d, p in zip(c["disable"], s.paths)]
        if sys.path != before:
            raise Violation(f"creating a runner changed sys.path by {set(sys.path) ^ set(before)}")
        if any(e[0] != "load" for e in log):
            raise Violation(f"creating a runner executed its cosim: {log}")
        configs(c, runners, range(len(runners)))
        if any(e[0] != "load" for e in log):
            raise Violation(f"get_config executed a cosim: {log}")
        def job(ids):
            def f():
                for i in ids:
                    call_run(s.hist, i, runners[i])
            return f
        sch = Scheduler([job(ids) for ids in c["threads"]], (path, s.dir))
        sch.go(c["sched"])
        for w in sch.workers:
            if w.error is not None:
                raise Violation(f"{w.name}: {type(w.error).__name__}: {w.error}; history {log}")
        for i in range(len(runners)):
            check_history(log, i, not c["disable"][i], sum(t.count(i) for t in c["threads"]))
    finally:
        s.close()
    n = sum(len(t) for t in c["threads"])
    together = max(sum(i in t for t in c["threads"]) for i in range(len(runners)))
    tags = [f"elems={n}", f"threads{len(c['threads'])}"] + ["waited-for-lock"] * (sch.blocked > 0) + \
        ["failing"] * any(x["fail"] for x in c["scripts"]) + ["disabled"] * any(c["disable"])
    if together > 1 and len(c["sched"]) > 1 and not all(c["disable"]):
        tags.append("nontrivial")
    return tags


def configs(c, runners, ids):
    for r, i in zip(runners, ids):
        text = c["scripts"][i]["config"]
        exp = None if text == "absent" else eval(text)
        try:
            got = r.get_config()
        except Exception as e:
            raise Violation(f"get_config of a cosim with COSIM_CONFIG {text}: {type(e).__name__}: {e}")
        if type(got) is not type(exp) or got != exp:
            raise Violation(f"get_config of cosim {i} = {got!r}, expected {exp!r}")


@st.composite
def make_case(draw):
    n = draw(gen.ints(2, 4))
    return dict(copy=draw(gen.ints(0, 1)), module="cosim", scripts=[dict(draw(script()), fail=0, load_fail=int(draw(gen.ints(0, 7)) == 0)) for _ in range(n)],
                disable=[int(draw(gen.ints(0, 4)) == 0) for _ in range(n)], pre=draw(st.lists(st.tuples(gen.ints(0, 3), st.booleans()), max_size=3)), sched=draw(schedules(14)))


def run_make(c):
    """Runners of equally named cosims created (and run) by concurrent threads."""
    m, cls, path = runner_module(c["copy"])
    s = Scene(c["scripts"], "cosim")
    n = len(s.paths)
    out = [None] * n
    broken = [x.get("load_fail", 0) for x in c["scripts"]]
    original = list(sys.path)
    for i, first in c["pre"]:
        # the paths of some cosims are in sys.path from the start
        sys.path.insert(1 if first else len(sys.path), s.paths[i % n])
    before = list(sys.path)
    try:
        def job(i):
            def f():
                try:
                    out[i] = cls(bool(c["disable"][i]), s.paths[i])
                except Abort:
                    raise
                except BaseException as e:
                    if not is_error(e, "cosim cannot be loaded") or not broken[i]:
                        raise
                    s.hist.event("refused", i)
                    return
                s.hist.event("made", i)
                call_run(s.hist, i, out[i])
            return f
        sch = Scheduler([job(i) for i in range(n)], (path, s.dir))
        try:
            sch.go(c["sched"])
            after = list(sys.path)
        finally:
            sys.path[:] = original
        log = s.hist.log
        for w in sch.workers:
            if w.error is not None:
                raise Violation(f"{w.name}: {type(w.error).__name__}: {w.error}; history {log}")
        if after != before:
            raise Violation(f"sys.path was {before} and is {after} after all runners were created")
        ok = [i for i in range(n) if not broken[i]]
        configs(c, [out[i] for i in ok], ok)
        for i in range(n):
            if broken[i] and ("refused", i) not in log:
                raise Violation(f"the error of cosim {i}, which cannot be loaded, did not reach the caller: {log}")
        for i in ok:
            ev = [e[0] for e in log if e[1] == i]
            if ev.count("load") != 1 or ev.index("load") > ev.index("made") or ("start" in ev and ev.index("start") < ev.index("made")):
                raise Violation(f"history of cosim {i}: {ev}")
            check_history(log, i, not c["disable"][i], 1)
            if not c["disable"][i] and "end" not in ev:
                raise Violation(f"cosim {i} was not executed: {log}")
    finally:
        s.close()
    return [f"elems={n}", f"threads{n}"] + ["waited-for-lock"] * (sch.blocked > 0) + ["nontrivial"] * (len(c["sched"]) > 1) + ["load-fails"] * any(broken) + ["in-path"] * bool(c["pre"])


SUBS = [
    Sub("run", run_case(), run_run, 3000, 60000),
    Sub("create", make_case(), run_make, 2000, 20000),
]
RULE = ("distinct cases with a schedule of two or more turns in which two or more threads call an enabled runner, or create runners of equally named cosims")

if __name__ == "__main__":
    raise SystemExit(core.main("C26", SUBS, RULE, ["a thread that waits for a lock is one that does not go on for 4 ms; this affects which "
                                                  "schedules are explored, not what is reported"]))
