"""Runs cosim scripts of a scratch copy of the repository (see checks/c29.py): cosim_drive.py TREE SCRIPT STEPS-AS-JSON

Whatever the scripts try to write, delete or start outside TREE is refused and reported.
"""
import json, os, random, runpy, sys, warnings
import numpy as np

tree, script, steps = os.path.realpath(sys.argv[1]), sys.argv[2], json.loads(sys.argv[3])
path = os.path.join(tree, script)
refused = []
EVENTS = {"os.remove", "os.rmdir", "os.mkdir", "os.rename", "os.link", "os.symlink", "os.truncate", "os.chmod", "os.chown", "shutil.rmtree",
          "shutil.move", "open"}


def audit(event, args):
    if event in ("os.system", "subprocess.Popen", "os.exec", "os.posix_spawn", "os.fork"):
        refused.append(event)
        raise PermissionError("refused by the check")
    if event not in EVENTS:
        return
    if event == "open" and (not isinstance(args[0], (str, bytes)) or not (args[2] or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)):
        return
    for x in args[:2] if event in ("os.rename", "os.link", "shutil.move") else args[1:2] if event == "os.symlink" else args[:1]:
        if isinstance(x, (str, bytes, os.PathLike)):
            p = os.fsdecode(x)
            if not os.path.isabs(p):
                fd = args[-1]
                base = os.readlink(f"/proc/self/fd/{fd}") if isinstance(fd, int) and fd > 2 and event != "open" else os.getcwd()
                p = os.path.join(base, p)
            p = os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))
            if not p.startswith(tree + os.sep) and p != "/dev/null":
                refused.append(f"{event} {p}")
                raise PermissionError("refused by the check")


class Interrupted(BaseException):
    pass


left = [None]       # how many files may still be opened for writing in this step


def audit_interrupt(event, args):
    if event == "open" and left[0] is not None and isinstance(args[0], (str, bytes)) and (args[2] or 0) & (os.O_WRONLY | os.O_RDWR):
        left[0] -= 1
        if left[0] < 0:
            left[0] = None
            raise Interrupted


warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
sys.addaudithook(audit)
sys.addaudithook(audit_interrupt)
loaded = {}


def spoil(kind, seed):
    """What a user may have done to the data since the last run."""
    d = os.path.join(os.path.dirname(path), "data")
    files = sorted(os.listdir(d)) if kind and os.path.isdir(d) else []
    pick = random.Random(seed).sample(files, min(5, len(files)))
    for f in files if kind in (2, 4) else pick:
        f = os.path.join(d, f)
        if os.path.isdir(f):
            continue
        if kind == 1:
            os.remove(f)
        elif kind == 2:
            os.truncate(f, 0)
        elif kind == 4:
            with open(f, "a") as h:
                h.write("1\n")
        else:
            os.rename(f, f + ".old")


try:
    for s in steps:
        os.chdir(os.path.join(tree, s["cwd"]))
        random.seed(s["seed"])
        np.random.seed(s["seed"])
        spoil(s.get("spoil", 0), s["seed"])
        for f in s.get("fake", []):
            with open(os.path.join(os.path.dirname(path), "data", f), "w") as h:
                h.write("# made up\n1\n")
        left[0] = s.get("stop")         # the run is interrupted when it opens one more file
        try:
            if s["how"] == "script":
                runpy.run_path(os.path.relpath(path) if s["rel"] else path, run_name="__main__")
            elif s["how"] == "runner":
                sys.path.insert(1, os.path.join(tree, "sim"))
                from cosim_runner import cosim_runner
                cosim_runner(False, os.path.dirname(path)).run()
            else:
                # the same loaded module again, as an interactive user does
                if "run" not in loaded:
                    sys.path.insert(1, os.path.dirname(path))
                    loaded.update(runpy.run_module("cosim"))
                loaded["run"]()
        except Interrupted:
            pass
        finally:
            left[0] = None
except PermissionError:
    if refused:
        print("REFUSED " + "; ".join(refused))
        sys.exit(3)
    raise
if refused:
    print("REFUSED " + "; ".join(refused))
    sys.exit(3)
