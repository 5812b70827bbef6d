"""The extensions compiled with a scheduling point at every memory access, and a scheduler for them."""
import ctypes
import fcntl
import glob
import importlib.util
import json
import os
import shlex
import subprocess
import threading

from . import repo

HERE = os.path.dirname(os.path.abspath(__file__))
FLAGS = ["-O1", "-g0", "-fPIC", "-w", "-fsanitize-coverage=edge,trace-pc,trace-loads,trace-stores"]


def build():
    """Instrumented copies of the extensions of the current tree (from the sources generated by the normal build)."""
    bdir = repo.build()
    out = os.path.join(bdir, "sched")
    done = os.path.join(out, "DONE")
    with open(os.path.join(repo.CACHE, "lock-sched"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(done):
            return out
        os.makedirs(out, exist_ok=True)
        objs = {}
        for e in json.load(open(os.path.join(bdir, "compile_commands.json"))):
            if not e["output"].endswith(".o"):
                continue
            args = [a for a in shlex.split(e["command"]) if a.startswith(("-I", "-D", "-std"))]
            ext = os.path.basename(os.path.dirname(e["output"]))[:-2]
            obj = os.path.join(out, ext + "." + os.path.basename(e["output"]))
            cc = "clang" if e["file"].endswith(".c") else "clang++"
            run([cc, *args, *FLAGS, "-c", e["file"], "-o", obj], e["directory"])
            objs.setdefault(ext, []).append(obj)
        for ext, oo in objs.items():
            run(["clang++", "-shared", *oo, "-o", os.path.join(out, ext)], out)
        run(["clang", "-O1", "-fPIC", "-shared", "-pthread", os.path.join(HERE, "sched.c"), "-o", os.path.join(out, "libsched.so")], out)
        open(done, "w").close()
    return out


def run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise repo.BuildError("%s failed:\n%s" % (" ".join(cmd), r.stdout[-2000:]))


def load():
    """(scheduler library, {module name: instrumented module})"""
    out = build()
    lib = ctypes.CDLL(os.path.join(out, "libsched.so"), mode=ctypes.RTLD_GLOBAL)
    lib.mc_disarm.restype = lib.mc_timeouts.restype = ctypes.c_long
    lib.mc_arm.argtypes = [ctypes.c_int, ctypes.c_long]
    mods = {}
    for p in sorted(glob.glob(os.path.join(out, "*.so"))):
        name = os.path.basename(p).split(".")[0]
        if name == "libsched":
            continue
        spec = importlib.util.spec_from_file_location(repo.EXT + name, p)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        mods[name] = m
    return lib, mods


class Native:
    def __init__(self, lib):
        self.lib = lib

    def count(self, f):
        """Scheduling points of one call."""
        self.lib.mc_arm(1, -1)
        f()
        return self.lib.mc_disarm()

    def run(self, f, g, i, j=-1):
        """f to its event i; g to its event j (-1: to its end); f to its end; g to its end."""
        lib, res = self.lib, {}
        lib.mc_reset()

        def body():
            lib.mc_g_wait()
            lib.mc_arm(2, j)
            try:
                res["g"] = ("ok", g())
            except Exception as e:
                res["g"] = ("raised", "%s: %s" % (type(e).__name__, e))
            finally:
                lib.mc_disarm()
                lib.mc_g_end()
        th = threading.Thread(target=body, daemon=True)
        th.start()
        lib.mc_arm(1, i)
        try:
            res["f"] = ("ok", f())
        except Exception as e:
            res["f"] = ("raised", "%s: %s" % (type(e).__name__, e))
        finally:
            lib.mc_disarm()
            lib.mc_f_end()
        th.join(60)
        if th.is_alive():
            res["g"] = ("raised", "never finished")
        return res
