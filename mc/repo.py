"""Build /repo's native code from its working tree and import geoana from /repo.

The extensions are built out of tree with meson + ninja, in a directory named after
the content of every file that takes part in the native build, so that a changed
source can never be answered by a stale object.  The Python files are imported from
/repo directly.
"""
import fcntl
import glob
import hashlib
import importlib.util
import os
import shutil
import subprocess
import sys

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".cache")
EXT = "geoana.kernels._extensions."


class BuildError(Exception):
    pass


def _native_files():
    out = []
    for top, dirs, files in os.walk(os.path.join(REPO, "geoana")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".pyx", ".pxd", ".pxi", ".c", ".cpp", ".cxx", ".h", ".hpp")) or f == "meson.build":
                out.append(os.path.join(top, f))
    for f in ("meson.build", "meson.options", "pyproject.toml"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return out


def native_hash(extra=""):
    h = hashlib.sha256()
    h.update(sys.version.encode() + extra.encode())
    for p in _native_files():
        h.update(os.path.relpath(p, REPO).encode() + b"\0")
        with open(p, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    # a new or removed python file changes meson's install lists only, not the objects
    return h.hexdigest()[:20]


def build(sanitize=None):
    """Build the extensions of the current working tree; return the build directory."""
    os.makedirs(CACHE, exist_ok=True)
    tag = native_hash(sanitize or "")
    bdir = os.path.join(CACHE, "ext-" + tag)
    done = os.path.join(bdir, "DONE")
    with open(os.path.join(CACHE, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(done):
            return bdir
        if os.path.isdir(bdir):
            shutil.rmtree(bdir)
        # old builds of other trees are only scratch
        for old in glob.glob(os.path.join(CACHE, "ext-*")):
            if old != bdir and not sanitize:
                shutil.rmtree(old, ignore_errors=True)
        env = dict(os.environ)
        env["PATH"] = "/opt/venv/bin:" + env.get("PATH", "/usr/bin:/bin")
        env.setdefault("SETUPTOOLS_SCM_PRETEND_VERSION", "1.0.0")
        args = ["meson", "setup", bdir, REPO, "-Dwith_extensions=true"]
        if sanitize:
            args += ["-Dcpp_args=-fsanitize=%s -g" % sanitize, "-Dcpp_link_args=-fsanitize=%s" % sanitize]
        for cmd in (args, ["ninja", "-C", bdir]):
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise BuildError("%s failed:\n%s" % (" ".join(cmd), r.stdout[-4000:]))
        open(done, "w").close()
    return bdir


class _ExtFinder:
    """Finds the freshly built extensions, or none at all when `bdir` is None."""

    def __init__(self, bdir):
        self.bdir = bdir

    def find_spec(self, name, path=None, target=None):
        if not name.startswith(EXT):
            return None
        mod = name[len(EXT):]
        if self.bdir is None:
            raise ImportError("compiled extensions are switched off in this configuration")
        hits = glob.glob(os.path.join(self.bdir, "geoana/kernels/_extensions", mod + ".*.so"))
        if not hits:
            return None
        return importlib.util.spec_from_file_location(name, hits[0])


def use(compiled=True, bdir=None):
    """Make `import geoana` load /repo's python files and the built extensions."""
    sys.dont_write_bytecode = True
    if compiled and bdir is None:
        bdir = build()
    sys.meta_path[:] = [
        f for f in sys.meta_path
        if "editable" not in (getattr(type(f), "__module__", "") or "").lower()
        and "Meson" not in type(f).__name__ and not isinstance(f, _ExtFinder)
    ]
    sys.meta_path.insert(0, _ExtFinder(bdir if compiled else None))
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    for m in [m for m in sys.modules if m == "geoana" or m.startswith("geoana.")]:
        del sys.modules[m]
    import geoana
    assert geoana.__file__.startswith(REPO + "/"), geoana.__file__
    assert bool(geoana.compiled) == bool(compiled), "compiled=%r" % geoana.compiled
    return geoana
