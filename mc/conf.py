"""Both build configurations of the current tree, side by side in one process."""
import sys

from . import repo

_CONF = None


def conf():
    """(compiled modules, fallback modules), both from the current tree."""
    global _CONF
    if _CONF is None:
        out = []
        for comp in (True, False):
            if comp and getattr(sys.modules.get("geoana"), "compiled", None):
                g = sys.modules["geoana"]
            else:
                g = repo.use(comp)
            import geoana.kernels as k
            import geoana.gravity as gr
            import geoana.em.static as st
            import geoana.em.fdem as fd
            out.append({"geoana": g, "k": k, "gravity": gr, "static": st, "fdem": fd})
        _CONF = out
    return _CONF
