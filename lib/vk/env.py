"""Import environment: the real surface_sim from REPO plus the z3 bindings."""
import os, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
Z3_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

sys.dont_write_bytecode = True
os.environ["SURFACE_SIM_VERIF"] = "1"  # hook: every repository module records the file it was loaded from
if REPO not in sys.path:
    sys.path.insert(0, REPO)
import importlib.util as _iu

if _iu.find_spec("z3") is None and Z3_SITE not in sys.path:
    sys.path.append(Z3_SITE)


class CheckError(Exception):
    """The check itself cannot give an answer (inconclusive solver, counterexample that does not replay, ...)."""


def import_repo():
    import surface_sim

    path = os.path.realpath(surface_sim.__file__)
    if not path.startswith(os.path.realpath(REPO) + os.sep):
        raise CheckError(f"surface_sim imported from {path}, not from {REPO}")
    return surface_sim


def sources():
    """Files of the repository modules under judgement (recorded by the hook, else by the import system)."""
    root = os.path.realpath(REPO) + os.sep
    out = set()
    for name, mod in list(sys.modules.items()):
        if name.split(".")[0] == "surface_sim" and mod is not None:
            f = getattr(mod, "__verif_source__", None) or getattr(mod, "__file__", None)
            if f is None:
                continue
            f = os.path.realpath(f)
            if not f.startswith(root):
                raise CheckError(f"{name} imported from {f}, not from {REPO}")
            out.add(f[len(root):])
    return sorted(out)
