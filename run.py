#!/opt/venv/bin/python
"""run.py <PROPERTY> [--tier quick|thorough]   decide one property
run.py <PROPERTY> --replay FILE               replay a recorded counterexample on the real code"""
import argparse, glob, importlib.util, json, os, sys, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
sys.dont_write_bytecode = True


def load(prop):
    paths = glob.glob(os.path.join(HERE, "checks", prop.lower() + "*.py"))
    if len(paths) != 1:
        sys.exit(f"no check for {prop}")
    spec = importlib.util.spec_from_file_location("check_" + prop, paths[0])
    mod = importlib.util.module_from_spec(spec)
    sys.modules[spec.name] = mod
    spec.loader.exec_module(mod)
    return mod


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from vk import sym

    sym.install_math()
    from vk import env, report

    try:
        env.import_repo()
        mod = load(a.prop)
        if a.replay:
            d = json.load(open(a.replay))
            msg = mod.replay(d["case"])
            print("REPRODUCED: " + str(msg) if msg else "not reproduced")
            return 1 if msg else 0
        ck = report.Check(a.prop, a.tier, seed, mod)
        try:
            mod.run(ck)
        except Exception as e:
            # violations already confirmed by replay stand; otherwise the check has no answer
            if not ck.violations:
                raise
            ck.notes.append("aborted after a violation: " + repr(e)[:300])
        return ck.finish()
    except Exception:
        traceback.print_exc()
        print(f"ERROR property={a.prop}: no answer")
        return 2


if __name__ == "__main__":
    sys.exit(main())
