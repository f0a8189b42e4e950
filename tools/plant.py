"""plant.py SPEC.py : builds a planted bug in a scratch copy, confirms it, stores it as /verif/seeded/<id>/.

SPEC.py defines ID, META (property, needs, what_it_breaks), EDITS [(path, old, new)], DEMO (python source).
plant.py --run ID PROP : runs the quick check of PROP against the planted bug in a scratch copy."""
import json, os, pathlib, shutil, subprocess, sys

V = pathlib.Path(__file__).resolve().parent.parent
BASE = "d7be910"


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def scratch(name):
    d = pathlib.Path("/tmp/plant") / name
    shutil.rmtree(d, ignore_errors=True)
    d.parent.mkdir(exist_ok=True)
    subprocess.check_call(["cp", "-a", "/repo", str(d)])
    return d


def demo(folder, cwd):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH="")
    return sh(["bash", str(folder / "demo.sh")], cwd=cwd, env=env)


def make(path):
    ns = {}
    exec(open(path).read(), ns)
    ident = ns["ID"]
    d = scratch(ident)
    for p, old, new, *nth in ns["EDITS"]:
        f = d / p
        s = open(f, newline="").read()
        crlf = "\r\n" in s
        if crlf:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if nth:
            parts = s.split(old)
            k = nth[0] + 1
            s = old.join(parts[:k]) + new + old.join(parts[k:])
        else:
            assert s.count(old) == 1, (p, s.count(old), old)
            s = s.replace(old, new)
        open(f, "w", newline="").write(s)
    diff = subprocess.run(["git", "diff"], cwd=d, capture_output=True).stdout
    # every removed line must be of the original repository
    for p in {e[0] for e in ns["EDITS"]}:
        cur = None
        for line in sh(["git", "diff", "-U0", "--", p], cwd=d).stdout.splitlines():
            if line.startswith("@@"):
                a = line.split()[1][1:].split(",")
                n = int(a[1]) if len(a) > 1 else 1
                if n:
                    b = sh(["git", "blame", "-l", "-s", "-L", f"{a[0]},+{n}", "HEAD", "--", p], cwd=d).stdout
                    for x in b.splitlines():
                        c = x.split()[0].lstrip("^")
                        if sh(["git", "merge-base", "--is-ancestor", c, BASE], cwd=d).returncode:
                            print("WARNING touches a line of a fix:", x)
    out = V / "seeded" / ident
    shutil.rmtree(out, ignore_errors=True)
    out.mkdir(parents=True)
    (out / "patch.diff").write_bytes(diff)
    (out / "demo.py").write_text("import os, sys\nsys.path.insert(0, os.getcwd())\n" + ns["DEMO"].lstrip("\n"))
    (out / "demo.sh").write_text('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    (out / "meta.json").write_text(json.dumps(ns["META"], indent=1) + "\n")
    ok = True
    r0, r1 = demo(out, "/repo"), demo(out, d)
    print("demo unchanged:", r0.returncode, r0.stderr[-300:], " with bug:", r1.returncode, (r1.stdout + r1.stderr)[-200:])
    ok &= r0.returncode == 0 and r1.returncode != 0
    for script in ("build", "test"):
        src = open(f"/opt/vp/{script}.sh").read().replace("cd /repo", f"cd {d}").replace('"/repo"', f'"{d}"').replace('"/repo/"', f'"{d}/"')
        (d.parent / f"{ident}.{script}.sh").write_text(src)
    res = d.parent / f"{ident}.json"
    b = sh(["bash", str(d.parent / f"{ident}.build.sh")], env=dict(os.environ, PYTHONPATH=str(d)))
    ok &= b.returncode == 0
    t = sh(["bash", str(d.parent / f"{ident}.test.sh"), str(res)], env=dict(os.environ, PYTHONPATH=str(d)))
    base = json.load(open("/opt/vp/BASELINE.json"))
    got = json.load(open(res))
    stable = set(base["passed"] if "passed" in base else base["stable"])
    missing = sorted(stable - set(got["passed"]))
    print("build", b.returncode, b.stderr[-300:], "tests missing:", missing[:5])
    ok &= not missing
    print(ident, "KEPT" if ok else "REJECTED")
    if not ok:
        shutil.rmtree(out)
    return ok


def run(ident, props):
    d = scratch(ident)
    subprocess.check_call(["git", "apply", str(V / "seeded" / ident / "patch.diff")], cwd=d)
    for p in props:
        r = sh(["bash", str(V / "run.sh"), p, "quick"], env=dict(os.environ, VERIF_REPO=str(d)))
        first = [l for l in (r.stdout + r.stderr).splitlines() if l.strip()][:2]
        print(f"{ident} {p}: exit {r.returncode}", *[x[:200] for x in first], sep="\n   ", flush=True)
    shutil.rmtree(d)


if __name__ == "__main__":
    if sys.argv[1] == "--run":
        run(sys.argv[2], sys.argv[3:] or [json.load(open(V / "seeded" / sys.argv[2] / "meta.json"))["property"]])
    else:
        bad = [p for p in sys.argv[1:] if not make(p)]
        for p in pathlib.Path("/tmp/plant").glob("*"):
            shutil.rmtree(p) if p.is_dir() else p.unlink()
        sys.exit(bool(bad))
