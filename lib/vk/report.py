"""Check bookkeeping: solver queries, counterexamples with replay, known findings, evidence file, exit code."""
from . import env
import json
import os
import sys
import time
import traceback

import z3

from .env import CheckError, VERIF
from . import sym


_JOB = None


def _worker(idx):
    ck, fn, items = _JOB
    c = Check(ck.prop, ck.tier, ck.seed, ck.module)
    c.t0, c.deadline, c.known = ck.t0, ck.deadline, ck.known
    sym.Stats.queries = sym.Stats.time = sym.Stats.sat = sym.Stats.unsat = 0
    for i in idx:
        c.attempt(fn, items[i])
    return {
        **{a: getattr(c, a) for a in ("obligations", "discharged", "programs", "paths", "witness", "functions", "samples", "notes",
                                      "degraded", "violations", "undecided", "tried")},
        "findings": [(ck.known.index(k), m) for k, m in c.findings_hit],
        "stats": (sym.Stats.queries, sym.Stats.time, sym.Stats.sat, sym.Stats.unsat),
    }


class Check:
    def __init__(self, prop, tier, seed, module):
        self.prop, self.tier, self.seed, self.module = prop, tier, seed, module
        self.t0 = time.time()
        self.obligations = 0
        self.discharged = 0
        self.programs = 0
        self.paths = 0
        self.functions = set()
        self.bounds = {}
        self.assumptions = []
        self.samples = []
        self.violations = []
        self.findings_hit = []
        self.witness = 0
        self.notes = []
        self.degraded = []
        self.undecided = 0
        self.tried = 0
        self.known = []
        path = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(path):
            for line in open(path):
                line = line.strip()
                if line:
                    d = json.loads(line)
                    if d.get("property") == prop and d.get("status") == "known":
                        self.known.append(d)
        budget = 780 if tier == "quick" else 6 * 3600
        self.deadline = self.t0 + float(os.environ.get("VERIF_BUDGET", budget))

    @property
    def thorough(self):
        return self.tier == "thorough"

    def time_left(self):
        return self.deadline - time.time()

    def covers(self, *names):
        self.functions.update(names)

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    # ---------------------------------------------------------------- solver
    def refute(self, *conds, timeout_ms=120000, solver=None):
        """One obligation: the conjunction of conds (the negated property) must be unsatisfiable.
        Returns None when refuted, else a z3 model."""
        self.obligations += 1
        s = solver or z3.Solver()
        if solver is None:
            s.set("timeout", timeout_ms)
        else:
            s.push()
        for c in conds:
            s.add(sym.tobool(c))
        r = sym.check(s)
        m = s.model() if r == z3.sat else None
        if solver is not None:
            s.pop()
        if m is None:
            self.discharged += 1
        return m

    def refute_affine(self, symbols, exprs):
        """exprs: affine expressions that must all be 0 for every value of the symbols.
        Returns None or (index of a failing expr, symbol assignment)."""
        exprs = list(exprs)
        self.obligations += 1
        s = z3.Solver()
        s.set("timeout", 120000)
        ts = [symbols.z3(e) for e in exprs]
        s.add(z3.Or(ts) if ts else z3.BoolVal(False))
        if sym.check(s) == z3.unsat:
            self.discharged += 1
            return None
        m = s.model()
        vals = symbols.from_model(m)
        for k, e in enumerate(exprs):
            v = e & 1
            for i, b in vals.items():
                if b and e >> i & 1:
                    v ^= 1
            if v:
                return k, {symbols.names[i]: int(b) for i, b in vals.items() if e >> i & 1}
        raise CheckError("solver model does not falsify any expression")

    def reach(self, cond):
        """Vacuity guard: cond must be satisfiable."""
        s = z3.Solver()
        s.set("timeout", 60000)
        s.add(sym.tobool(cond))
        if sym.check(s) != z3.sat:
            raise CheckError("vacuous harness: reachability witness is unsatisfiable")
        self.witness += 1

    # ---------------------------------------------------------------- violations
    def violation(self, case, message):
        """case: JSON-able concrete counterexample understood by module.replay(case)."""
        case = json.loads(json.dumps(case, default=str))
        for v in self.violations:
            if v["case"] == case:
                return
        if len(self.violations) >= 25:
            return
        saved = sym.Explorer.current
        sym.Explorer.current = None
        try:
            msg = self.module.replay(case)
        except CheckError:
            raise
        finally:
            sym.Explorer.current = saved
        if not msg:
            # the encoding, not the code, is at fault: this case is left undecided and reported as such, never as a violation
            note = f"counterexample does not replay on the real code: {message} | {json.dumps(case)[:600]}"
            if note not in self.degraded and len(self.degraded) < 40:
                self.degraded.append(note)
                print("NOTE undecided case: " + note[:500])
            return
        for k in self.known:
            if all(case.get(a) == b for a, b in k["case"].items()):
                if len(self.findings_hit) < 500:
                    self.findings_hit.append((k, message))
                return
        self.violations.append({"case": case, "message": message, "replayed": str(msg)})

    def guard(self, case, fn, *a, **kw):
        """Run real code on a valid request; an exception is a candidate violation (case must replay it)."""
        try:
            return True, fn(*a, **kw)
        except CheckError:
            raise
        except Exception as e:
            self.violation(case, f"valid request raised {type(e).__name__}: {e}")
            return False, None

    # ---------------------------------------------------------------- parallel
    def attempt(self, fn, item):
        """Decide one item. Where the encoding cannot follow the code the item is undecided: noted, never an alarm."""
        self.tried += 1
        before = len(self.violations)
        for again in (False, True):
            try:
                fn(self, item)
                return
            except Exception as e:
                sym.Explorer.current = None
                if len(self.violations) > before:
                    return
                if not again and not sym.shadowed and "concretisation" in str(e):
                    sym.shadow_numbers()
                    continue
                self.undecided += 1
                note = "undecided: " + repr(item)[:300] + ": " + traceback.format_exc()[-700:]
                if len(self.degraded) < 40:
                    self.degraded.append(note)
                return

    def pmap(self, fn, items, procs=None, chunk=None):
        """fn(ck, item) for every item in forked workers; counters and violations are merged."""
        import multiprocessing as mp

        items = list(items)
        procs = procs or int(os.environ.get("VERIF_PROCS", "8"))
        if procs <= 1 or len(items) <= 1:
            for it in items:
                self.attempt(fn, it)
            return
        global _JOB
        _JOB = (self, fn, items)
        ctx = mp.get_context("fork")
        n = chunk or max(1, min(16, len(items) // (procs * 4)))
        parts = [list(range(i, min(i + n, len(items)))) for i in range(0, len(items), n)]
        with ctx.Pool(procs, maxtasksperchild=None) as pool:
            results = pool.imap_unordered(_worker, parts)
            for done in range(len(parts)):
                try:
                    res = results.next(timeout=max(1, self.time_left()))
                except mp.TimeoutError:
                    self.degraded.append(f"time budget used up: {done} of {len(parts)} batches decided, the rest not looked at")
                    print("NOTE " + self.degraded[-1])
                    pool.terminate()
                    break
                for a in ("obligations", "discharged", "programs", "paths", "witness", "undecided", "tried"):
                    setattr(self, a, getattr(self, a) + res[a])
                self.functions |= res["functions"]
                for a in ("samples", "notes", "degraded"):
                    lst = getattr(self, a)
                    for x in res[a]:
                        if x not in lst and len(lst) < 40:
                            lst.append(x)
                for v in res["violations"]:
                    if len(self.violations) < 25 and all(w["case"] != v["case"] for w in self.violations):
                        self.violations.append(v)
                for i, msg in res["findings"]:
                    self.findings_hit.append((self.known[i], msg))
                st = res["stats"]
                sym.Stats.queries += st[0]
                sym.Stats.time += st[1]
                sym.Stats.sat += st[2]
                sym.Stats.unsat += st[3]
                if len(self.violations) >= 25:
                    pool.terminate()
                    break

    # ---------------------------------------------------------------- end
    def finish(self):
        if self.undecided:
            print(f"NOTE {self.undecided} of {self.tried} items undecided, e.g. {next((d for d in self.degraded if d.startswith('undecided')), '')[:700]}")
            if self.undecided == self.tried and not self.violations:
                raise CheckError("no item could be decided")
        for k in self.known:
            hit = any(f[0] is k for f in self.findings_hit)
            if hit:
                print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.module.LEVEL,
            "coverage": {
                "explanation": self.module.EXPLANATION,
                "technique": "symbolic execution of the real code, assertions decided by an SMT/SAT solver",
                "obligations": self.obligations,
                "discharged": self.discharged,
                "programs": self.programs,
                "paths": self.paths,
                "solver_queries": sym.Stats.queries,
                "solver_sat": sym.Stats.sat,
                "solver_unsat": sym.Stats.unsat,
                "solver_time_s": round(sym.Stats.time, 3),
                "reachability_witnesses": self.witness,
                "functions_encoded": sorted(self.functions),
                "modules_loaded": env.sources(),
                "bounds": self.bounds,
                "samples": self.samples,
                "notes": self.notes,
                "degraded": self.degraded,
                "items": self.tried,
                "items_undecided": self.undecided,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, f".{self.prop}.json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(d, f"{self.prop}.json"))
        if self.violations:
            for n, v in enumerate(self.violations):
                rp = os.path.join(d, f"replay_{self.prop}_{n}.json")
                with open(rp, "w") as f:
                    json.dump({"property": self.prop, **v}, f, indent=1, default=str)
                if n < 5:
                    print(f"  {v['message'][:400]}")
                    print(f"VIOLATION property={self.prop} replay={rp}")
            return 1
        print(
            f"OK property={self.prop} tier={self.tier} obligations={self.obligations} discharged={self.discharged} "
            f"paths={self.paths} programs={self.programs} queries={sym.Stats.queries} "
            f"solver={sym.Stats.time:.1f}s wall={time.time()-self.t0:.1f}s"
        )
        return 0
