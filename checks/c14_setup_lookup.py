"""C14: noise-parameter lookup follows the documented precedence for all setups."""
from itertools import product

import z3

from vk import rel, sym

LEVEL = "other"
EXPLANATION = (
    "The real Setup is built from a definition whose every entry (global, per qubit, per pair; the parameter and its parent) is, by a "
    "symbolic choice, absent, an arbitrary symbolic real, or the name of one of two free parameters, and is then changed by symbolic "
    "sequences of set_param / set_var_param with fresh symbolic values. After every change every lookup (global, the qubit, both "
    "orders of the pair, an unrelated qubit) is executed; on every path the solver shows that the returned value equals that of an "
    "independent precedence function for all values, and that a lookup fails exactly when that function gives nothing."
)

PARENT = {
    "cz_error_prob": "tq_error_prob", "cnot_error_prob": "tq_error_prob", "swap_error_prob": "tq_error_prob",
    "h_error_prob": "sq_error_prob", "s_error_prob": "sq_error_prob", "sdag_error_prob": "sq_error_prob",
    "x_error_prob": "sq_error_prob", "z_error_prob": "sq_error_prob", "reset_error_prob": "sq_error_prob",
    "meas_error_prob": "sq_error_prob", "idle_error_prob": "sq_error_prob",
}
ORPHANS = ["assign_error_prob", "sq_error_prob", "tq_error_prob", "T1"]
OTHER = "assign_error_flag"
LOCS = {"global": (), "D1": ("D1",), "pair": ("D1", "Z1"), "riap": ("Z1", "D1"), "Z1": ("Z1",), "far": ("X7",)}
FREE = ["f", "sq_error_prob"]  # a free parameter may carry the name of a parameter


def second(param):
    return PARENT.get(param, "T2")


class Ref:
    """Independent statement of the precedence."""

    def __init__(self):
        self.given, self.free = {}, {}

    def lookup(self, param, loc):
        for where in ((loc, ()) if loc else ((),)):
            if (where, param) in self.given:
                v = self.given[where, param]
                if type(v) is str:
                    return self.free.get(v)
                return v
        if param in PARENT:
            return self.lookup(PARENT[param], loc)
        return None

    def names(self):
        return {v for v in self.given.values() if type(v) is str}


def entries(case, value):
    """The definition: one dictionary per location (globals split over two), as the case orders them."""
    ref = Ref()
    per = {}
    for key, kind in case["slots"].items():
        loc, which = key.split("/")
        if kind == "absent":
            continue
        param = {"a": case["param"], "b": second(case["param"])}[which]
        v = value(key) if kind == "real" else kind
        per.setdefault(loc, {})[param] = v
        ref.given[LOCS[loc], param] = v
    out = []
    if "global" in per:
        for p, v in per.pop("global").items():
            out.append({p: v})
    out.append({OTHER: True})
    ref.given[(), OTHER] = True
    for loc, d in per.items():
        q = LOCS[loc]
        head = {"qubit": q[0]} if len(q) == 1 else {"qubits": list(q)}
        out.append({**head, **d})
    if case.get("reverse"):
        # every other documented parameter gets a value of its own too
        for p in sorted({*PARENT, *ORPHANS} - {case["param"], second(case["param"])}):
            if p not in PARENT.values():
                v = ref.given[(), p] = value("all/" + p)
                out.append({p: v})
        out = out[::-1]
    for v in ref.names():
        ref.free[v] = None
    return out, ref


def apply(setup, ref, op, value, k):
    if op[0] == "var":
        v = value(f"op{k}")
        setup.set_var_param(op[1], v)
        ref.free[op[1]] = v
    elif op[0] == "set":
        _, param, loc, kind = op
        v = value(f"op{k}") if kind == "real" else kind
        setup.set_param(param, v, *LOCS[loc])
        ref.given[LOCS[loc], param] = v
        if type(v) is str:
            ref.free.setdefault(v, None)


def lookups(setup, ref, params):
    """Yields (what, got, want, exception)."""
    for loc, qs in LOCS.items():
        for p in params:
            want = ref.lookup(p, qs)
            try:
                got, exc = setup.param(p, *qs), None
            except (sym.CheckError, sym.PathAbort):
                raise
            except Exception as e:
                got, exc = None, e
            yield f"param({p}, {', '.join(qs)})", got, want, exc
    free = list(setup.free_params)
    for f in ref.names():
        unset = ref.free.get(f) is None
        if free.count(f) != int(unset):
            yield f"free_params lists {f} {free.count(f)} times", True, False, None
        if unset and f in PARENT:
            continue
        try:
            got, exc = setup.var_param(f), None
        except (sym.CheckError, sym.PathAbort):
            raise
        except Exception as e:
            got, exc = None, e
        yield f"var_param({f})", got, ref.free.get(f), exc


def scenario(case, value):
    """Yields (step, what, got, want, exception); the code under test may raise out of it."""
    from surface_sim import Setup

    d, ref = entries(case, value)
    setup = Setup({"setup": d})
    params = [case["param"], second(case["param"]), OTHER, "y_unknown"]
    if case["param"] == "sq_error_prob":
        params += ["h_error_prob"]
    for k in range(len(case["ops"]) + 1):
        if k:
            apply(setup, ref, case["ops"][k - 1], value, k)
        for r in lookups(setup, ref, params):
            yield (k, *r)


def wrong(got, want, exc):
    """None when certainly right, True when certainly wrong, else a z3 condition for wrong."""
    if want is None:
        return None if exc is not None else True
    if exc is not None:
        return True
    if type(want) in (sym.SymReal, sym.SymInt) or type(got) in (sym.SymReal, sym.SymInt):
        a, b = sym.toterm(got) if not isinstance(got, str) else None, sym.toterm(want) if not isinstance(want, str) else None
        return True if a is None or b is None else a != b
    return None if type(got) is type(want) and got == want else True


def replay(case):
    vals = case.get("values", {})
    try:
        for k, what, got, want, exc in scenario(case, lambda n: vals.get(n, 0.25)):
            if wrong(got, want, exc):
                return f"after {case['ops'][:k]} {what} gives {got if exc is None else repr(exc)} instead of {want}"
    except Exception as ex:
        if not rel.from_repo(ex):
            raise
        return f"raised {type(ex).__name__}: {ex}"
    return None


def one(ck, item):
    param, locs, kinds, opsets, reverse = item
    ck.covers("setup.setup.Setup.__init__", "setup.setup.Setup._load_setup", "setup.setup.Setup.param", "setup.setup.Setup.var_param",
              "setup.setup.Setup._eval_param_val", "setup.setup.Setup.set_param", "setup.setup.Setup.set_var_param",
              "setup.setup.Setup.free_params")
    ex = sym.Explorer()
    box, pend = {}, []

    def body():
        slots = {}
        for loc in locs:
            for which in "ab":
                slots[f"{loc}/{which}"] = sym.choose(kinds)
        ops = sym.choose(opsets)
        used = {k for k in slots.values() if k in FREE}
        for o in ops:
            if o[0] == "set" and o[3] in FREE:
                used.add(o[3])
            if o[0] == "var" and o[1] not in used:
                raise sym.PathAbort
        if not any(k != "absent" for k in slots.values()) and not ops:
            pass
        case = dict(param=param, slots=slots, ops=ops, reverse=reverse)
        names = []

        def value(n):
            names.append(n)
            return sym.SymReal(n)

        box.update(case=case, names=names)
        try:
            return list(scenario(case, value)), None
        except Exception as e:
            if not rel.from_repo(e):
                raise
            return None, e

    for res, exc in ex.run(body):
        ck.programs += 1
        case = box["case"]

        def concrete(m):
            return {**case, "values": {n: float(sym.model_value(m, z3.Real(n))) for n in set(box["names"])} if m is not None else {}}

        if exc is not None:
            ck.violation(concrete(ex.model()), f"valid definition or change raised {type(exc).__name__}: {exc}")
            continue
        conds, sure = [], None
        for k, what, got, want, e in res:
            w = wrong(got, want, e)
            if w is True:
                sure = sure or (k, what, got, want, e)
            elif w is not None:
                conds.append(w)
        if sure:
            ck.violation(concrete(ex.model()), f"step {sure[0]}: {sure[1]} gives {sure[2] if sure[4] is None else sure[4]!r} instead of {sure[3]}")
            continue
        if conds:
            pend.append((z3.And(*ex.solver.assertions(), z3.Or(conds)), case, list(box["names"])))
        if len(pend) >= 150:
            flush(ck, pend)
    flush(ck, pend)
    ck.paths += ex.paths


def flush(ck, pend):
    """One query: on some of these paths some lookup gives another value than required, for some values."""
    while pend:
        m = ck.refute(z3.Or([c for c, _, _ in pend]))
        if m is None:
            break
        for c, case, names in pend:
            if z3.is_true(m.eval(c, model_completion=True)):
                vals = {n: float(sym.model_value(m, z3.Real(n))) for n in set(names)}
                ck.violation({**case, "values": vals}, "a lookup gives another value than the precedence requires")
        pend[:] = [(c, x, y) for c, x, y in pend if not z3.is_true(m.eval(c, model_completion=True))]
    pend.clear()


def configs(ck):
    out = []
    for param in list(PARENT) + ORPHANS:
        b = second(param)
        for loc in ("D1", "pair", "riap"):
            single = [[]] + [[["set", p, l, k]] for p in (param, b) for l in ("global", loc, "far") for k in ("real", "f")] + [
                [["var", f]] for f in FREE]
            kinds = ["absent", "real"] + FREE
            for rev in (False, True):
                out.append((param, ["global", loc], kinds, single if not rev else [[]], rev))
            two = [[a[0], c[0]] for a, c in product(single[1:], single[1:]) if a[0][0] == "var" or c[0][0] == "var" or a[0][2] == c[0][2]]
            if ck.thorough:
                out.append((param, ["global", loc], kinds, two, False))
            else:
                out.append((param, ["global", loc], ["absent", "f"] if loc == "D1" else ["real", "f"], two, False))
        out.append((param, ["D1", "Z1", "pair"], ["absent", "real"] if not ck.thorough else ["absent", "real", "f"], [[]], False))
    return out


def run(ck):
    it = configs(ck)
    ck.bounds = {"scenario families": len(it), "entries": "global and one qubit or ordered pair (or two qubits and a pair), parameter and "
                 "parent each", "changes": "0..2 per history", "values": "all reals", "free parameters": 2}
    ck.assumptions.append("free parameters are not set to None; var_param of an unset free parameter that is named like a parameter with a parent is not judged")
    ck.sample(it[0])
    ck.pmap(one, it, chunk=1)
