"""C20: layouts that share anything are rejected, disjoint ones accepted."""
from itertools import combinations

import z3

from vk import fam, rel, sym

LEVEL = "other"
EXPLANATION = (
    "Layouts are built from definitions with symbolic integer indices, symbolic real coordinates and symbolically chosen qubit and "
    "logical labels (each from an alphabet large enough for all equal/unequal patterns), or generated with symbolic origins and first "
    "indices, and the real overlap check runs on them (every set membership test becomes a solver-decided fork). On every accepting "
    "path the solver shows that no two layouts share anything, on every rejecting path that two do, for all values. The two-block "
    "gate preparation is run the same way on generated pairs: it accepts no overlapping or differently sized pair."
)


def spec(case):
    """Per layout: list of qubits (label, index, coordinates) and logical labels."""
    return [([(q, i, tuple(c)) for q, i, c in l["qubits"]], l["logical"]) for l in case["layouts"]]


def build(l):
    from surface_sim import Layout

    qs = []
    for q, i, c in l["qubits"]:
        qs.append(dict(qubit=q, ind=i, coords=list(c), role="data", neighbors={}))
    return Layout(dict(layout=qs, logical_qubit_labels=list(l["logical"]), log_z={x: [] for x in l["logical"]}, log_x={x: [] for x in l["logical"]}))


def term(x):
    return x.term if type(x) in (sym.SymReal, sym.SymInt) else z3.RealVal(str(x))


def shares(sp):
    out = []
    for (a, la), (b, lb) in combinations(sp, 2):
        if set(la) & set(lb):
            out.append(z3.BoolVal(True))
        for (q, i, c) in a:
            for (p, j, d) in b:
                if q == p:
                    out.append(z3.BoolVal(True))
                out.append(sym.tobool(i == j))
                if len(c) == len(d):
                    out.append(z3.And([term(x) == term(y) for x, y in zip(c, d)]))
    return z3.Or(out) if out else z3.BoolVal(False)


def distinct(l):
    """Within one layout indices differ (the constructor requires it)."""
    return [z3.Not(sym.tobool(a[1] == b[1])) for a, b in combinations(l["qubits"], 2)]


def accepts(lays):
    from surface_sim.layouts import check_overlap_layouts

    try:
        check_overlap_layouts(*lays)
    except (sym.CheckError, sym.PathAbort):
        raise
    except Exception:
        return False
    return True


def gate_accepts(case, lays):
    from surface_sim import log_gates

    mod = log_gates.rot_surface_code_css if case["kind"] == "rot" else log_gates.unrot_surface_code_css
    try:
        mod.set_trans_cnot(*lays)
    except (sym.CheckError, sym.PathAbort):
        raise
    except Exception as e:
        return False
    return True


def generated(case):
    """Layouts of a generated case; numbers in the case may be symbolic."""
    out = []
    for k, g in enumerate(case["generated"]):
        out.append(fam.code(g["kind"], g["dx"], g["dz"], logical_qubit_label=g["label"], init_point=tuple(g["origin"]),
                            init_data_qubit_id=g["ids"], init_zanc_qubit_id=g["ids"], init_xanc_qubit_id=g["ids"], init_ind=g["ind"]))
    return out


def gspec(lays):
    return [([(q, l.qubit_inds()[q], tuple(l.param("coords", q))) for q in l.get_qubits()], l.get_logical_qubits()) for l in lays]


def replay(case):
    if "generated" in case:
        lays = generated(case)
        sp = gspec(lays)
    else:
        lays = [build(l) for l in case["layouts"]]
        sp = spec(case)
    want = z3.is_true(z3.simplify(shares(sp)))
    if case.get("gate"):
        same = all((g["dx"], g["dz"], g["kind"]) == (case["generated"][0]["dx"], case["generated"][0]["dz"], case["kind"]) for g in case["generated"])
        ok = gate_accepts(case, lays)
        if ok != (same and not want):
            return f"the two-block gate is {'accepted' if ok else 'rejected'} (overlap: {want}, same size: {same})"
        return None
    ok = accepts(lays)
    if ok == want:
        return f"layouts {sp} are {'accepted' if ok else 'rejected'}"
    return None


def concretise(case, m):
    def f(x):
        if type(x) is sym.SymInt:
            return int(m.eval(x.iterm, model_completion=True).as_long())
        if type(x) is sym.SymReal:
            return float(sym.model_value(m, x.term))
        if isinstance(x, dict):
            return {k: f(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [f(v) for v in x]
        return x

    return f(case)


def one(ck, item):
    kind, arg = item
    ck.covers("layouts.operations.check_overlap_layouts", "layouts.operations.check_overlap_layout_pair", "layouts.layout.Layout.get_inds",
              "layouts.layout.Layout.get_coords", "layouts.layout.Layout.get_qubits", "layouts.layout.Layout.get_logical_qubits")
    if kind == "gate":
        ck.covers("log_gates.rot_surface_code_css.set_trans_cnot", "log_gates.unrot_surface_code_css.set_trans_cnot")
    ex = sym.Explorer()
    box = {}

    def body():
        if kind == "custom":
            sizes, free, perm = arg
            lays, n = [], 0
            for k, s in enumerate(sizes):
                qs = []
                for j in range(s):
                    lab = sym.choose(["A", "B", "C"]) if "labels" in free else f"q{n}"
                    if any(q[0] == lab for q in qs):
                        raise sym.PathAbort
                    ind = sym.SymInt(f"i{n}") if "inds" in free else n
                    c = [sym.SymReal(f"x{n}"), sym.SymReal(f"y{n}")] if "coords" in free else [n, n % 2]
                    qs.append((lab, ind, c))
                    n += 1
                logical = sym.choose([["L0"], ["L1"], ["L2", "L0"], []]) if "logical" in free else [f"L{k}"]
                lays.append(dict(qubits=qs, logical=logical))
            lays = [lays[p] for p in perm]
            case = dict(layouts=lays)
            box["case"] = case
            for l in lays:
                for c in distinct(l):
                    ex.assume(c)
            return accepts([build(l) for l in lays]), shares(spec(case)), True
        gens = [dict(g) for g in arg["generated"]]
        for k, g in enumerate(gens):
            if arg["free"] == "origin":
                g["origin"] = (sym.SymReal(f"x{k}"), sym.SymReal(f"y{k}"))
            elif arg["free"] == "ind":
                g["ind"] = sym.SymInt(f"i{k}")
            elif arg["free"] == "names":
                g["label"] = sym.choose(["L0", "L1"])
                g["ids"] = sym.choose([1, 2, 40])
        case = dict(generated=gens, kind=arg["kind"], gate=kind == "gate")
        box["case"] = case
        lays = generated(case)
        sp = gspec(lays)
        same = len({(g["dx"], g["dz"]) for g in gens}) == 1 and all(g["kind"] == arg["kind"] for g in gens)
        if kind == "gate":
            return gate_accepts(case, lays), shares(sp), same
        return accepts(lays), shares(sp), True

    for ok, sh, same in ex.run(body):
        ck.programs += 1
        ck.obligations += 1
        m = ex.model(sh if ok and same else z3.BoolVal(True) if ok else z3.And(z3.Not(sh), z3.BoolVal(same)))
        if m is None:
            ck.discharged += 1
        else:
            ck.violation(concretise(box["case"], m), f"{'overlapping' if ok else 'disjoint'} layouts are {'accepted' if ok else 'rejected'}")
    ck.paths += ex.paths


def configs(ck):
    out = []
    for sizes in ((1, 1), (1, 2), (2, 2), (2, 1, 1), (1, 1, 1), (1, 1, 1, 1), (3, 2)):
        perms = {tuple(range(len(sizes))), tuple(range(len(sizes)))[::-1]}
        for perm in sorted(perms):
            for free in (("labels",), ("inds",), ("coords",), ("logical",), ("inds", "coords"), ("labels", "logical"), ("labels", "inds", "coords", "logical")):
                n = sum(sizes)
                if len(free) > 1 and n > (4 if ck.thorough else 3):
                    continue
                if "labels" in free and n > 4:
                    continue
                if "coords" in free and n > 4 and not ck.thorough:
                    continue
                out.append(("custom", (sizes, free, perm)))
    out.append(("custom", ((2,), ("inds",), (0,))))

    def gen(kind, dx, dz, k):
        return dict(kind=kind, dx=dx, dz=dz, label=f"L{k}", origin=(1 + 50 * k, 1), ids=1 + 100 * k, ind=100 * k)

    for a, b in ((("rot", 2, 2), ("rot", 2, 2)), (("rot", 2, 2), ("unrot", 2, 2)), (("rot", 2, 3), ("rot", 2, 2))):
        for free in ("origin", "ind", "names"):
            out.append(("generated", dict(kind="rot", free=free, generated=[gen(*a, 0), gen(*b, 1)])))
    out.append(("generated", dict(kind="rot", free="names", generated=[gen("rot", 2, 2, 0), gen("rot", 2, 2, 1), gen("rot", 2, 2, 2)])))
    for kind in ("rot", "unrot"):
        s = [(2, 2), (2, 3), (3, 2)]
        for x in s:
            for y in s:
                for free in ("ind", "names"):
                    out.append(("gate", dict(kind=kind, free=free, generated=[gen(kind, *x, 0), gen(kind, *y, 1)])))
        o = "unrot" if kind == "rot" else "rot"
        out.append(("gate", dict(kind=kind, free="none", generated=[gen(kind, 2, 2, 0), gen(o, 2, 2, 1)])))
        out.append(("gate", dict(kind=kind, free="none", generated=[gen(o, 2, 2, 0), gen(o, 2, 2, 1)])))
        for shift in ((0, 0), (1, 1), (2, 2), (0, 4), (1, 0), (0.5, 0), (4, 4), (40, 0)):
            g = [gen(kind, 2, 2, 0), dict(gen(kind, 2, 2, 1), origin=(1 + shift[0], 1 + shift[1]))]
            out.append(("gate", dict(kind=kind, free="none", generated=g)))
    return out


def run(ck):
    it = configs(ck)
    ck.bounds = {"families": len(it), "layouts": "1..4", "qubits": "1..3 per custom layout; generated 2x2 and 2x3 codes", "indices": "all integers",
                 "coordinates": "all reals", "labels": "all equal/unequal patterns over a three-letter alphabet"}
    ck.assumptions.append("equality of coordinates in exact real arithmetic; gate preparation with symbolic first index and label choice, "
                          "concrete relative placements")
    ck.sample(str(it[0]))
    ck.pmap(one, it, chunk=1)
