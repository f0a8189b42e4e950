"""C02: labels, indices, coordinates and directions of generated layouts are consistent for every offset."""
import re
from fractions import Fraction

import z3

from vk import fam, rel, sym

LEVEL = "other"
EXPLANATION = (
    "The real generators run with symbolic first label numbers, first index (unbounded integers) and origin (reals or integers): "
    "labels become strings that contain the symbolic number in canonical form. The solver shows for all values that labels, coordinates "
    "and indices are unique, that indices are consecutive from the given one, that the layout is the default one with everything shifted, "
    "that neighbour relations are symmetric with opposite directions and that every direction has one geometric offset."
)
OPP = {"north": "south", "south": "north", "east": "west", "west": "east"}
IDS = (("D", "init_data_qubit_id"), ("X", "init_xanc_qubit_id"), ("Z", "init_zanc_qubit_id"))
TEXT = re.compile(r"^([A-Za-z]+)(-?\d+|<.*>)$")
TERM = re.compile(r"([+-]\d+)\*(\w+)")


def opposite(d):
    return "_".join(OPP[p] for p in d.split("_"))


def generate(case, kw):
    from surface_sim import layouts as L

    kw = dict(kw)
    if case.get("square"):
        return (L.rot_surface_code if case["kind"] == "rot" else L.unrot_surface_code)(distance=case["dx"], **kw)
    return fam.code(case["kind"], case["dx"], case["dz"], **kw)


def number(label):
    """(prefix, z3 integer) of a label."""
    m = TEXT.match(label)
    if not m:
        return None
    txt = m.group(2)
    if not txt.startswith("<"):
        return m.group(1), z3.IntVal(int(txt))
    lin = TERM.findall(txt)
    const = int(re.search(r"([+-]\d+)>$", txt).group(1))
    t = z3.IntVal(const)
    for c, v in lin:
        t = t + int(c) * z3.Int(v)
    return m.group(1), t


def iterm(v):
    return v.iterm if type(v) is sym.SymInt else z3.IntVal(int(v))


def claims(case, kw):
    """Yields (what, z3 condition under which the claim is false)."""
    F = z3.BoolVal(True)  # a claim that is false whatever the values
    base = fam.code(case["kind"], case["dx"], case["dz"])
    lay = generate(case, kw)
    ids = {p: kw.get(k, 1) for p, k in IDS}
    ind0 = kw.get("init_ind", 0)
    org0 = (1, 1) if case["kind"] == "rot" else (0, 0)
    org = kw.get("init_point", org0)

    def lab(q):
        return q if q is None else f"{q[0]}{int(q[1:]) - 1 + ids[q[0]]}"

    qs = lay.get_qubits()
    want = [lab(q) for q in base.get_qubits()]
    if len(set(qs)) != len(qs) or set(qs) != set(want):
        yield "the labels are not the default ones with shifted numbers", F
        return
    nums = [number(q) for q in qs]
    bad = [nums[a][1] == nums[b][1] for a in range(len(qs)) for b in range(a) if nums[a][0] == nums[b][0]]
    yield "labels are not unique", z3.Or(bad) if bad else z3.BoolVal(False)
    # indices
    inds = lay.qubit_inds()
    if set(inds) != set(qs):
        yield "some qubit has no index", F
        return
    offs = {q: z3.simplify(iterm(v) - iterm(ind0)) for q, v in inds.items()}
    o = list(offs.values())
    yield "indices are not consecutive from the first one", z3.Not(z3.And(z3.Distinct(*o), *[z3.And(x >= 0, x < len(o)) for x in o]))
    binds = base.qubit_inds()
    for q in base.get_qubits():
        w = lab(q)
        yield f"index of {q}", iterm(inds[w]) != binds[q] - min(binds.values()) + iterm(ind0)
    if [sym.tobool(a == b) for a, b in zip(lay.get_inds(qs), [inds[q] for q in qs])].count(z3.BoolVal(True)) != len(qs):
        yield "get_inds differs from qubit_inds", F
    yield "smallest index", iterm(lay.get_min_ind()) != iterm(ind0)
    yield "largest index", iterm(lay.get_max_ind()) != iterm(ind0) + len(qs) - 1
    # coordinates
    co = {q: [sym.toterm(c) for c in lay.param("coords", q)] for q in qs}
    cb = {q: base.param("coords", q) for q in base.get_qubits()}
    if any(len(c) != 2 or None in c for c in co.values()):
        yield "coordinates are not pairs of numbers", F
        return
    bad = [z3.And(co[a][0] == co[b][0], co[a][1] == co[b][1]) for i, a in enumerate(qs) for b in qs[:i]]
    yield "coordinates are not unique", z3.Or(bad) if bad else z3.BoolVal(False)
    for q in base.get_qubits():
        for k in (0, 1):
            yield f"coordinate {k} of {q}", co[lab(q)][k] != sym.toterm(org[k]) + sym.toterm(cb[q][k] - org0[k])
    for name, d in (("qubit_coords", lay.qubit_coords()), ("anc_coords", lay.anc_coords())):
        if set(d) != {q for q in qs if name[0] == "q" or lay.param("role", q) == "anc"} or any(
                not z3.is_true(z3.simplify(sym.toterm(x) == y)) for q, c in d.items() for x, y in zip(c, co[q])):
            yield f"{name} differs from the coordinates of the qubits", F
    # roles, neighbours, logical operators
    for q in base.get_qubits():
        w = lab(q)
        for p in ("role", "stab_type", "freq_group"):
            if base.param(p, q) != lay.param(p, w):
                yield f"{p} of {q} changes with the offsets", F
        nb = {d: lab(n) for d, n in base.param("neighbors", q).items()}
        if nb != dict(lay.param("neighbors", w)):
            yield f"neighbours of {q} change with the offsets", F
    label = kw.get("logical_qubit_label", "L0")
    if lay.get_logical_qubits() != [label]:
        yield "the logical qubit label is not the given one", F
    for name in ("log_x", "log_z"):
        if getattr(lay, name) != {label: [lab(q) for q in getattr(base, name)["L0"]]}:
            yield f"{name} changes with the offsets", F
    for name in ("interaction_order", "distance", "distance_x", "distance_z", "code"):
        if getattr(lay, name) != getattr(base, name):
            yield f"{name} changes with the offsets", F
    # symmetric relation, one offset per direction
    off = {}
    for q in qs:
        for d, n in lay.param("neighbors", q).items():
            got = lay.get_neighbors([q], direction=d)
            if got != ([] if n is None else [n]):
                yield f"get_neighbors of {q} in direction {d} gives {got} instead of {n}", F
            if n is None:
                continue
            if lay.param("neighbors", n).get(opposite(d)) != q:
                yield f"{n} is {d} of {q} but {q} is not {opposite(d)} of {n}", F
                continue
            v = [co[n][k] - co[q][k] for k in (0, 1)]
            if d in off:
                yield f"neighbours in direction {d} are not at one offset", z3.Or(v[0] != off[d][0], v[1] != off[d][1])
            else:
                for d2, u in off.items():
                    if d2 == opposite(d):
                        yield f"directions {d} and {d2} are not opposite", z3.Or(v[0] != -u[0], v[1] != -u[1])
                    else:
                        yield f"directions {d} and {d2} coincide", z3.And(v[0] == u[0], v[1] == u[1])
                off[d] = v
        if sorted(lay.get_neighbors([q])) != sorted(n for n in lay.param("neighbors", q).values() if n is not None):
            yield f"get_neighbors of {q}", F


def replay(case):
    kw = {k: (tuple(v) if k == "init_point" else v) for k, v in case["kw"].items()}
    try:
        for what, bad in claims(case, kw):
            b = z3.simplify(bad)
            if not z3.is_false(b) and not z3.is_true(b):
                raise sym.CheckError("claim with concrete values is not decided")
            if z3.is_true(b):
                return what
    except Exception as ex:
        if not rel.from_repo(ex):
            raise
        return f"raised {type(ex).__name__}: {ex}"
    return None


def symbols(case, ex=None):
    """The symbolic arguments (numbers restricted to a finite set when ex is given)."""
    kw = {}
    for k in case["free"]:
        if k == "init_point" and ex is not None:
            kw[k] = tuple(sym.choose([-2.5, 0.25, 1e6 + 0.125, 1.0]) if c == "real" else sym.choose([-7, 3]) if c == "int" else c for c in case["point"])
        elif k == "init_point":
            kw[k] = tuple(sym.SymReal(f"p{i}") if c == "real" else sym.SymInt(f"p{i}") if c == "int" else c for i, c in enumerate(case["point"]))
        elif k == "logical_qubit_label":
            kw[k] = "Q7"
        elif ex is None:
            kw[k] = sym.SymInt(k)
        else:
            kw[k] = sym.choose([-11, 9] if len(case["free"]) > 3 else [-11, 0, 1, 2, 9, 1000])
    return kw


def value(v, m):
    if type(v) is sym.SymInt:
        return m.eval(v.iterm, model_completion=True).as_long()
    if type(v) is sym.SymReal:
        return float(sym.model_value(m, v.term))
    if isinstance(v, tuple):
        return [value(x, m) for x in v]
    return v


def explore(ck, case, fallback):
    ex = sym.Explorer(max_paths=5000)
    box = {}

    def body():
        kw = box["kw"] = symbols(case, ex if fallback else None)
        try:
            return list(claims(case, kw))
        except (sym.CheckError, sym.PathAbort):
            raise
        except Exception as e:
            if not rel.from_repo(e):
                raise
            return [(f"valid request raised {type(e).__name__}: {e}", z3.BoolVal(True))]

    for cl in ex.run(body):
        ck.paths += 1
        ck.obligations += len(cl)
        m = ex.model(z3.Or([c for _, c in cl]))
        if m is None:
            ck.discharged += len(cl)
            continue
        far = [z3.Int(k) for _, k in IDS] + [z3.Int("init_ind"), z3.Int("p0"), z3.Int("p1"), z3.Real("p0") - z3.Q(1, 4), z3.Real("p1") - z3.Q(1, 2)]
        m = ex.model(z3.Or([c for _, c in cl]), *[v >= 100 * k + 50 for k, v in enumerate(far)], *[v <= 100 * k + 60 for k, v in enumerate(far)]) or m
        w = next(w for w, c in cl if z3.is_true(m.eval(c, model_completion=True)))
        c = {k: v for k, v in case.items() if k not in ("free", "point")}
        ck.violation(dict(c, kw={k: value(v, m) for k, v in box["kw"].items()}), w)
        if not ck.violations and not fallback:
            raise sym.CheckError("concretisation hidden in the labels")
        return


def one(ck, case):
    ck.covers("layouts.library.rot_surface_codes.*", "layouts.library.unrot_surface_codes.*", "layouts.library.util.*", "layouts.layout.Layout.*")
    ck.programs += 1
    try:
        explore(ck, case, False)
    except sym.CheckError as e:
        if "concretisation" not in str(e) and "path bound" not in str(e):
            raise
        ck.degraded.append(f"offsets restricted to a few values: {e}")
        explore(ck, case, True)


def configs(ck):
    th = ck.thorough
    out = []
    ints = [k for _, k in IDS] + ["init_ind"]
    for kind in ("rot", "unrot"):
        top = (7 if th else 4) if kind == "rot" else (5 if th else 4)
        sizes = [(a, b) for a in range(1, top + 1) for b in range(1, top + 1)] + [(2, 7), (6, 3)]
        for dx, dz in sizes:
            full = [*ints, "init_point", "logical_qubit_label"]
            variants = [(full, ("real", "real")), (full, ("int", "int")), (full, ("real", "int"))]
            if max(dx, dz) <= 3 or th:
                variants += [([k], ("real", "real")) for k in full] + [([], ())]
                variants += [([k for k in full if k != j], ("int", "real")) for j in full]
                variants += [(["init_point"], ("real", -3)), (["init_point"], (0.5, "int"))]
            for free, point in variants:
                out.append(dict(kind=kind, dx=dx, dz=dz, free=free, point=point))
                if dx == dz:
                    out.append(dict(kind=kind, dx=dx, dz=dz, free=free, point=point, square=True))
    return sorted(out, key=lambda c: -c["dx"] * c["dz"])


def run(ck):
    it = configs(ck)
    ck.bounds = {"layouts": len(it), "sizes": "1..4 in both directions, 2x7, 6x3 (thorough: rotated 1..7, unrotated 1..5)",
                 "offsets": "all integers for the label numbers and the first index, all reals / integers for the origin, together and one by one"}
    ck.assumptions.append("coordinates are compared as real numbers (the rounding of float origins is outside)")
    ck.sample(it[0])
    ck.pmap(one, it)
