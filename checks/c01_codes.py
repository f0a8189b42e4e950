"""C01: generated layouts are valid stabilizer codes with the declared distances."""
import z3

from vk import fam, rel, sym

LEVEL = "other"
EXPLANATION = (
    "For every code size within the bounds the real generator builds the layout and its real queries give stabilizers and logical "
    "operators. The solver then decides, over symbolic Pauli operators on all data qubits (4^n of them) and symbolic products of "
    "stabilizers, that the stabilizers commute and are independent, and that every Pauli that commutes with all stabilizers and acts as "
    "logical X (Z) touches at least distance_x (distance_z) data qubits; the declared operators are shown to attain it."
)


def code_of(case):
    """(data, X stabilizers, Z stabilizers, log_x, log_z, layout) as the layout's own queries state them."""
    from surface_sim import layouts as L

    kw = dict(case.get("kw") or {})
    if "init_point" in kw:
        kw["init_point"] = tuple(kw["init_point"])
    if case.get("square"):
        l = (L.rot_surface_code if case["kind"] == "rot" else L.unrot_surface_code)(distance=case["dx"], **kw)
    else:
        l = fam.code(case["kind"], case["dx"], case["dz"], **kw)
    D = l.get_qubits(role="data")
    st = {t: [l.get_neighbors([a]) for a in l.get_qubits(role="anc", stab_type=t)] for t in ("x_type", "z_type")}
    (lab,) = l.get_logical_qubits()
    return D, st["x_type"], st["z_type"], l.log_x[lab], l.log_z[lab], l


def xor(bits):
    bits = list(bits)
    r = z3.BoolVal(False)
    for b in bits:
        r = z3.Xor(r, b)
    return r


def shape(case):
    """Statically visible problems."""
    D, X, Z, lx, lz, l = code_of(case)
    d = set(D)
    A = l.get_qubits(role="anc")
    if len(X) + len(Z) != len(A) or len(D) + len(A) != len(l.get_qubits()) or len(d) != len(D):
        return "some qubit is neither a data qubit nor an ancilla of either type"
    for s in X + Z:
        if not s or len(set(s)) != len(s) or not set(s) <= d:
            return f"stabilizer support {s} is not a non-empty set of data qubits"
    for s in (lx, lz):
        if len(set(s)) != len(s) or not set(s) <= d:
            return f"logical operator {s} is not a set of data qubits"
    if len(A) != len(D) - 1:
        return f"{len(A)} stabilizers for {len(D)} data qubits"
    if l.distance_x != case["dx"] or l.distance_z != case["dz"]:
        return f"declared distances {l.distance_x}, {l.distance_z}"
    if l.distance != (case["dx"] if case["dx"] == case["dz"] else -1):
        return f"declared distance {l.distance}"
    if len(lx) != case["dx"] or len(lz) != case["dz"]:
        return f"logical operators of weight {len(lx)}, {len(lz)} for distances {case['dx']}, {case['dz']}"
    return None


def even(a, b):
    return len(set(a) & set(b)) % 2 == 0


def test(case):
    """Evaluates one concrete claim."""
    D, X, Z, lx, lz, l = code_of(case)
    w = case.get("what", "shape")
    if w == "shape":
        return shape(case)
    if w == "commute":
        for k, a in enumerate(X):
            for j, b in enumerate(Z):
                if not even(a, b):
                    return f"X stabilizer {k} and Z stabilizer {j} anticommute"
        for s, o in [(s, lz) for s in X] + [(s, lx) for s in Z]:
            if not even(s, o):
                return f"logical operator {o} anticommutes with the stabilizer {s}"
        return "log_x and log_z commute" if even(lx, lz) else None
    if w == "independent":
        S = X if case["type"] == "x" else Z
        acc = set()
        for k in case["subset"]:
            acc ^= set(S[k])
        return f"the product of the {case['type'].upper()} stabilizers {case['subset']} is the identity" if case["subset"] and not acc else None
    if w == "distance":
        xs, zs = set(case["x"]), set(case["z"])
        if any(not even(s, xs) for s in Z) or any(not even(s, zs) for s in X):
            return None
        acts, need = (not even(xs, lz), case["dx"]) if case["type"] == "x" else (not even(zs, lx), case["dz"])
        n = len(xs | zs)
        return f"undetected logical {case['type'].upper()} of weight {n} below the declared distance {need}" if acts and n < need else None
    raise KeyError(w)


def reject(case):
    """Sizes that are not positive are refused (case values may be symbolic); True when refused."""
    try:
        case = {k: v for k, v in case.items() if k != "what"}
        if case.get("square"):
            from surface_sim import layouts as L

            (L.rot_surface_code if case["kind"] == "rot" else L.unrot_surface_code)(distance=case["dx"])
        else:
            fam.code(case["kind"], case["dx"], case["dz"])
    except (sym.CheckError, sym.PathAbort):
        raise
    except Exception:
        return True
    return False


def sizes(ck, case):
    ck.covers("layouts.library.util._check_distance")
    ex = sym.Explorer()

    def body():
        c = dict(case)
        for k in ("dx", "dz"):
            if case[k] == "sym":
                c[k] = sym.SymInt(k)
        low = [z3.Int(k) <= 0 for k in ("dx", "dz") if case[k] == "sym"]
        ex.assume(z3.And(z3.Or(low), *[z3.Int(k) <= 2 for k in ("dx", "dz")]))
        return reject(c)

    for refused in ex.run(body):
        ck.paths += 1
        ck.obligations += 1
        if refused:
            ck.discharged += 1
            continue
        m = ex.model()
        ck.violation(dict(case, what="reject", **{k: m.eval(z3.Int(k), model_completion=True).as_long() for k in ("dx", "dz") if case[k] == "sym"}),
                     "a size that is not positive is accepted")
        return


def replay(case):
    if case.get("what") == "reject":
        return None if reject(case) else f"distances {case['dx']}, {case['dz']} are accepted"
    try:
        return test(case)
    except Exception as ex:
        if not rel.from_repo(ex):
            raise
        return f"raised {type(ex).__name__}: {ex}"


def one(ck, case):
    if case.get("what") == "reject":
        sizes(ck, case)
        return
    ck.covers("layouts.library.*", "layouts.layout.Layout._load_layout", "layouts.layout.Layout.get_qubits", "layouts.layout.Layout.get_neighbors")
    ck.programs += 1
    ok, D = ck.guard(case, code_of, case)
    if not ok:
        return
    D, X, Z, lx, lz, l = D
    ok, msg = ck.guard(case, shape, case)
    if msg:
        ck.violation(dict(case, what="shape"), msg)
        return
    n = len(D)
    xv = {q: z3.Bool(f"x_{q}") for q in D}
    zv = {q: z3.Bool(f"z_{q}") for q in D}
    # every Pauli in the X (Z) stabilizer group, and the logical operators, commutes with the Z (X) generators
    a, b = [z3.Bool(f"a{k}") for k in range(len(X))], [z3.Bool(f"b{k}") for k in range(len(Z))]
    px = {q: xor(a[k] for k, s in enumerate(X) if q in s) for q in D}
    pz = {q: xor(b[k] for k, s in enumerate(Z) if q in s) for q in D}
    bad = [xor(px[q] for q in s) for s in Z] + [xor(px[q] for q in lz), xor(pz[q] for q in lx)]
    bad += [z3.BoolVal(not even(s, lx)) for s in Z] + [z3.BoolVal(not even(s, lz)) for s in X] + [z3.BoolVal(even(lx, lz))]
    if ck.refute(z3.Or(bad)) is not None:
        ck.violation(dict(case, what="commute"), "stabilizers or logical operators do not have the required commutation relations")
        return
    for t, p, v, S in (("x", px, a, X), ("z", pz, b, Z)):
        if not v:
            continue
        m = ck.refute(z3.Or(v), *[z3.Not(p[q]) for q in D])
        if m is not None:
            sub = [k for k, s in enumerate(v) if z3.is_true(m.eval(s, model_completion=True))]
            ck.violation(dict(case, what="independent", type=t, subset=sub), "stabilizers are not independent")
            return
    syn = [z3.Not(xor(xv[q] for q in s)) for s in Z] + [z3.Not(xor(zv[q] for q in s)) for s in X]
    for t, d, acts in (("x", case["dx"], xor(xv[q] for q in lz)), ("z", case["dz"], xor(zv[q] for q in lx))):
        touched = [z3.Or(xv[q], zv[q]) for q in D]
        # cardinality as a totaliser: the solver gets plain SAT
        s = z3.Solver() if n < 10 else z3.Then("simplify", "propagate-values", "card2bv", "simplify", "bit-blast", "sat").solver()
        s.set("timeout", 600000)
        s.add(*syn, acts, z3.PbLe([(x, 1) for x in touched], d - 1))
        ck.obligations += 1
        if sym.check(s) == z3.unsat:
            ck.discharged += 1
        else:
            m = s.model()
            c = dict(case, what="distance", type=t)
            for k, vs in (("x", xv), ("z", zv)):
                c[k] = [q for q in D if z3.is_true(m.eval(vs[q], model_completion=True))]
            ck.violation(c, f"undetected logical {t.upper()} below the declared distance")
            return
        # attained: the declared operator is an undetected logical of that weight (shown above and by shape)
        op, vs = (lx, xv) if t == "x" else (lz, zv)
        ck.reach(z3.And(*syn, acts, *[v if (q in op and w is vs) else z3.Not(v) for w in (xv, zv) for q, v in w.items()]))


def configs(ck):
    th = ck.thorough
    out = []
    for kind in ("rot", "unrot"):
        top = (16 if th else 11) if kind == "rot" else (11 if th else 8)
        for dx in range(1, top + 1):
            for dz in range(1, top + 1):
                out.append(dict(kind=kind, dx=dx, dz=dz))
            out.append(dict(kind=kind, dx=dx, dz=dx, square=True))
        out.append(dict(kind=kind, dx=2, dz=20 if th else 12))
        out.append(dict(kind=kind, dx=20 if th else 12, dz=2))
        kw = dict(init_data_qubit_id=5, init_xanc_qubit_id=-3, init_zanc_qubit_id=40, init_ind=7, init_point=(-2.5, 3))
        out += [dict(kind=kind, dx=3, dz=2, kw=kw), dict(kind=kind, dx=3, dz=3, kw=kw, square=True)]
    out = sorted(out, key=lambda c: -c["dx"] * c["dz"])
    for kind in ("rot", "unrot"):
        out += [dict(kind=kind, dx=a, dz=b, what="reject", **kw) for a, b, kw in (("sym", "sym", {}), ("sym", 2, {}), (2, "sym", {}), ("sym", 1, dict(square=True)))]
    return out


def run(ck):
    it = configs(ck)
    ck.bounds = {"layouts": len(it), "sizes": "rotated 1..11, unrotated 1..8 in both directions (16 and 11 thorough), long ones 2x12 (2x20); all non-positive sizes are refused",
                 "Pauli operators": "all 4^n on the data qubits, symbolically"}
    ck.sample(it[0])
    ck.pmap(one, it, chunk=1)
