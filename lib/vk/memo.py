"""Memory experiments: building them from the real code and the claims of C05 / C06."""
from . import env  # noqa: F401
from . import cliff, fam, rel, sym
from .fam import FAMS


def layout(case):
    return fam.variant(fam.code(FAMS[case["fam"]].kind, case["dx"], case["dz"]), case.get("var"))


def setup_objects(case):
    f = FAMS[case["fam"]]
    lay = layout(case)
    model = fam.model_for(lay)
    dets = fam.detectors_for(lay, frame=case.get("frame", "pre-gate"))
    return f, lay, model, dets


def subset(lay, spec):
    a = fam.ancs(lay)
    if spec is None or spec == "all":
        return None if spec is None else list(a)
    if spec == "none":
        return []
    if spec == "x":
        return fam.ancs(lay, "x_type")
    if spec == "z":
        return fam.ancs(lay, "z_type")
    if spec == "one":
        return [a[-1]]
    if spec == "odd":
        return a[1::2]
    raise KeyError(spec)


def build_circuit(case, init):
    f, lay, model, dets = setup_objects(case)
    c = f.memory(model, lay, dets, case["rounds"], init, rot_basis=case["rot"], anc_reset=case["reset"],
                 ancs=subset(lay, case.get("ancs")), gauge=case["gauge"])
    return f, lay, c


def gauge_key(lay, case):
    """coords (with time 0) of the detectors announced as gauge detectors."""
    t = "z_type" if case["rot"] else "x_type"
    return {tuple(float(v) for v in lay.param("coords", a)) + (0.0,): a for a in fam.ancs(lay, t)}


def bits(case, lay):
    """Initial bits of the concrete case: string of 0/1 in data-qubit order."""
    return ordered({q: int(b) for q, b in zip(fam.data(lay), case["init"])}, case)


def ordered(init, case):
    """The same bits, in the dictionary order of the case."""
    qs = list(init)
    how = case.get("order", "layout")
    if how == "reversed":
        qs = qs[::-1]
    elif how == "interleaved":
        qs = qs[1::2] + qs[::2][::-1]
    return {q: init[q] for q in qs}


def blocks(circuit):
    out = [[]]
    for ins in cliff.flat(circuit):
        if ins.name == "TICK":
            out.append([])
        else:
            out[-1].append(ins)
    return out


def bit_step(b0, b1, targets):
    """The step in which the all-one build has X gates on exactly the targets and the all-zero build has none; all other
    steps must be equal. None when the builder has another form."""

    def norm(b):
        return [(i.name, tuple(i.gate_args_copy()), tuple(map(str, i.targets_copy()))) for i in b]

    if len(b0) != len(b1):
        return None
    diff = [k for k in range(len(b0)) if norm(b0[k]) != norm(b1[k])]
    if len(diff) != 1:
        return None
    k = diff[0]
    xs = {t.value for i in b1[k] if i.name == "X" for t in i.targets_copy()}
    if any(i.name not in ("X", "I") for i in b0[k] + b1[k]) or any(i.name == "X" for i in b0[k]):
        return None
    if xs != set(targets) or sum(len(i.targets_copy()) for i in b1[k] if i.name == "X") != len(xs):
        return None
    return k


def symbolic_init(ck, case, check_claims, build):
    """All bitstrings at once: the builder is run on all-zero and all-one bits; the two circuits may only differ by X gates in
    one time step, which are then executed as X^b with symbolic b per data qubit."""
    lay0 = layout(case)
    D = fam.data(lay0)
    f, lay, c1 = build_circuit(case, {q: 1 for q in D})
    _, _, c0 = build_circuit(case, {q: 0 for q in D})
    b0, b1 = blocks(c0), blocks(c1)
    inds = lay.qubit_inds()
    k = bit_step(b0, b1, {inds[q] for q in D})
    if k is None:
        return None
    xs = {inds[q] for q in D}
    job = check_claims({a: b for a, b in case.items() if a != "init"}, f, lay, c1)
    t = cliff.Tableau(max(inds.values()) + 1)
    names = {inds[q]: q for q in D}
    bit = {}
    # the X layer follows the labels, whatever their order
    some = case["rounds"] <= 2 and case["gauge"] and case.get("frame") == "post-gate"
    for order in ("layout", "reversed", "interleaved") if some else ():
        for on in (D[: len(D) // 2],) if order != "reversed" else (D[1::3],):
            b = blocks(build_circuit(case, ordered({q: int(q in on) for q in D}, {"order": order}))[2])
            if bit_step(b0, b, {inds[q] for q in on}) != k:
                s = "".join(str(int(q in on)) for q in D)
                n = len(ck.violations)
                rel.decide(ck, dict(case, init=s, order=order), build)
                if len(ck.violations) == n:
                    return None
                return job, None, None
    for n, b in enumerate(b1):
        if n == k:
            for q in sorted(xs):
                bit[names[q]] = t.sym.new(f"bit_{names[q]}")
                t.pauli(1 << q, 0, bit[names[q]])
        else:
            for ins in b:
                t.step(ins)
    return job, t, bit


def decide_symbolic(ck, case, check_claims, build):
    """case without init. Falls back to all-zero/all-one/unit strings when the builder is not of the expected form."""
    ck.programs += 1
    lay = layout(case)
    D = fam.data(lay)
    try:
        got = symbolic_init(ck, case, check_claims, build)
    except Exception as ex:
        if not rel.from_repo(ex):
            raise
        ck.violation(dict(case, init="0" * len(D)), f"valid request raised {type(ex).__name__}: {ex}")
        ck.violation(dict(case, init="1" * len(D)), f"valid request raised {type(ex).__name__}: {ex}")
        return
    if got is None:
        ck.degraded.append("initial bits enumerated on unit strings: the all-0/all-1 builds differ by more than X gates")
        return False
    job, t, bit = got
    if t is None:  # already reported
        return True
    zero = dict(case, init="0" * len(D))
    if job.problems:
        ck.violation(dict(case, init="1" * len(D)), job.problems[0])
        return True
    es, rs = [], []
    for r in job.rels:
        e = 0
        for k in r.recs:
            e ^= t.rec[k]
        e = (e & ~1) if r.const is None else e ^ r.const
        for q in r.bits:
            e ^= bit[q]
        es.append(e)
        rs.append(r)
    hit = ck.refute_affine(t.sym, es)
    if hit is not None:
        r = rs[hit[0]]
        init = "".join(str(hit[1].get(f"bit_{q}", 0)) for q in D)
        ck.violation(dict(case, init=init), f"{case}: {r.name} violated for {hit[1]}")
    return True


def decide_paths(ck, case, build):
    """Every bitstring: the bits are symbolic booleans, the builder forks on them."""
    f0 = FAMS[case["fam"]]
    lay0 = layout(case)
    D = fam.data(lay0)
    ex = sym.Explorer()

    def go():
        init = {q: sym.fresh_bool(f"b_{q}") for q in D}
        try:
            build_circuit(case, ordered(init, case))
        except Exception as e:
            if not rel.from_repo(e):
                raise
        # a bit the builder never looked at is free: both values must do
        return "".join(str(int(bool(init[q]))) for q in D)

    for s in ex.run(go):
        ck.paths += 1
        rel.decide(ck, dict(case, init=s), build)


def decide(ck, how, case, claims, build):
    if how == "paths" or decide_symbolic(ck, case, claims, build) is False:
        lay = layout(case)
        n = len(fam.data(lay))
        if how != "paths" and n > 9:
            for s in ["0" * n, "1" * n] + ["0" * k + "1" + "0" * (n - k - 1) for k in range(n)]:
                rel.decide(ck, dict(case, init=s), build)
        else:
            decide_paths(ck, case, build)
