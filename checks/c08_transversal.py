"""C08: transversal S, H and CNOT map stabilizers exactly as declared and act as the logical gate."""
import stim
import z3

from vk import cliff, fam, rel, sym
from vk.env import CheckError

LEVEL = "other"
EXPLANATION = (
    "The layouts are prepared by the real set_trans_* functions and the real log_trans_* circuit is executed on a maximally "
    "entangled (Choi) state, so that one run covers every input state.  The solver shows that every stabilizer is mapped, with "
    "sign, to the product of stabilizers declared in new_stab_gen (what the Detectors object receives), that the logical Pauli "
    "operators (after a symbolic-outcome projection on the stabilizers) map as S or S_DAG, H or CNOT, and that all other "
    "qubits are untouched.  For the rotated S gate the placement is additionally symbolic (all real origins)."
)
KINDS = {"rot": "rot_surface_code_css", "unrot": "unrot_surface_code_css"}


def mods(case):
    import importlib

    m = KINDS[case["kind"]]
    return (importlib.import_module("surface_sim.log_gates." + m), importlib.import_module("surface_sim.circuit_blocks." + m))


def layouts(case):
    k = case["kind"]
    kw = dict(case.get("kw", {}))
    if "init_point" in kw:
        kw["init_point"] = tuple(kw["init_point"])
    if "names" in case:
        kw["logical_qubit_label"] = case["names"][0]
    a = fam.variant(fam.code(k, case["dx"], case["dz"], **kw), case.get("var"))
    if isinstance(case.get("corner"), int):
        case["corner"] = fam.data(a)[case["corner"]]
    lays = [a]
    if case["op"] == "cnot":
        b = fam.second(k, *case.get("size2", (case["dx"], case["dz"])), first=a, shift=tuple(case.get("shift", (100, 200))),
                       label=case.get("names", (0, "L1"))[1])
        if case.get("var") == "scattered":
            b = fam.code(k, case["dx"], case["dz"], logical_qubit_label="L1", init_point=(100, 200), init_data_qubit_id=1000,
                         init_zanc_qubit_id=1000, init_xanc_qubit_id=1000, init_ind=500)
        lays.append(fam.variant(b, case.get("var2")))
    if case["op"] == "cnot" and case.get("swap"):
        lays.reverse()
    return lays


def setup(case, lays):
    g, _ = mods(case)
    if case.get("both") == 1 and case["op"] == "cnot":
        g.set_trans_cnot(*lays[::-1])
    if case.get("both") and case["op"] != "s":  # other gates set up in the same layouts
        for l in lays:
            ok = l.distance_x == l.distance_z if case["kind"] == "unrot" else l.distance_z == l.distance_x + 1
            if ok:
                c = min(fam.data(l), key=lambda q: tuple(l.param("coords", q)))
                g.set_trans_s(l, c)
                if case["kind"] == "unrot" and case["op"] == "cnot":
                    g.set_trans_h(l, c)
    if case["op"] == "cnot":
        g.set_trans_cnot(*lays)
        if case.get("both") == 2:
            g.set_trans_cnot(*lays[::-1])
    else:
        getattr(g, "set_trans_" + case["op"])(lays[0], case["corner"])


def label(case, lays):
    return f"trans-{case['op']}_" + "_".join(l.get_logical_qubits()[0] for l in lays)


def build(case):
    lays = layouts(case)
    setup(case, lays)
    other = fam.code(case["kind"], 2, 2, logical_qubit_label="LZ", init_point=(-500, -500), init_data_qubit_id=5000,
                     init_zanc_qubit_id=5000, init_xanc_qubit_id=5000, init_ind=2000)
    everything = lays + [other]
    model = fam.model_for(*everything)
    dets = fam.detectors_for(*everything)
    inds = {}
    for l in everything:
        inds.update(l.qubit_inds())
    model.new_circuit()
    dets.new_circuit()
    for l in everything:
        dets.activate_detectors(fam.ancs(l))
    _, blocks = mods(case)
    circ = getattr(blocks, "log_trans_" + case["op"])(model, *lays, dets)
    job0 = rel.Job(inds, circ)
    if not job0.require(not any(i.name in cliff.MEAS or i.name in cliff.RESET or i.name in ("DETECTOR", "OBSERVABLE_INCLUDE") for i in
                                cliff.flat(circ)), "gate contains measurements, resets or annotations"):
        return job0
    lab = label(case, lays)
    S = {}
    for l in lays:
        S.update(fam.stabs(l))
    new = {}
    for l in lays:
        for a in fam.ancs(l):
            p = l.param(lab, a)
            if not job0.require(p is not None and set(p["new_stab_gen"]) <= set(S), f"no valid new_stab_gen for {a}"):
                return job0
            new[a] = p["new_stab_gen"]
    last = fold_end(case, lays)
    part = case.get("part", "main")
    pre = stim.Circuit()
    order = list(S)
    for a in order:
        tg = []
        for q, p in S[a].items():
            tg += [stim.target_pauli(inds[q], p), stim.target_combiner()]
        pre.append("MPP", tg[:-1])
    job = rel.Job(inds, circ) if part != "logical" else rel.Job(inds, pre + circ)
    if part in ("main", "fold-end"):
        for a in S:
            on, ph = fam.mul(*[S[b] for b in new[a]])
            ref = S[a]
            if not job.require(ph in (0, 2), f"declared product for {a} is not Hermitian"):
                return job
            name = f"stabilizer {a} -> {new[a]}"
            if a == last:
                # documented sign of the last fold qubit: its own case, see known_findings.jsonl
                if part == "main":
                    job.claim(name + " up to sign", on=on, ref=ref, const=None)
                else:
                    job.claim(name + " with sign", on=on, ref=ref, const=ph // 2)
            elif part == "main":
                job.claim(name, on=on, ref=ref, const=ph // 2)
        if part == "main":
            D = {q for l in lays for q in fam.data(l)}
            for q in inds:
                if q not in D:
                    for p in "XZ":
                        job.claim(f"{q} untouched", on={q: p}, ref={q: p}, const=0)
        return job
    # logical action
    maps = []
    X = [fam.logical(l, "X") for l in lays]
    Z = [fam.logical(l, "Z") for l in lays]
    if case["op"] == "s":
        y, _ = fam.mul(X[0], Z[0])
        maps = [("X->Y", X[0], y, None), ("Z->Z", Z[0], Z[0], 0)]
    elif case["op"] == "h":
        maps = [("X->Z", X[0], Z[0], 0), ("Z->X", Z[0], X[0], 0)]
    else:
        maps = [("XI->XX", X[0], fam.mul(X[0], X[1])[0], 0), ("IX->IX", X[1], X[1], 0),
                ("ZI->ZI", Z[0], Z[0], 0), ("IZ->ZZ", Z[1], fam.mul(Z[0], Z[1])[0], 0)]
    job.records()
    c = rel.symbolic(job)
    if c is None:
        return job
    solve = {}
    for k, e in enumerate(c.t.rec):
        solve[k] = e
    for name, ref, on, sign in maps:
        e = c.exp(on, ref)
        if not job.require(e is not None, f"logical {name}: output is not the expected logical operator times stabilizers"):
            return job
        # express the syndrome dependence through the projected syndromes (the sign at the trivial syndrome is fixed)
        recs = [k for k, r in solve.items() if r & ~1 and (r & ~1) == (r & -r) and e & r & ~1]
        job.claim(f"logical {name}", on=on, ref=ref, recs=recs, const=(e & 1) if sign is None else sign)
    return job


def fold_end(case, lays):
    """X ancilla whose support holds the far end of the folding diagonal (rotated S gate only)."""
    if case["op"] != "s" or case["kind"] != "rot":
        return None
    l = lays[0]
    lab = label(case, lays)
    fold = [q for q in fam.data(l) if (l.param(lab, q) or {}).get("local") not in (None, "I")]
    xs = {a: set(fam.nbrs(l, a)) & set(fold) for a in fam.ancs(l, "x_type")}
    # the end of the fold shares an X stabilizer with exactly one other fold qubit's chain: geometric extreme from the corner
    c0 = l.param("coords", case["corner"])
    far = max(fold, key=lambda q: sum((u - v) ** 2 for u, v in zip(l.param("coords", q), c0)))
    holders = [a for a, s in xs.items() if far in s]
    return holders[0] if len(holders) == 1 else None


def replay(case):
    if case.get("reject"):
        return accepted(case)
    if case.get("attrs"):
        return None if attrs(case, tuple(case["origin"])) == attrs(case, (1, 1)) else "attributes depend on the placement"
    return rel.replay(case, build)


def accepted(case):
    """None when the invalid request is rejected, else a description."""
    try:
        lays = layouts(case)
    except Exception as e:
        raise CheckError(f"layouts of a rejection case do not build: {e}")
    g, blocks = mods(case)
    try:
        if case["reject"] == "setup":
            if case.get("foreign"):
                import importlib

                g = importlib.import_module("surface_sim.log_gates." + KINDS[case["foreign"]])
                if case["op"] == "cnot":
                    g.set_trans_cnot(*lays)
                else:
                    getattr(g, "set_trans_" + case["op"])(lays[0], case["corner"])
            else:
                setup(case, lays)
        else:
            dets = fam.detectors_for(*lays)
            dets.new_circuit()
            for l in lays:
                dets.activate_detectors(fam.ancs(l))
            m = fam.model_for(*lays)
            m.new_circuit()
            getattr(blocks, "log_trans_" + case["op"])(m, *lays, dets)
    except Exception:
        return None
    return f"request accepted although the gate is not valid: {case}"


def attrs(case, origin):
    lays = layouts(dict(case, kw=dict(init_point=origin)))
    setup(case, lays)
    lab = label(case, lays)
    return {q: lays[0].param(lab, q) for q in sorted(lays[0].get_qubits())}


def one(ck, item):
    how, case = item
    k = KINDS[case["kind"]]
    ck.covers(f"log_gates.{k}.set_trans_{case['op']}", f"circuit_blocks.util.log_trans_{case['op']}",
              "detectors.get_new_stab_dict_from_layout")
    if how == "reject":
        ck.obligations += 1
        if accepted(case):
            ck.violation(case, f"accepted: {case}")
        else:
            ck.discharged += 1
        return
    if how == "symbolic":
        want = attrs(case, (1, 1))
        ex = sym.Explorer()
        fails = []

        def go():
            o = (sym.fresh_real("x0"), sym.fresh_real("y0"))
            try:
                return attrs(case, o)
            except Exception as e:
                return e

        for got in ex.run(go):
            ck.paths += 1
            ck.obligations += 1
            if got == want:
                ck.discharged += 1
                continue
            m = ex.model()
            o = [float(sym.model_value(m, z3.Real(v))) for v in ("x0", "y0")]
            if isinstance(got, Exception):
                try:
                    conc = attrs(case, tuple(o))
                except Exception:
                    conc = None
                if conc == want:
                    ck.degraded.append(f"symbolic origin not supported by the code ({type(got).__name__}); concrete origins only")
                    ck.obligations -= 1
                    continue
            ck.violation(dict(case, attrs=1, origin=o), f"{case}: attributes depend on the placement {o}")
        return
    for part in ("main", "logical") + (("fold-end",) if case["op"] == "s" and case["kind"] == "rot" else ()):
        rel.decide(ck, dict(case, part=part), build)


PLACES = [{}, dict(init_point=(-3, 7.1)), dict(init_point=(0.1, 0.2)), dict(init_point=(1e4, -2.5), init_ind=3, init_data_qubit_id=9)]


def items(ck):
    out = []
    top = 7 if ck.thorough else 5
    for d in range(2, top + 1):
        for kw in PLACES:
            D1 = f"D{kw.get('init_data_qubit_id', 1)}"
            out.append(("c", dict(kind="rot", op="s", dx=d, dz=d + 1, corner=D1, kw=kw)))
            for op in "sh":
                if d <= (6 if ck.thorough else 4):
                    n = kw.get("init_data_qubit_id", 1)
                    nd = d * d + (d - 1) ** 2
                    for c in (n, n + d - 1, n + nd - d, n + nd - 1):
                        if kw and c != n + d - 1:
                            continue
                        out.append(("c", dict(kind="unrot", op=op, dx=d, dz=d, corner=f"D{c}", kw=kw)))
    for kind in ("rot", "unrot"):
        sizes = [(2, 2), (2, 3), (3, 2), (3, 3)] + ([(4, 4), (3, 4)] if kind == "rot" else [])
        if ck.thorough:
            sizes += [(4, 3), (5, 5), (2, 4)] if kind == "rot" else [(3, 4), (4, 4)]
        for dx, dz in sizes:
            for shift in ((100, 200), (-40, 3), (0.5, 0.25), (1000000, -3000000)):
                for kw in ({}, dict(init_point=(-3, 7.1))):
                    for swap in (0, 1):
                        if (kw or shift[0] != 100) and dx * dz > 6 and not (abs(shift[0]) > 1e5 and not kw and not swap and dx * dz < 10):
                            continue
                        out.append(("c", dict(kind=kind, op="cnot", dx=dx, dz=dz, shift=shift, kw=kw, swap=swap)))
    for kind in ("rot", "unrot"):
        for names in (["LONG", "L1"], ["L1", "LONG"], ["b", "a"], ["L10", "L2"], ["L_0", "L"]):
            for swap in (0, 1):
                for both in (1, 2):
                    out.append(("c", dict(kind=kind, op="cnot", dx=2, dz=2 + (kind == "rot"), names=names, swap=swap, both=both)))
    # the same codes written down differently (fold corners by position of the qubit in the definition: tried and kept when accepted)
    for var in fam.VARIANTS:
        for kind, op, dx, dz in (("rot", "s", 2, 3), ("rot", "s", 3, 4), ("unrot", "s", 2, 2), ("unrot", "s", 3, 3), ("unrot", "h", 2, 2),
                                 ("unrot", "h", 3, 3)):
            n = dx * dz + ((dx - 1) * (dz - 1) if kind == "unrot" else 0)
            for i in range(n):
                case = dict(kind=kind, op=op, dx=dx, dz=dz, corner=i, var=var)
                try:
                    setup(case, layouts(case))
                except Exception:
                    continue
                out.append(("c", case))
        for kind in ("rot", "unrot"):
            for dx, dz in ((2, 2), (2, 3), (3, 3)):
                for var2 in (None, var, "reversed", "relabelled" if var != "relabelled" else None):
                    for swap in (0, 1):
                        if var2 == "relabelled" and var == "relabelled":
                            continue
                        out.append(("c", dict(kind=kind, op="cnot", dx=dx, dz=dz, var=var, var2=var2, swap=swap)))
    for d in range(2, 5 if ck.thorough else 4):
        out.append(("symbolic", dict(kind="rot", op="s", dx=d, dz=d + 1, corner="D1")))
    # rejected requests
    for dx in range(2, 5):
        for dz in range(2, 5):
            if dz != dx + 1:
                out.append(("reject", dict(kind="rot", op="s", dx=dx, dz=dz, corner="D1", reject="setup")))
            if dz != dx:
                for op in "sh":
                    out.append(("reject", dict(kind="unrot", op=op, dx=dx, dz=dz, corner="D1", reject="setup")))
            for kind in ("rot", "unrot"):
                for a, b in ((2, 2), (2, 3), (3, 2)):
                    if (dx, dz) != (a, b):
                        out.append(("reject", dict(kind=kind, op="cnot", dx=dx, dz=dz, size2=(a, b), reject="setup")))
    for kind, op, dx, dz in (("rot", "s", 2, 3), ("unrot", "s", 2, 2), ("unrot", "h", 2, 2), ("rot", "cnot", 2, 2),
                             ("unrot", "cnot", 2, 2)):
        out.append(("reject", dict(kind=kind, op=op, dx=dx, dz=dz, corner="D1", reject="block")))
        if op != "h":
            other = "unrot" if kind == "rot" else "rot"
            out.append(("reject", dict(kind=kind, op=op, dx=dx, dz=dz, corner="D1", reject="setup", foreign=other)))
        else:
            out.append(("reject", dict(kind="unrot", op=op, dx=dx, dz=dz, corner="D999", reject="setup")))
            out.append(("reject", dict(kind="unrot", op=op, dx=dx, dz=dz, corner="Z1", reject="setup")))
        if op == "s":
            out.append(("reject", dict(kind=kind, op=op, dx=dx, dz=dz, corner="Z1", reject="setup")))
    # any other fold qubit: either refused or correct
    for kind, op, dx, dz in (("rot", "s", 3, 4), ("unrot", "s", 3, 3), ("unrot", "h", 3, 3)):
        n = len(fam.data(fam.code(kind, dx, dz)))
        for c in range(1, n + 1):
            case = dict(kind=kind, op=op, dx=dx, dz=dz, corner=f"D{c}")
            try:
                setup(case, layouts(case))
            except Exception:
                continue
            out.append(("c", case))
    return out


def run(ck):
    it = items(ck)
    ck.bounds = {"requests": len(it), "S rotated": "d=2..5 (quick) / 2..7, all accepted fold corners, 4 placements + symbolic origin",
                 "S, H unrotated": "d=2..4 / 2..6, all corners", "CNOT": "sizes up to 4x4 / 5x5, both directions, 4 shifts",
                 "input states": "all (Choi state)"}
    ck.assumptions = ["symbolic origin: exact real arithmetic (rounding to 5 decimals modelled as the identity); floating-point "
                      "placements are covered at the listed concrete origins"]
    it.sort(key=lambda i: -i[1]["dx"] * i[1]["dz"])
    ck.pmap(one, it, chunk=1)
