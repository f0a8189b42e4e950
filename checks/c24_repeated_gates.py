"""C24: repeated-gate experiments apply the requested gates and track the logical state."""
import importlib

import stim
import z3

from vk import cliff, fam, memo, rel
from vk.env import CheckError

LEVEL = "other"
EXPLANATION = (
    "The real repeated_s / repeated_h / repeated_cnot experiments are built for every configuration within the bounds and executed "
    "on a stabilizer tableau with one symbol per initial data bit and per random measurement outcome. The solver shows that no "
    "detector (except announced gauge ones) and no observable depends on an outcome, and that for all initial bitstrings with "
    "trivial stabilizers every observable equals the ideal logical evolution of the initial logical bits. The segment between two "
    "consecutive rounds is executed on maximally entangled data qubits and must map the logical Paulis as exactly the requested "
    "gate in the requested orientation."
)
MOD = {"rot": "rot_surface_code_css", "rotp": "rot_surface_code_css_pipelined", "unrot": "unrot_surface_code_css"}


def kind(case):
    return "unrot" if case["fam"] == "unrot" else "rot"


_cache = {}


def layouts(case):
    key = (kind(case), case["dx"], case["dz"], case["gate"], case.get("var"))
    if key not in _cache:
        k = kind(case)
        a = fam.variant(fam.code(k, case["dx"], case["dz"]), case.get("var"))
        g = importlib.import_module("surface_sim.log_gates." + MOD[k])
        lays = [a]
        c = min(fam.data(a), key=lambda q: tuple(a.param("coords", q)))
        if case["gate"] == "s":
            g.set_trans_s(a, c)
        elif case["gate"] == "h":
            g.set_trans_h(a, c)
        else:
            lays.append(fam.variant(fam.second(k, case["dx"], case["dz"], first=a), case.get("var") and "reversed"))
            g.set_trans_cnot(lays[0], lays[1])
            g.set_trans_cnot(lays[1], lays[0])
        _cache[key] = lays
    return _cache[key]


def subset(lays, spec):
    if spec is None:
        return None
    return [a for l in lays for a in memo.subset(l, spec)]


def circuit(case, init):
    lays = layouts(case)
    e = importlib.import_module("surface_sim.experiments." + MOD[case["fam"]])
    model = fam.model_for(*lays)
    dets = fam.detectors_for(*lays, frame=case["frame"])
    kw = dict(model=model, detectors=dets, num_rounds_per_gate=case["rpg"], data_init=dict(init), rot_basis=case["rot"],
              anc_reset=case["reset"], anc_detectors=subset(lays, case["ancs"]), gauge_detectors=case["gauge"])
    if case["gate"] == "cnot":
        kw.update(layout_c=lays[0], layout_t=lays[1], num_cnot_gates=case["n"], cnot_orientation=case["ori"])
    else:
        kw["layout"] = lays[0]
        kw[f"num_{case['gate']}_gates"] = case["n"]
    return lays, getattr(e, f"repeated_{case['gate']}_experiment")(**kw)


def gates(case):
    """Ideal gate sequence (op, blocks)."""
    out = []
    for k in range(case["n"]):
        if case["gate"] == "cnot":
            out.append(("C", (1, 0) if case["ori"] == "alternating" and k % 2 else (0, 1)))
        else:
            out.append((case["gate"].upper(), (0,)))
    return out


def pull(ops, x, z):
    """Heisenberg picture, signs ignored."""
    x, z = list(x), list(z)
    for op, b in reversed(ops):
        if op == "S":
            z[b[0]] ^= x[b[0]]
        elif op == "H":
            x[b[0]], z[b[0]] = z[b[0]], x[b[0]]
        else:
            c, t = b
            x[t] ^= x[c]
            z[c] ^= z[t]
    return x, z


def dets_of(case, lays, circ, num_rec):
    """Claims on structure; returns (problem, detectors that must be deterministic, observables)."""
    nA = sum(len(fam.ancs(l)) for l in lays)
    _, obs, coords, drecs, orecs = cliff.detectors_of(circ, [0] * num_rec)
    nb = len(lays)
    if sorted(obs) != list(range(nb)):
        return f"observables {sorted(obs)} instead of 0..{nb - 1}", [], {}
    rounds = 1 + case["n"] * case["rpg"]
    fin = final_basis(case)
    tail = sum(len(fam.ancs(l, "x_type" if fin else "z_type")) for l in lays)
    if len(drecs) != rounds * nA + tail:
        return f"{len(drecs)} detectors instead of {rounds * nA + tail}", [], {}
    gauge = set()
    if case["gauge"]:
        for l in lays:
            gauge |= set(memo.gauge_key(l, dict(case)))
    keep = [k for k in range(len(drecs)) if not (k < nA and coords[k] in gauge)]
    return None, [(k, coords[k], drecs[k]) for k in keep], orecs


def final_basis(case):
    return bool(case["rot"]) ^ (case["gate"] == "h" and case["n"] % 2 == 1)


def steps(circ):
    return sum(i.name == "TICK" for i in cliff.flat(circ))


def expected_steps(case):
    """Time steps of the separate parts, taken from the real blocks."""
    from surface_sim.util import merge_log_meas, merge_qec_rounds

    lays = layouts(case)
    b = importlib.import_module("surface_sim.circuit_blocks." + MOD[case["fam"]])
    model = fam.model_for(*lays)
    dets = fam.detectors_for(*lays)
    model.new_circuit()
    dets.new_circuit()
    init = steps(b.init_qubits(model, lays[0], dets, data_init={q: 1 for q in fam.data(lays[0])}, rot_basis=case["rot"]))
    for l in lays[1:]:
        dets.activate_detectors(fam.ancs(l))
        model.reset(l.get_qubits())
    if len(lays) == 1:
        rnd = steps(b.qec_round(model, lays[0], dets, anc_reset=case["reset"]))
        gate = steps({"s": getattr(b, "log_trans_s", None), "h": getattr(b, "log_trans_h", None)}[case["gate"]](model, lays[0], dets))
        meas = steps(b.log_meas(model, lays[0], dets, rot_basis=final_basis(case), anc_reset=case["reset"]))
    else:
        rnd = steps(merge_qec_rounds(b.qec_round_iterator, model, lays, dets, anc_reset=case["reset"]))
        gate = steps(b.log_trans_cnot(model, *lays, dets))
        meas = steps(merge_log_meas(b.log_meas_iterator, model, lays, dets, rot_bases=[final_basis(case)] * 2,
                                    anc_reset=case["reset"]))
    return init + (1 + case["n"] * case["rpg"]) * rnd + case["n"] * gate + meas


def all_data(lays):
    return [q for l in lays for q in fam.data(l)]


def inds_of(lays):
    out = {}
    for l in lays:
        out.update(l.qubit_inds())
    return out


def ideal(case, lays, k):
    """(data qubits whose bits make up observable k, constant)"""
    nb = len(lays)
    x, z = [0] * nb, [0] * nb
    (x if final_basis(case) else z)[k] = 1
    x, z = pull(gates(case), x, z)
    v = x if case["rot"] else z
    if any(z if case["rot"] else x):
        raise CheckError(f"not an eigenstate: {case}")
    sup = []
    for i in range(nb):
        if v[i]:
            sup += list(fam.logical(lays[i], "X" if case["rot"] else "Z"))
    return sup, int(case["gate"] == "s" and case["rot"] and case["n"] % 4 == 2)


def init_stabs(case, lays):
    return [fam.nbrs(l, a) for l in lays for a in fam.ancs(l, "x_type" if case["rot"] else "z_type")]


# ---------------------------------------------------------------- concrete job (replay) and segments
def build(case):
    if "seg" in case:
        return segment(case)
    lays = layouts(case)
    D = all_data(lays)
    bit = {q: int(b) for q, b in zip(D, case["init"])}
    lays, c = circuit(case, bit)
    job = rel.Job(inds_of(lays), c, entangle=[])
    job.records()
    msg, dets, orecs = dets_of(case, lays, c, job.num_rec)
    if not job.require(msg is None, msg):
        return job
    want, got = expected_steps(case), steps(c)
    job.require(want == got, f"{got} time steps instead of {want}")
    for k, co, recs in dets:
        job.claim(f"detector {k} at {co}", recs=recs, const=None)
    code = all(sum(bit[q] for q in s) % 2 == 0 for s in init_stabs(case, lays))
    for k in range(len(lays)):
        sup, const = ideal(case, lays, k)
        job.claim(f"observable {k}", recs=orecs[k], const=(sum(bit[q] for q in sup) + const) % 2 if code else None)
    return job


def segment(case):
    """The circuit between the ends of rounds seg and seg + 1."""
    lays = layouts(case)
    D = all_data(lays)
    _, c = circuit(case, {q: 0 for q in D})
    A = {l.qubit_inds()[a] for l in lays for a in fam.ancs(l)}
    seen = {i: 0 for i in A}
    ends, cur, parts = 0, stim.Circuit(), []
    for ins in cliff.flat(c):
        if ins.name in ("DETECTOR", "OBSERVABLE_INCLUDE"):
            continue
        cur.append(ins)
        if ins.name in cliff.MEAS:
            for t in ins.targets_copy():
                if t.value in seen:
                    seen[t.value] += 1
            if min(seen.values()) == max(seen.values()) == ends + 1:
                ends += 1
                parts.append(cur)
                cur = stim.Circuit()
    job = rel.Job(inds_of(lays), stim.Circuit(), entangle=D)
    r = case["seg"]
    if not job.require(len(parts) == 1 + case["n"] * case["rpg"], f"{len(parts)} complete rounds of ancilla measurements"):
        return job
    job.circuit = parts[r + 1]
    ops = [gates(case)[r // case["rpg"]]] if r % case["rpg"] == 0 else []
    nb = len(lays)
    for b in range(nb):
        for p in "XZ":
            x, z = [0] * nb, [0] * nb
            (x if p == "X" else z)[b] = 1
            on = fam.logical(lays[b], p)
            x, z = pull(ops, x, z)
            parts_ = [fam.logical(lays[i], w) for i in range(nb) for w, v in (("X", x), ("Z", z)) if v[i]]
            ref, _ = fam.mul(*parts_)
            job.claim(f"logical {p} of block {b} through the segment after round {r} ({ops})", on=on, ref=ref, const="free")
    return job


def replay(case):
    return rel.replay(case, build, shots=24)


# ---------------------------------------------------------------- all bitstrings and outcomes
def decide(ck, case):
    ck.programs += 1
    lays = layouts(case)
    D = all_data(lays)
    zero, one_ = dict(case, init="0" * len(D)), dict(case, init="1" * len(D))
    try:
        _, c1 = circuit(case, {q: 1 for q in D})
        _, c0 = circuit(case, {q: 0 for q in D})
    except Exception as ex:
        if not rel.from_repo(ex):
            raise
        ck.violation(zero, f"valid request raised {type(ex).__name__}: {ex}")
        ck.violation(one_, f"valid request raised {type(ex).__name__}: {ex}")
        return
    inds = inds_of(lays)
    b0, b1 = memo.blocks(c0), memo.blocks(c1)
    k = memo.bit_step(b0, b1, {inds[q] for q in D})
    if k is None:
        ck.degraded.append("initial bits enumerated on unit strings: the all-0/all-1 builds differ by more than X gates")
        for s in [zero, one_] + [dict(case, init="0" * i + "1" + "0" * (len(D) - i - 1)) for i in range(len(D))]:
            rel.decide(ck, s, build)
        return
    job = build(one_)
    if job.problems:
        ck.violation(one_, job.problems[0])
        ck.violation(zero, job.problems[0])
        return
    t = cliff.Tableau(max(inds.values()) + 1)
    bit = {}
    for n, b in enumerate(b1):
        if n == k:
            for q in D:
                bit[q] = t.sym.new(f"bit_{q}")
                t.pauli(1 << inds[q], 0, bit[q])
        else:
            for ins in b:
                t.step(ins)
    bits = 0
    for v in bit.values():
        bits |= v
    msg, dets, orecs = dets_of(case, lays, c1, len(t.rec))

    def val(recs):
        e = 0
        for r in recs:
            e ^= t.rec[r]
        return e

    # 1. no dependence on outcomes
    es = [(f"detector {j} at {co}", val(recs)) for j, co, recs in dets] + [(f"observable {j}", val(orecs[j])) for j in range(len(lays))]
    hit = ck.refute_affine(t.sym, [e & ~bits & ~1 for _, e in es])
    if hit is not None:
        ck.violation(zero, f"{case}: {es[hit[0]][0]} depends on measurement outcomes {hit[1]}")
        return
    # 2. value of the observables on all bitstrings with trivial stabilizers
    pre = []
    for s in init_stabs(case, lays):
        e = 0
        for q in s:
            e ^= bit[q]
        pre.append(z3.Not(t.sym.z3(e)))
    bad, want = [], []
    for j in range(len(lays)):
        sup, const = ideal(case, lays, j)
        e = const
        for q in sup:
            e ^= bit[q]
        bad.append(t.sym.z3(val(orecs[j]) ^ e))
        want.append(e)
    m = ck.refute(*pre, z3.Or(bad))
    if m is not None:
        vals = t.sym.from_model(m)
        init = "".join(str(int(vals.get(bit[q].bit_length() - 1, False))) for q in D)
        ck.violation(dict(case, init=init), f"{case}: an observable differs from the ideal logical evolution for {init}")


def configs(ck):
    th = ck.thorough
    out = []

    def add(fm, gate, dx, dz, ns, rpgs, **over):
        for n in ns:
            for rpg in rpgs:
                for rot in (False, True):
                    for reset in (True, False):
                        for frame in ("pre-gate", "post-gate"):
                            for gauge in (True, False):
                                for ori in ("alternating", "constant") if gate == "cnot" else (None,):
                                    c = dict(fam=fm, gate=gate, dx=dx, dz=dz, n=n, rpg=rpg, rot=rot, reset=reset, frame=frame,
                                             gauge=gauge, ancs=None, ori=ori)
                                    c.update(over)
                                    if c not in out:
                                        out.append(c)

    S, C = ((0, 2, 4, 6), (0, 1, 2)), ((0, 1, 2, 3, 4, 5), (0, 1, 2))
    q = not th
    add("rot", "s", 2, 3, *S)
    add("rot", "s", 3, 4, (2,), (1,) if q else (0, 1, 2))
    add("rotp", "s", 2, 3, (0, 2, 4), (0, 1))
    add("unrot", "s", 2, 2, (0, 2, 4), (0, 1, 2))
    add("unrot", "h", 2, 2, (0, 1, 2, 3), (0, 1, 2))
    add("unrot", "s", 3, 3, (2,), (1,))
    add("unrot", "h", 3, 3, (1, 2), (1,))
    add("rot", "cnot", 2, 2, *C)
    add("rotp", "cnot", 2, 2, (1, 3), (0, 1))
    add("unrot", "cnot", 2, 2, (1, 2, 3), (0, 1), reset=False)
    add("unrot", "cnot", 2, 3, (3,), (1,), reset=True)
    add("rot", "cnot", 3, 3, (3,), (1,), gauge=False)
    for spec in ("odd", "x", "none"):
        add("rot", "cnot", 2, 2, (2,), (1,), ancs=spec)
        add("rot", "s", 2, 3, (2,), (1,), ancs=spec)
        add("unrot", "h", 2, 2, (1,), (1,), ancs=spec)
    for var in fam.VARIANTS:
        over = dict(var=var, frame="pre-gate" if var in ("reversed", "relabelled") else "post-gate", gauge=False)
        add("rot", "s", 2, 3, (2,), (1,), **over)
        add("unrot", "s", 2, 2, (2,), (1,), **over)
        add("unrot", "h", 2, 2, (1,), (1,), **over)
        add("rot", "cnot", 2, 2, (3,), (1,), **over)
        add("unrot", "cnot", 2, 2, (2,), (1,), reset=True, **over)
        add("rotp", "cnot", 2, 2, (2,), (1,), reset=True, **over)
    add("unrot", "h", 2, 2, (4, 5, 6, 7), (0, 1), frame="pre-gate", reset=True, gauge=False)
    add("unrot", "s", 2, 2, (6, 8), (1,), frame="pre-gate", reset=True, gauge=False)
    add("unrot", "cnot", 2, 2, (4, 5, 6), (1,), frame="pre-gate", reset=True, gauge=False)
    add("rot", "cnot", 2, 2, (6, 7, 8), (1,), frame="pre-gate", reset=True, gauge=False)
    add("rot", "s", 2, 3, (8, 10), (1,), frame="pre-gate", reset=True, gauge=False)
    if th:
        add("rot", "s", 3, 4, (4, 6), (1, 2))
        add("rot", "s", 4, 5, (2,), (1,))
        add("rotp", "s", 3, 4, (2, 4), (0, 1))
        add("unrot", "s", 3, 3, (2, 4), (0, 2))
        add("unrot", "h", 3, 3, (1, 2, 3, 4), (0, 1, 2))
        add("unrot", "h", 4, 4, (1, 2), (1,))
        add("rot", "cnot", 3, 3, *C)
        add("rot", "cnot", 4, 3, (3,), (1,))
        add("rotp", "cnot", 3, 3, (1, 2, 3), (0, 1))
        add("unrot", "cnot", 3, 3, (1, 2, 3), (0, 1))
    have = {f: importlib.import_module("surface_sim.experiments." + m) for f, m in MOD.items()}
    return [c for c in out if hasattr(have[c["fam"]], f"repeated_{c['gate']}_experiment")]


def one(ck, item):
    m = MOD[item["fam"]]
    ck.covers(f"experiments.{m}.repeated_{item['gate']}_experiment", "circuit_blocks.util.log_trans_*", "util.merge_*")
    if "segs" in item:
        case = {k: v for k, v in item.items() if k != "segs"}
        for r in range(case["n"] * case["rpg"]):
            rel.decide(ck, dict(case, seg=r), build)
    else:
        decide(ck, item)


def run(ck):
    it = configs(ck)
    segs = [dict(c, segs=True) for c in it if c["rpg"] and c["n"] and c["frame"] == "pre-gate" and c["gauge"] and c["ancs"] is None]
    ck.bounds = {"configurations": len(it), "segment configurations": len(segs), "gates": "0..10", "rounds per gate": "0..2",
                 "initial bits": "all", "outcomes": "all", "sizes": "2..4 (thorough 2..5)"}
    ck.sample(it[0])
    ck.pmap(one, segs + it[::-1])
