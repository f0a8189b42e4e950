"""C19: parallel rounds and measurements of several blocks equal the separate ones."""
import importlib

import stim
import z3

from vk import cliff, events, fam, memo, params, rel, sym
from vk.fam import FAMS

LEVEL = "other"
EXPLANATION = (
    "merge_qec_rounds and merge_log_meas run on two or three blocks (also of different sizes, in every order and basis) with a setup "
    "in which every parameter of every qubit and pair is its own symbolic real and the assignment-error flags differ between qubits "
    "and blocks. Per time step and qubit the merged circuit is compared with the one of the block alone (real qec_round / log_meas): "
    "the solver shows equal probability terms for all parameter values; detectors and observables are resolved through the actual "
    "record order to (qubit, n-th outcome) pairs and must be those of the separate circuits, observables numbered in layout order."
)


def layouts(case):
    f = FAMS[case["fam"]]
    out, ind = [], 0
    for k, (dx, dz) in enumerate(case["sizes"]):
        if k == 0:
            l = fam.variant(fam.code(f.kind, dx, dz), case.get("var"))
        else:
            l = fam.code(f.kind, dx, dz, logical_qubit_label=f"L{k}", init_point=(100 * k, 200), init_data_qubit_id=1000 * k,
                         init_zanc_qubit_id=1000 * k, init_xanc_qubit_id=1000 * k, init_ind=ind)
            l = fam.variant(l, case.get("var") and ("scattered", "interleaved")[k % 2])
        ind = max(l.qubit_inds().values()) + 1
        out.append(l)
    return out


def parts(f):
    b = f.blocks
    ls = "log_meas_xzzx" if f.frame == "xzzx" else "log_meas"
    u = importlib.import_module("surface_sim.circuit_blocks.util")
    return b.qec_round, b.qec_round_iterator, getattr(u, ls), getattr(u, ls + "_iterator")


def subset(lays, spec):
    if spec is None:
        return None
    return [a for l in lays for a in memo.subset(l, spec)]


def run_merged(case, src):
    from surface_sim.util import merge_log_meas, merge_qec_rounds

    f = FAMS[case["fam"]]
    lays = layouts(case)
    _, it, _, mit = parts(f)
    inds = {q: i for l in lays for q, i in l.qubit_inds().items()}
    m = params.model(case["model"], src, inds)
    d = fam.detectors_for(*lays, frame=case["frame"])
    m.new_circuit()
    d.new_circuit()
    d.activate_detectors([a for l in lays for a in fam.ancs(l)])
    order = [lays[i] for i in case["order"]]
    anc = subset(order, case["ancs"])
    rounds = stim.Circuit()
    for _ in range(case["rounds"]):
        rounds += merge_qec_rounds(it, m, order, d, anc_reset=case["reset"], anc_detectors=anc)
    meas = merge_log_meas(mit, m, order, d, rot_bases=[case["bases"][i] for i in case["order"]], anc_reset=case["reset"],
                          anc_detectors=anc)
    for l in lays:  # the measured blocks can be initialised again, as after a separate measurement
        d.activate_detectors(fam.ancs(l))
    return lays, order, inds, rounds, meas


def run_alone(case, src, k):
    f = FAMS[case["fam"]]
    l = layouts(case)[k]
    rnd, _, ms, _ = parts(f)
    m = params.model(case["model"], src, l.qubit_inds())
    d = fam.detectors_for(l, frame=case["frame"])
    m.new_circuit()
    d.new_circuit()
    d.activate_detectors(fam.ancs(l))
    anc = subset([l], case["ancs"])
    rounds = stim.Circuit()
    for _ in range(case["rounds"]):
        rounds += rnd(m, l, d, anc_reset=case["reset"], anc_detectors=anc)
    meas = ms(m, l, d, rot_basis=case["bases"][k], anc_reset=case["reset"], anc_detectors=anc)
    return l, rounds, meas


def labelled(circ, inv):
    """Detectors {coords: set of (qubit, n)} and observables in terms of (qubit, n-th outcome)."""
    rec, count = [], {}
    for ins in cliff.flat(circ):
        if ins.name in cliff.MEAS:
            for t in ins.targets_copy():
                q = inv[t.value]
                rec.append((q, count.get(q, 0)))
                count[q] = count.get(q, 0) + 1
    _, _, coords, drecs, orecs = cliff.detectors_of(circ, [0] * len(rec))

    def lab(ix):
        s = set()
        for i in ix:
            s ^= {rec[i]}
        return s

    return [(c, lab(d)) for c, d in zip(coords, drecs)], {k: lab(v) for k, v in orecs.items()}


def idle_only(evs):
    return all(e.is_noise or e.name == "I" for e in evs)


def compare(case, src, differ):
    lays, order, inds, rounds, meas = run_merged(case, src)
    inv = {i: q for q, i in inds.items()}
    dets, obs = labelled(rounds + meas, inv)
    ms = [events.steps(rounds), events.steps(meas)]
    known = set(inv)
    for s in ms:
        for st in s:
            for e in st:
                if not set(e.targets) <= known:
                    yield f"unknown qubit index in {e}", True
                    return
    mine = []
    pos = {k: n for n, k in enumerate(case["order"])}
    if sorted(obs) != list(range(len(lays))):
        yield f"observables {sorted(obs)}", True
        return
    for k in range(len(lays)):
        l, r, m = run_alone(case, src, k)
        d1, o1 = labelled(r + m, inv)
        coords = {tuple(float(v) for v in l.param("coords", a)) for a in fam.ancs(l)}
        mine.append(coords)
        d2 = [x for x in dets if tuple(x[0][:-1]) in coords]
        if sorted(map(repr, ((c, sorted(s)) for c, s in d1))) != sorted(map(repr, ((c, sorted(s)) for c, s in d2))):
            yield f"block {k}: detectors differ from the separate ones", True
        if obs[pos[k]] != o1[0]:
            yield f"observable {pos[k]} consists of {sorted(obs[pos[k]])} instead of {sorted(o1[0])}", True
        qs = set(l.qubit_inds().values())
        for what, circ, merged in (("rounds", r, ms[0]), ("measurement", m, ms[1])):
            alone = events.steps(circ)
            part = [[e for e in st if set(e.targets) & qs] for st in merged]
            if what == "rounds" or len(set(case["bases"])) == 1:
                if len(alone) != len(part):
                    yield f"block {k}: {len(part)} time steps in the {what} instead of {len(alone)}", True
                    continue
                pairs = list(zip(part, alone))
            else:  # a block that needs fewer steps idles meanwhile
                pairs, j = [], 0
                spare = len(part) - len(alone)
                for st in part:
                    if spare > 0 and st and idle_only(st) and not (j < len(alone) and alone[j] and idle_only(alone[j])):
                        spare -= 1
                        by = events.by_qubit(st)
                        if case["model"] != "NoiselessModel" and any(len(v) > 1 for v in by.values()):
                            yield f"block {k}: several idles in an extra step", True
                        continue
                    if j >= len(alone):
                        j += 1
                        break
                    pairs.append((st, alone[j]))
                    j += 1
                if j != len(alone):
                    yield f"block {k}: the merged {what} does not contain the separate one", True
                    continue
            for t, (a, b) in enumerate(pairs):
                pa, pb = events.by_qubit(a), events.by_qubit(b)
                if set(pa) != set(pb):
                    yield f"block {k}: step {t} of the {what} acts on {sorted(pa)} instead of {sorted(pb)}", True
                    continue
                for q in pa:
                    yield f"block {k}, step {t} of the {what}, qubit {inv[q]}: {pa[q]} instead of {pb[q]}", differ(pa[q], pb[q])
    allc = set().union(*mine)
    if any(tuple(c[:-1]) not in allc for c, _ in dets):
        yield "a detector has unknown coordinates", True


def replay(case):
    try:
        src = params.Source(False, params.FLAGS[case["flags"]])
        for what, d in compare(case, src, lambda a, b: [tuple(x) for x in a] != [tuple(x) for x in b]):
            if d:
                return what
    except Exception as ex:
        if not rel.from_repo(ex):
            raise
        return f"raised {type(ex).__name__}: {ex}"
    return None


def one(ck, case):
    ck.covers("util.merge_qec_rounds", "util.merge_log_meas", "util.merge_tick_blocks",
              f"circuit_blocks.{FAMS[case['fam']].mod}.qec_round_iterator", "circuit_blocks.util.log_meas*", "models.library.*")
    ck.programs += 1
    sym.reset_tokens()
    conds = []
    try:
        src = params.Source(True, params.FLAGS[case["flags"]])
        for what, d in compare(case, src, events.differ):
            if d is True:
                ck.violation(case, what)
                return
            if d is not False:
                conds.append((what, d))
    except Exception as ex:
        if not rel.from_repo(ex):
            raise
        ck.violation(case, f"valid request raised {type(ex).__name__}: {ex}")
        return
    m = ck.refute(z3.Or([c for _, c in conds]) if conds else z3.BoolVal(False))
    if m is not None:
        ck.violation(case, conds[0][0])


def configs(ck):
    th = ck.thorough
    out = []
    fams = ["rot_css", "unrot_css", "rot_css_pipelined", "rot_xzzx", "rot_xzzx_pipelined"]
    B2 = [[False, False], [True, True], [False, True], [True, False]]

    def add(**kw):
        c = dict(fam="rot_css", sizes=[[2, 2], [2, 2]], order=[0, 1], bases=[False, False], reset=True, ancs=None,
                 model="CircuitNoiseModel", flags="all", frame="post-gate", rounds=2)
        c.update(kw)
        if c not in out:
            out.append(c)

    for fm in fams:
        for bases in B2:
            for flags in params.FLAGS:
                for md in params.MODELS:
                    if md in ("NoiselessModel", "IncomingNoiseModel") and flags != "all":
                        continue
                    add(fam=fm, bases=bases, flags=flags, model=md)
            for reset in (True, False):
                for frame in ("pre-gate", "post-gate", "gate-independent"):
                    for spec in (None, "none", "odd", "x", "one"):
                        add(fam=fm, bases=bases, reset=reset, frame=frame, ancs=spec, flags="mixed", rounds=2 if spec else 3)
            for order in ([1, 0], [0, 1]):
                add(fam=fm, bases=bases, order=order, sizes=[[2, 3], [3, 2]], flags="mixed")
                add(fam=fm, bases=bases, order=order, sizes=[[3, 3], [2, 2]], flags="far", model="BiasedCircuitNoiseModel")
        for bases in ([False, True, False], [True, True, False], [True, False, True]):
            for order in ([0, 1, 2], [2, 0, 1], [1, 0, 2]):
                add(fam=fm, sizes=[[2, 2], [2, 3], [2, 2]], bases=bases, order=order, flags="mixed", reset=False)
        add(fam=fm, sizes=[[2, 2]], order=[0], bases=[True])
        for var in fam.VARIANTS:
            for bases in B2:
                add(fam=fm, sizes=[[2, 3], [2, 2]], bases=bases, flags="mixed", var=var, order=[0, 1] if bases[0] else [1, 0])
            add(fam=fm, sizes=[[2, 2]] * 3, bases=[False, True, False], flags="mixed", var=var, order=[1, 2, 0])
        if th:
            for bases in B2:
                for order in ([1, 0], [0, 1]):
                    for flags in params.FLAGS:
                        for spec in (None, "odd"):
                            for rounds in (0, 1, 3):
                                add(fam=fm, sizes=[[3, 3], [3, 4]], bases=bases, order=order, flags=flags, ancs=spec, rounds=rounds)
                        add(fam=fm, sizes=[[5, 5], [3, 3]], bases=bases, order=order, flags=flags, rounds=2)
                        for md in params.MODELS:
                            add(fam=fm, sizes=[[3, 3], [4, 2]], bases=bases, order=order, flags=flags, model=md, reset=False)
    return out


def run(ck):
    it = configs(ck)
    ck.bounds = {"configurations": len(it), "blocks": "1..3", "sizes": "2..5", "rounds": "0..3", "parameters": "all values, one per qubit/pair"}
    ck.assumptions.append("the family interleaving a logical measurement in the round has no iterator for parallel rounds and is outside")
    ck.assumptions.append("models whose idle needs a duration cannot be used with the circuit blocks; they are covered in C11")
    ck.sample(it[0])
    ck.pmap(one, it)
