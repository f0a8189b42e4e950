"""C07: fewer faults than the code distance never make an undetected logical error in a memory experiment."""
from vk import cliff, env, fam, fault, memo, rel
from vk.fam import FAMS

LEVEL = "other"
EXPLANATION = (
    "The real noisy memory experiment is executed on a stabilizer tableau in which every elementary fault of every noise "
    "channel has its own symbol; its detector/observable signature is read off exactly, equal signatures are merged, and a "
    "SAT solver shows that no choice of fewer than d faults leaves all detectors silent and flips the observable (and finds "
    "one with d faults). Every non-empty detector must depend on some fault."
)


def circuit(case):
    from surface_sim.setup import Setup

    f = FAMS[case["fam"]]
    lay = memo.layout(case)
    p = 0.01
    st = Setup(dict(setup=[dict(sq_error_prob=p, tq_error_prob=p, meas_error_prob=p, reset_error_prob=p, idle_error_prob=p,
                                assign_error_flag=True, assign_error_prob=p, biased_pauli="pauli", biased_factor=0.5)]))
    st.set_var_param("pauli", "Z")
    model = fam.model_for(lay, cls=case.get("model", "CircuitNoiseModel"), setup=st)
    dets = fam.detectors_for(lay, frame="post-gate")
    init = dict.fromkeys(fam.data(lay), 0)
    c = f.memory(model, lay, dets, case["rounds"], init, rot_basis=case["rot"], anc_reset=case["reset"], gauge=case["gauge"])
    return f, lay, c


def distance(case):
    return case["dz"] if case["rot"] else case["dx"]


def replay(case):
    kind = case["kind"]
    try:
        f, lay, c = circuit(case)
    except Exception as ex:
        if rel.from_repo(ex):
            return f"raised {type(ex).__name__}: {ex}"
        raise
    locs = fault.locations(c)
    if kind == "build":
        return None
    ref = c.without_noise()
    if kind == "random":
        outs = {fault.evaluate(ref, s)[1].get(0) for s in range(24)}
        return "observable is random without any fault" if len(outs) > 1 else None
    if kind == "observable":
        return None if list(fault.evaluate(ref)[1]) == [0] else "not exactly one observable"
    if kind == "faults":
        fs = [(n, tuple(x) if isinstance(x, list) else x) for n, x in case["faults"]]
        assert len(fs) < distance(case)
        cf = fault.with_faults(c, locs, fs)
        same, flip = True, True
        for s in range(8):
            d0, o0 = fault.evaluate(ref, s)
            d1, o1 = fault.evaluate(cf, s)
            if case.get("skip"):
                d0 = [v for i, v in enumerate(d0) if i not in case["skip"]]
                d1 = [v for i, v in enumerate(d1) if i not in case["skip"]]
            same &= d0 == d1
            flip &= o0.get(0) != o1.get(0)
        return f"{len(fs)} faults flip the observable and no detector fires" if same and flip else None
    if kind == "insensitive":
        k = case["detector"]
        dem = c.detector_error_model(allow_gauge_detectors=True)
        for ins in dem.flattened():
            if ins.type == "error" and any(t.is_relative_detector_id() and t.val == k for t in ins.targets_copy()):
                return None
        return f"detector {k} is not sensitive to any fault"
    if kind == "attain":
        # distance-many faults on the logical operator right after the first time the data qubits are all exposed
        s = fault.Signatures(c)
        r, _ = fault.undetected(s, distance(case))
        return None if r else "no combination of distance-many faults is a logical error"
    raise KeyError(kind)


def one(ck, case):
    f0 = FAMS[case["fam"]]
    ck.covers(f"experiments.{f0.mod}.memory_experiment", f"models.library.{case.get('model', 'CircuitNoiseModel')}",
              f"circuit_blocks.{f0.mod}.qec_round")
    ck.programs += 1
    ok, res = ck.guard(dict(case, kind="build"), circuit, case)
    if not ok:
        return
    f, lay, c = res
    s = fault.Signatures(c)
    d = distance(case)
    if list(s.obs) != [0]:
        ck.violation(dict(case, kind="observable"), "not exactly one observable")
        return
    if s.random_obs:
        ck.violation(dict(case, kind="random"), "observable not deterministic")
        return
    cl = s.classes()
    # the gauge detectors are projected out, so silence is required of every deterministic combination of detectors
    low, st = fault.undetected(s, d - 1, cl)
    ck.obligations += 1
    if low is None:
        ck.discharged += 1
    else:
        ck.violation(dict(case, kind="faults", faults=low, skip=s.random_dets), f"{case}: {len(low)} undetected faults {low}")
        return
    hit, st2 = fault.undetected(s, d, cl)
    ck.obligations += 1
    if hit is None:
        ck.violation(dict(case, kind="attain"), f"{case}: distance-many faults are never a logical error")
    else:
        ck.discharged += 1
        ck.witness += 1
    ck.obligations += 1
    dead = [k for k, (e, r) in enumerate(zip(s.dets, s.det_recs)) if r and not e & s.fmask]
    if dead:
        ck.violation(dict(case, kind="insensitive", detector=dead[0]), f"{case}: detector {dead[0]} sees no fault")
    else:
        ck.discharged += 1
    ck.sample({**case, "locations": len(s.locs), "fault_classes": len(cl), **st})


def cases(ck):
    out = []
    for f in FAMS.values():
        sizes = [(2, 2), (2, 3), (3, 2), (3, 3), (4, 3), (3, 5)]
        for dx, dz in sizes:
            for rot in (False, True):
                if (dx, dz) == (3, 5) and rot:
                    continue
                for reset in f.resets:
                    for rounds in {f.min_rounds(), 1, 2, 3}:
                        if (dx, dz) in ((4, 3), (3, 5)) and rounds != 3:
                            continue
                        for gauge in (False, True):
                            if gauge and rounds != 2:
                                continue
                            out.append(dict(fam=f.name, dx=dx, dz=dz, rounds=rounds, rot=rot, reset=reset, gauge=gauge))
        for var in fam.VARIANTS:
            for dx, dz in ((2, 3), (3, 3)):
                for rot in (False, True):
                    out.append(dict(fam=f.name, dx=dx, dz=dz, rounds=2, rot=rot, reset=f.resets[rot and -1], gauge=False, var=var))
        for rounds in (4, 5, 6, 8):
            for rot in (False, True):
                for reset in f.resets:
                    out.append(dict(fam=f.name, dx=2, dz=2, rounds=rounds, rot=rot, reset=reset, gauge=False))
        for mdl in ("PhenomenologicalNoiseModel", "BiasedCircuitNoiseModel"):
            for rot in (False, True):
                for reset in f.resets:
                    out.append(dict(fam=f.name, dx=3, dz=3, rounds=3, rot=rot, reset=reset, gauge=False, model=mdl))
        if ck.thorough:
            for dx, dz, rounds in ((4, 4, 4), (3, 3, 6), (5, 5, 2), (5, 5, 5), (5, 3, 5)):
                for rot in (False, True):
                    for reset in f.resets:
                        if f.kind == "unrot" and dx == dz == 5 and rounds > 2:
                            continue
                        out.append(dict(fam=f.name, dx=dx, dz=dz, rounds=rounds, rot=rot, reset=reset, gauge=False))
    return out


def run(ck):
    cs = cases(ck)
    cs.sort(key=lambda c: -c["dx"] * c["dz"] * c["rounds"])
    ck.bounds = {"experiments": len(cs), "sizes": "2x2..3x5 (quick), up to 5x5 (thorough)", "rounds": "0..6, 8",
                 "faults": "all sets of fewer than distance faults over all locations"}
    ck.pmap(one, cs, chunk=1)
