"""C09: logical Pauli gates, initialisation and logical measurement act as specified."""
from vk import cliff, fam, memo, rel, sym
from vk.fam import FAMS

LEVEL = "other"
EXPLANATION = (
    "The real log_x/log_z/init_qubits/log_meas blocks of every family are executed on a maximally entangled (Choi) state, so "
    "one run covers every input state; for init the data bits are symbolic (all builder paths for small codes, unit strings "
    "are not sampled). The solver shows the required Pauli relations and record parities for all outcomes."
)


def objects(case):
    f = FAMS[case["fam"]]
    kw = {}
    if case.get("off"):
        kw = dict(init_ind=5, init_point=(3, -2), init_data_qubit_id=7, init_zanc_qubit_id=4, init_xanc_qubit_id=11,
                  logical_qubit_label="LQ")
    lay = fam.variant(fam.code(f.kind, case["dx"], case["dz"], **kw), case.get("var"))
    other = fam.second(f.kind, 2, 2, first=lay, shift=(300, 300)) if case.get("two") else None
    lays = [lay] + ([other] if other is not None else [])
    if case.get("off") and other is not None:
        raise KeyError
    model = fam.model_for(*lays)
    dets = fam.detectors_for(*lays, frame=case.get("frame", "pre-gate"))
    model.new_circuit()
    dets.new_circuit()
    return f, lay, lays, model, dets


def build(case):
    f, lay, lays, model, dets = objects(case)
    inds = {}
    for l in lays:
        inds.update(l.qubit_inds())
    D, A = fam.data(lay), fam.ancs(lay)
    op = case["op"]
    if op in ("log_x", "log_z"):
        dets.activate_detectors(A)
        circ = getattr(f.blocks, op)(model, lay, dets)
        job = rel.Job(inds, circ)
        job.require(not job.records() and not any(i.name in ("DETECTOR", "OBSERVABLE_INCLUDE") for i in circ),
                    f"{op} contains measurements or annotations")
        for a, s in fam.stabs(lay, f.frame).items():
            job.claim(f"{op}: stabilizer {a} unchanged", on=s, ref=s, const=0)
        for w in "XZ":
            L = fam.logical(lay, w, f.frame)
            job.claim(f"{op}: logical {w}", on=L, ref=L, const=int(w.lower() != op[-1]))
        untouched(job, A + [q for l in lays[1:] for q in l.get_qubits()])
        return job
    if op == "init":
        init = memo.bits(case, lay)
        circ = f.blocks.init_qubits(model, lay, dets, data_init=init, rot_basis=case["rot"])
        return init_claims(case, f, lay, lays, inds, circ)
    if op == "meas":
        dets.activate_detectors(A)
        circ = f.blocks.log_meas(model, lay, dets, rot_basis=case["rot"], anc_reset=case["reset"])
        job = rel.Job(inds, circ)
        recs = job.records()
        for q in D:
            job.require(len(recs.get(q, [])) == 1, f"data qubit {q} measured {len(recs.get(q, []))} times")
        job.require(job.num_rec == len(D), "qubits other than the data qubits are measured")
        if job.problems:
            return job
        basis = fam.init_basis(lay, f.frame, case["rot"])
        for q in D:
            job.claim(f"outcome of {q}", ref={q: basis[q]}, recs=recs[q], const=0)
        _, obs, coords, drecs, orecs = cliff.detectors_of(circ, [1 << k for k in range(job.num_rec)])
        if job.require(list(obs) == [0], f"observables {list(obs)}"):
            job.claim("observable", ref=fam.logical(lay, "X" if case["rot"] else "Z", f.frame), recs=orecs[0], const=0)
        t = "x_type" if case["rot"] else "z_type"
        S = fam.stabs(lay, f.frame)
        want = {tuple(float(v) for v in lay.param("coords", a)): a for a in fam.ancs(lay, t)}
        if job.require(sorted(c[:-1] for c in coords) == sorted(want), f"detectors at {coords}"):
            for c, r in zip(coords, drecs):
                a = want[c[:-1]]
                job.claim(f"reconstructed stabilizer {a}", ref=S[a], recs=r, const=0)
        untouched(job, [q for l in lays[1:] for q in l.get_qubits()])
        return job
    raise KeyError(op)


def untouched(job, qs):
    for q in qs:
        for p in "XZ":
            job.claim(f"{q} untouched", on={q: p}, ref={q: p}, const=0)


def init_claims(case, f, lay, lays, inds, circ):
    job = rel.Job(inds, circ)
    job.require(not job.records(), "initialisation contains measurements")
    basis = fam.init_basis(lay, f.frame, case["rot"])
    for k, q in enumerate(fam.data(lay)):
        job.claim(f"{q} prepared", on={q: basis[q]}, const=int(case["init"][k]) if "init" in case else 0)
    for a in fam.ancs(lay):
        job.claim(f"{a} prepared in 0", on={a: "Z"}, const=0)
    untouched(job, [q for l in lays[1:] for q in l.get_qubits()])
    return job


def replay(case):
    return rel.replay(case, build)


def one(ck, item):
    how, case = item
    f = FAMS[case["fam"]]
    fn = {"meas": "log_meas", "init": "init_qubits"}.get(case["op"], case["op"])
    ck.covers(f"circuit_blocks.{f.mod}.{fn}")
    if how == "plain":
        rel.decide(ck, case, build)
        return
    if how == "symbolic":
        r = symbolic_init(ck, case)
        if r is not None:
            return
        ck.degraded.append("init_qubits: all-0/all-1 circuits differ by more than X gates; bit strings enumerated")
        n = len(fam.data(fam.code(f.kind, case["dx"], case["dz"])))
        for s in ["0" * n, "1" * n] + ["0" * k + "1" + "0" * (n - k - 1) for k in range(n)]:
            rel.decide(ck, dict(case, init=s), build)
        return
    # paths: the initial bits are symbolic booleans of the real builder
    n = len(fam.data(fam.code(f.kind, case["dx"], case["dz"])))
    ex = sym.Explorer()

    def go():
        f, lay, lays, model, dets = objects(case)
        D = fam.data(lay)
        init = {q: sym.fresh_bool(f"b_{q}") for q in D}
        try:
            f.blocks.init_qubits(model, lay, dets, data_init=memo.ordered(init, case), rot_basis=case["rot"])
        except Exception as e:
            if not rel.from_repo(e):
                raise
        return "".join(str(int(bool(init[q]))) for q in D)

    for s in ex.run(go):
        ck.paths += 1
        rel.decide(ck, dict(case, init=s), build)
    assert ck.paths >= 2 ** n


def symbolic_init(ck, case):
    """Both extreme strings built by the real code; they may only differ by X gates in one step, executed as X^b."""
    ck.programs += 1
    circs = []
    for b in "01":
        f, lay, lays, model, dets = objects(case)
        D = fam.data(lay)
        ok, c = ck.guard(dict(case, init=b * len(D)), f.blocks.init_qubits, model, lay, dets,
                         data_init={q: int(b) for q in D}, rot_basis=case["rot"])
        if not ok:
            return True
        circs.append(c)
    inds = {}
    for l in lays:
        inds.update(l.qubit_inds())
    b0, b1 = memo.blocks(circs[0]), memo.blocks(circs[1])
    k = memo.bit_step(b0, b1, {inds[q] for q in D})
    if k is None:
        return None
    job = init_claims({a: v for a, v in case.items() if a != "init"}, f, lay, lays, inds, circs[1])
    c = fam.Choi(inds)
    bit = {}
    names = {inds[q]: q for q in D}
    for n, b in enumerate(b1):
        for ins in b:
            if n == k and ins.name == "X":
                for t in ins.targets_copy():
                    q = names[t.value]
                    bit[q] = c.t.sym.new(f"bit_{q}")
                    c.t.pauli(1 << c.pos[q], 0, bit[q])
            else:
                c.t.step(ins, c.qmap)
    es = []
    for r in job.rels:
        e = c.exp(r.on, r.ref)
        if e is None:
            ck.violation(dict(case, init="1" * len(D)), f"{case}: {r.name}: not determined")
            return True
        if r.name.endswith("prepared"):
            e ^= bit[next(iter(r.on))]
        es.append(e)
    hit = ck.refute_affine(c.t.sym, es)
    if hit is not None:
        init = "".join(str(hit[1].get(f"bit_{q}", 0)) for q in D)
        ck.violation(dict(case, init=init), f"{case}: {job.rels[hit[0]].name} violated for {hit[1]}")
    return True


def items(ck):
    out = []
    sizes = [(2, 2), (2, 3), (3, 2), (3, 3), (4, 3), (3, 4), (5, 5)] + (
        [(a, b) for a in range(2, 8) for b in range(2, 8)] if ck.thorough else [(4, 4), (2, 5)])
    for f in FAMS.values():
        for dx, dz in dict.fromkeys(sizes):
            for extra in ({}, {"two": 1}, {"off": 1}, *({"var": v} for v in fam.VARIANTS)):
                if extra and (dx, dz) not in ((3, 3), (2, 3)):
                    continue
                base = dict(fam=f.name, dx=dx, dz=dz, **extra)
                for op in ("log_x", "log_z"):
                    out.append(("plain", dict(base, op=op)))
                for rot in (False, True):
                    out.append(("symbolic", dict(base, op="init", rot=rot)))
                    n = dx * dz if f.kind == "rot" else dx * dz + (dx - 1) * (dz - 1)
                    for order in ("layout", "reversed", "interleaved"):
                        for s in ("100" * n, "0" * (n // 2) + "1" * n):
                            out.append(("plain", dict(base, op="init", rot=rot, init=s[:n], order=order)))
                    if hasattr(f.blocks, "log_meas"):
                        for reset in (True, False):
                            for frame in ("pre-gate", "post-gate", "gate-independent"):
                                if frame != "pre-gate" and dx * dz > 9:
                                    continue
                                out.append(("plain", dict(base, op="meas", rot=rot, reset=reset, frame=frame)))
        small = [(2, 2), (2, 3)] + ([(3, 3)] if f.kind == "rot" else [])
        for dx, dz in small if ck.thorough else small[:1]:
            for rot in (False, True):
                out.append(("paths", dict(fam=f.name, dx=dx, dz=dz, op="init", rot=rot, order="reversed" if rot else "interleaved")))
    return out


def run(ck):
    it = items(ck)
    ck.bounds = {"blocks checked": len(it), "sizes": "2x2..5x5 (quick), all up to 7x7 (thorough)",
                 "init strings": "all (symbolic bits); all builder paths for 2x2 (thorough up to 3x3)"}
    ck.pmap(one, it)
