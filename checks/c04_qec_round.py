"""C04: one noiseless QEC round is the projective measurement of all stabilizers."""
from vk import fam, rel, cliff
from vk.fam import FAMS

LEVEL = "other"
EXPLANATION = (
    "The real qec_round of every circuit family is executed on a maximally entangled (Choi) state with symbolic "
    "measurement outcomes; for every ancilla a the solver shows outcome = eigenvalue of S_a before = eigenvalue after, and "
    "that the logical operators are untouched. By the Choi isomorphism this covers every input state of data and ancilla "
    "qubits. Bounded by code size."
)


def build(case):
    f = FAMS[case["fam"]]
    lay = fam.variant(fam.code(f.kind, case["dx"], case["dz"]), case.get("var"))
    model = fam.model_for(lay)
    dets = fam.detectors_for(lay, frame="post-gate")
    model.new_circuit()
    dets.new_circuit()
    dets.activate_detectors(fam.ancs(lay))
    if case.get("log") is not None:
        circ = f.blocks.qec_round_with_log_meas(model, lay, dets, rot_basis=case["log"])
    else:
        circ = f.round(model, lay, dets, case["reset"])
    inds = lay.qubit_inds()
    job = rel.Job(inds, circ)
    recs = job.records()
    if case.get("log") is not None:
        return log_round(case, f, lay, job, recs)
    for a in fam.ancs(lay):
        job.require(len(recs.get(a, [])) == 1, f"ancilla {a} measured {len(recs.get(a, []))} times in a round")
    job.require(job.num_rec == len(fam.ancs(lay)), f"{job.num_rec} measurements in a round, expected one per ancilla")
    if job.problems:
        return job
    S = fam.stabs(lay, f.frame)
    c = None if f.google else 0
    for a, s in S.items():
        prev = {} if case["reset"] or f.google else {a: "Z"}
        if f.google:  # resets at the end: needs the ancilla in |0> at the start
            prev = {a: "Z"}
        job.claim(f"outcome of {a} = eigenvalue of its stabilizer before the round", ref={**s, **prev}, recs=recs[a], const=c)
        if prev:
            job.claim(f"stabilizer of {a} after the round", on=s, ref=prev, recs=recs[a], const=c)
        else:
            job.claim(f"stabilizer of {a} after the round", on=s, recs=recs[a], const=c)
        if f.google:
            job.claim(f"ancilla {a} is reset", on={a: "Z"})
        else:
            job.claim(f"ancilla {a} is left in its outcome", on={a: "Z"}, recs=recs[a])
    for w in "XZ":
        L = fam.logical(lay, w, f.frame)
        job.claim(f"logical {w} untouched", on=L, ref=L, const=c)
    return job


def log_round(case, f, lay, job, recs):
    """QEC round that ends with the logical measurement (ancillas in |0> at the start)."""
    rot = case["log"]
    for q in fam.ancs(lay) + fam.data(lay):
        job.require(len(recs.get(q, [])) == 1, f"{q} measured {len(recs.get(q, []))} times")
    if job.problems:
        return job
    for a, s in fam.stabs(lay, f.frame).items():
        job.claim(f"outcome of {a} = eigenvalue of its stabilizer", ref={**s, a: "Z"}, recs=recs[a], const=None)
        if lay.param("stab_type", a) == ("x_type" if rot else "z_type"):
            job.claim(f"data outcomes give stabilizer {a}", ref=s, recs=[recs[q][0] for q in s], const=None)
    L = fam.logical(lay, "X" if rot else "Z", f.frame)
    job.claim("data outcomes give the logical operator", ref=L, recs=[recs[q][0] for q in L], const=None)
    _, obs, _, _, orecs = cliff.detectors_of(job.circuit, [1 << k for k in range(job.num_rec)])
    job.require(list(obs) == [0] and obs[0] == sum(1 << recs[q][0] for q in L), "observable is not the logical operator")
    return job


def replay(case):
    return rel.replay(case, build)


def sizes(f, thorough):
    if thorough:
        m = 7
        base = [(a, b) for a in range(2, 6) for b in range(2, 6)] + [(7, 7), (3, 7), (7, 2), (6, 6), (9, 9)]
        return base
    return [(2, 2), (2, 3), (3, 2), (3, 3), (3, 4), (4, 3), (4, 4), (2, 5), (5, 3), (5, 5)]


def one(ck, case):
    f = FAMS[case["fam"]]
    ck.covers(f"circuit_blocks.{f.mod}." + ("qec_round" if "log" not in case else "qec_round_with_log_meas"))
    rel.decide(ck, case, build)
    ck.sample(case)


def run(ck):
    ck.bounds = {"sizes (dx,dz)": [str(s) for s in sizes(None, ck.thorough)], "rounds": 1,
                 "layouts": ["as generated", *fam.VARIANTS]}
    it = []
    for f in FAMS.values():
        for dx, dz in sizes(f, ck.thorough):
            for var in (None, *fam.VARIANTS):
                if var and (dx, dz) not in ((2, 2), (2, 3), (3, 2), (3, 3), (4, 3)) and not ck.thorough:
                    continue
                extra = {"var": var} if var else {}
                for r in f.resets:
                    it.append(dict(fam=f.name, dx=dx, dz=dz, reset=r, **extra))
                for log in (False, True) if f.google else ():
                    it.append(dict(fam=f.name, dx=dx, dz=dz, reset=True, log=log, **extra))
    ck.pmap(one, it)
