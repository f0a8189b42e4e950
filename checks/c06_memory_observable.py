"""C06: the observable of a memory experiment is the encoded logical value."""
import stim

from vk import fam, rel, cliff, memo
from vk.fam import FAMS

LEVEL = "other"
EXPLANATION = (
    "The real memory_experiment of every family is built for symbolic initial bits (all paths for small codes, one symbolic "
    "bit per data qubit in the X layer for larger ones) and executed on a stabilizer tableau with symbolic outcomes; the "
    "solver shows that the only observable equals the parity of the initial bits on the logical operator for all outcomes "
    "and bits, and the recorded outcomes are checked to be the last measurements of exactly the logical support."
)


def build(case):
    f, lay, c = memo.build_circuit(case, memo.bits(case, memo.layout(case)))
    return claims(case, f, lay, c)


def claims(case, f, lay, c):
    job = rel.Job(lay.qubit_inds(), c, entangle=[])
    recs = job.records()
    _, obs, _, _, orecs = cliff.detectors_of(c, [1 << k for k in range(job.num_rec)])
    if not job.require(list(obs) == [0], f"observables {sorted(obs)} instead of exactly one with number 0"):
        return job
    sup = set(fam.logical(lay, "X" if case["rot"] else "Z", f.frame))
    D = fam.data(lay)
    for q in D:
        job.require(len(recs.get(q, [])) == 1, f"data qubit {q} measured {len(recs.get(q, []))} times")
    if job.problems:
        return job
    want = 0
    for q in sup:
        want ^= 1 << recs[q][-1]
    job.require(obs[0] == want, "observable is not made of the final measurements of the logical operator's data qubits")
    const = 0
    if f.google:
        const = None
    elif "init" in case:
        const = sum(int(case["init"][D.index(q)]) for q in sup) % 2
    job.claim("observable", recs=sorted(set(orecs[0]), key=orecs[0].index) if len(set(orecs[0])) == len(orecs[0]) else orecs[0],
              const=const)
    job.rels[-1].bits = tuple(sup)
    return job


def replay(case):
    msg = rel.replay(case, build, shots=24)
    if msg is None and FAMS[case["fam"]].google:
        out = []
        for init in (case["init"], "0" * len(case["init"])):
            job = build(dict(case, init=init))
            sim = stim.TableauSimulator(seed=5)
            sim.do(job.circuit)
            rec = sim.current_measurement_record()
            D = fam.data(memo.layout(case))
            out.append([(sum(rec[k] for k in r.recs) + sum(int(init[D.index(q)]) for q in r.bits)) % 2 for r in job.rels])
        if out[0] != out[1]:
            msg = "the observable does not follow the initial bits"
    return msg


def configs(ck):
    th = ck.thorough
    out = []
    for f in FAMS.values():
        sizes = [(2, 2), (2, 3), (3, 2), (3, 3), (4, 3), (3, 4)] + ([(4, 4), (5, 3), (3, 5), (5, 5), (7, 3)] if th else [])
        for dx, dz in sizes:
            for rounds in range(f.min_rounds(), 5 if th else 4):
                for rot in (False, True):
                    for reset in f.resets:
                        for frame in ("pre-gate", "post-gate", "gate-independent"):
                            if frame != "post-gate" and not (rounds == 2 and (dx, dz) == (3, 3)):
                                continue
                            for gauge in (True, False):
                                for spec in (None, "none", "odd") if (dx, dz) == (3, 3) else (None,):
                                    out.append(("sym", dict(fam=f.name, dx=dx, dz=dz, rounds=rounds, rot=rot, reset=reset,
                                                            frame=frame, gauge=gauge, ancs=spec)))
        for var in fam.VARIANTS:  # the same codes written down differently
            for dx, dz in ((2, 3), (3, 3), (4, 3)):
                for rot in (False, True):
                    for reset in f.resets:
                        for rounds in (1, 2) if dx < 4 else (1,):
                            out.append(("sym", dict(fam=f.name, dx=dx, dz=dz, rounds=rounds, rot=rot, reset=reset, frame="post-gate",
                                                    gauge=True, ancs=None, var=var)))
        for rounds in (4, 5, 6, 7, 8, 10, 12) + ((16, 21, 32) if th else ()):
            for rot in (False, True):
                for reset in f.resets:
                    out.append(("sym", dict(fam=f.name, dx=2, dz=2, rounds=rounds, rot=rot, reset=reset, frame="pre-gate",
                                            gauge=rounds % 2 == 0, ancs=None)))
        for dx, dz in [(5, 2), (2, 5), (5, 5)] + ([(6, 6), (7, 7), (9, 3), (3, 9)] if th else []):
            for rot in (False, True):
                for reset in f.resets:
                    out.append(("sym", dict(fam=f.name, dx=dx, dz=dz, rounds=1, rot=rot, reset=reset, frame="post-gate",
                                            gauge=False, ancs=None)))
        small = [(2, 2)] + ([(2, 3), (3, 2)] if th else []) + ([(3, 3)] if th and f.kind == "rot" else [])
        for dx, dz in small:
            for rot in (False, True):
                for reset in f.resets:
                    for rounds in (f.min_rounds(), 2):
                        out.append(("paths", dict(fam=f.name, dx=dx, dz=dz, rounds=rounds, rot=rot, reset=reset,
                                                  frame="post-gate", gauge=False, ancs=None,
                                                  order=("layout", "reversed", "interleaved")[rounds % 3])))
    return out


def one(ck, item):
    how, case = item
    ck.covers(f"experiments.{FAMS[case['fam']].mod}.memory_experiment", "circuit_blocks.util.init_qubits*",
              "circuit_blocks.util.log_meas*")
    memo.decide(ck, how, case, claims, build)


def run(ck):
    it = configs(ck)
    ck.bounds = {"configurations": len(it), "sizes": "up to 9x3/7x7 (thorough), 5x5 (quick)", "rounds": "0..8, 10, 12 (thorough 32)"}
    ck.sample(it[0][1])
    ck.pmap(one, it)
