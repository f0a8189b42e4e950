"""C05: memory-experiment detectors are deterministic except the announced gauge ones."""
import stim

from vk import fam, rel, cliff, memo
from vk.fam import FAMS

LEVEL = "other"
EXPLANATION = (
    "The real memory_experiment of every family is built for every initial bitstring (symbolic bits, all paths of the "
    "builder for small codes; for larger codes one symbolic bit per data qubit in the X layer) and executed on a stabilizer "
    "tableau with symbolic measurement outcomes; the solver shows that every detector equals, for all outcomes and bits, 0 or "
    "(first detector of a stabilizer) the parity of the initial bits on it, up to a constant for the family with echo pulses, "
    "gauge detectors excepted, and that removing gauge detectors or ancillas leaves the others as is."
)


def parity(idx):
    s = 0
    for k in idx:
        s ^= 1 << k
    return s


def build(case):
    f, lay, c = memo.build_circuit(case, memo.bits(case, memo.layout(case)))
    return claims(case, f, lay, c)


def claims(case, f, lay, c):
    job = rel.Job(lay.qubit_inds(), c, entangle=[])
    job.records()
    _, _, coords, drecs, _ = cliff.detectors_of(c, [0] * job.num_rec)
    gk = memo.gauge_key(lay, case) if case["gauge"] else {}
    kept = {tuple(float(v) for v in lay.param("coords", a)): a
            for a in fam.ancs(lay, "x_type" if case["rot"] else "z_type")}
    D = fam.data(lay)
    seen = set()
    for k, (co, rs) in enumerate(zip(coords, drecs)):
        if tuple(co) in gk and case["rounds"]:
            continue
        a = kept.get(tuple(co[:-1]))
        bits = ()
        if a is not None and a not in seen and rs:
            bits = fam.nbrs(lay, a)  # the first detector of a stabilizer is its initial value
        seen.add(a)
        const = 0
        if f.google:
            const = None
        elif "init" in case:
            const = sum(int(case["init"][D.index(q)]) for q in bits) % 2
        job.claim(f"detector {k} at {co}", recs=rs, const=const)
        job.rels[-1].bits = bits
    if case.get("compare"):
        # the same experiment with gauge detectors and all ancillas: other detectors unchanged
        full = dict(case, gauge=True, ancs=None)
        _, _, c2 = memo.build_circuit(full, memo.bits({"init": "0" * len(D), **case}, lay))
        _, _, coords2, drecs2, _ = cliff.detectors_of(c2, [0] * job.num_rec)
        if job.require(len(coords2) == len(coords), f"{len(coords)} detectors instead of {len(coords2)}"):
            keep = memo.subset(lay, case.get("ancs"))
            keepc = None if keep is None else {tuple(float(v) for v in lay.param("coords", a)) for a in keep}
            g0 = memo.gauge_key(lay, case) if not case["gauge"] and case["rounds"] else {}
            for k in range(len(coords)):
                gone = tuple(coords[k]) in g0 or (keepc is not None and tuple(coords[k][:-1]) not in keepc)
                want = 0 if gone else parity(drecs2[k])
                job.require(coords[k] == coords2[k], f"detector {k} moved from {coords2[k]} to {coords[k]}")
                job.require(parity(drecs[k]) == want, f"detector {k} at {coords[k]} changed by dropping other detectors")
    return job


def replay(case):
    msg = rel.replay(case, build, shots=24)
    if msg is None and FAMS[case["fam"]].google:
        # constants may be flipped by the echo pulses, but must not depend on the initial bits
        out = []
        for init in (case["init"], "0" * len(case["init"])):
            job = build(dict(case, init=init))
            rec = stim.TableauSimulator(seed=5)
            rec.do(job.circuit)
            rec = rec.current_measurement_record()
            lay = memo.layout(case)
            D = fam.data(lay)
            out.append([(sum(rec[k] for k in r.recs) + sum(int(init[D.index(q)]) for q in r.bits)) % 2 for r in job.rels])
        if out[0] != out[1]:
            msg = "detectors depend on the initial bits in another way than through their first stabilizer value"
    return msg


def configs(ck):
    out = []
    th = ck.thorough
    for f in FAMS.values():
        rr = range(f.min_rounds(), 4)
        sizes = [(2, 2), (2, 3), (3, 3)] + ([(3, 2), (4, 3), (3, 4), (4, 4), (5, 5)] if th else [(4, 3)])
        for dx, dz in sizes:
            for rounds in rr if (dx, dz) != (5, 5) else (2, 3):
                if (dx, dz) in ((4, 3), (4, 4)) and rounds not in (1, 2, 3):
                    continue
                for rot in (False, True):
                    for reset in f.resets:
                        for frame in ("pre-gate", "post-gate", "gate-independent"):
                            if not th and (dx, dz) in ((2, 3), (4, 3)) and frame != "pre-gate":
                                continue
                            for gauge in (True, False):
                                out.append(dict(fam=f.name, dx=dx, dz=dz, rounds=rounds, rot=rot, reset=reset, frame=frame,
                                                gauge=gauge, ancs=None, compare=not gauge))
        for rounds in (1, 2, 3):
            for rot in (False, True):
                for spec in ("none", "x", "z", "one", "odd", "all"):
                    for gauge in (True, False):
                        for reset in f.resets:
                            out.append(dict(fam=f.name, dx=3, dz=3, rounds=rounds, rot=rot, reset=reset, frame="post-gate",
                                            gauge=gauge, ancs=spec, compare=True))
        for var in fam.VARIANTS:  # the same codes written down differently
            for dx, dz in ((2, 3), (3, 3)):
                for rot in (False, True):
                    for reset in f.resets:
                        for rounds in (1, 3):
                            gauge = rounds == 1
                            out.append(dict(fam=f.name, dx=dx, dz=dz, rounds=rounds, rot=rot, reset=reset, frame="post-gate",
                                            gauge=gauge, ancs="odd" if rot else None, var=var, compare=True))
        # many rounds (nothing may depend on how many rounds came before) and larger codes
        for rounds in (4, 5, 6, 7, 8, 10, 12) + ((16, 21, 32) if th else ()):
            for rot in (False, True):
                for reset in f.resets:
                    for frame in ("pre-gate", "gate-independent"):
                        for gauge in (True, False) if rounds < 9 else (False,):
                            out.append(dict(fam=f.name, dx=2, dz=2, rounds=rounds, rot=rot, reset=reset, frame=frame,
                                            gauge=gauge, ancs="odd" if rounds == 6 else None, compare=not gauge))
        for dx, dz in [(5, 2), (2, 5), (5, 5)] + ([(7, 3), (3, 7), (6, 6), (7, 7), (9, 3)] if th else []):
            for rot in (False, True):
                for reset in f.resets:
                    out.append(dict(fam=f.name, dx=dx, dz=dz, rounds=2, rot=rot, reset=reset, frame="post-gate", gauge=rot,
                                    ancs=None))
        if th:
            for rounds in (6, 9):
                for rot in (False, True):
                    for reset in f.resets:
                        for frame in ("pre-gate", "post-gate", "gate-independent"):
                            out.append(dict(fam=f.name, dx=3, dz=3, rounds=rounds, rot=rot, reset=reset, frame=frame, gauge=False,
                                            ancs=None, compare=True))
    return out


def one(ck, item):
    how, case = item
    ck.covers(f"experiments.{FAMS[case['fam']].mod}.memory_experiment", "detectors.Detectors.build_from_anc",
              "detectors.Detectors.build_from_data")
    memo.decide(ck, how, case, claims, build)


def items(ck):
    cs = configs(ck)
    out = [("sym", c) for c in cs]
    # full path exploration of the builder over the initial bits
    for f in FAMS.values():
        for rot in (False, True):
            for reset in f.resets:
                for rounds in (1, 2):
                    out.append(("paths", dict(fam=f.name, dx=2, dz=2, rounds=rounds, rot=rot, reset=reset, frame="post-gate",
                                              gauge=False, ancs=None)))
        if ck.thorough:
            for rot in (False, True):
                for reset in f.resets:
                    if f.kind == "rot":
                        out.append(("paths", dict(fam=f.name, dx=3, dz=3, rounds=2, rot=rot, reset=reset, frame="pre-gate",
                                                  gauge=False, ancs=None)))
                    out.append(("paths", dict(fam=f.name, dx=2, dz=3, rounds=2, rot=rot, reset=reset, frame="pre-gate",
                                              gauge=False, ancs=None)))
    return out


def run(ck):
    it = items(ck)
    ck.bounds = {"configurations": len(it), "sizes": "up to 9x3, 7x7 (thorough), 5x5 (quick)",
                 "rounds": "0..8, 10, 12 (thorough up to 32)",
                 "frames": 3}
    ck.sample(it[0][1])
    ck.pmap(one, it)
