"""C10: detectors stay deterministic through every history of rounds and logical gates."""
import importlib

import stim

from vk import cliff, fam, rel, sym
from vk.env import CheckError

LEVEL = "other"
EXPLANATION = (
    "Histories (sequences of QEC rounds, logical Paulis, transversal gates in every direction and a final measurement) are "
    "chosen nondeterministically up to a length bound and assembled by the real circuit blocks with the real Detectors object. "
    "The data qubits start maximally entangled with references (all input states) and all measurement outcomes are symbolic; "
    "the solver shows that every detector after the first round is constant, that the ancillas of the new round enter with full "
    "rank, that the final observables follow the logical evolution, and that the pre- and post-gate frames span the same "
    "parities round by round."
)
MOD = {"rot": "rot_surface_code_css", "rotp": "rot_surface_code_css_pipelined", "unrot": "unrot_surface_code_css"}


def kind(case):
    return "unrot" if case["fam"] == "unrot" else "rot"


_cache = {}


def layouts(case):
    """Layouts with all transversal gates of the code set up (read only from here on)."""
    key = (kind(case), case["dx"], case["dz"], case["blocks"], case.get("var"))
    if key not in _cache:
        k = kind(case)
        a = fam.variant(fam.code(k, case["dx"], case["dz"]), case.get("var"))
        lays = [a]
        if case["blocks"] == 2:
            lays.append(fam.variant(fam.second(k, case["dx"], case["dz"], first=a), case.get("var") and "interleaved"))
        g = importlib.import_module("surface_sim.log_gates." + MOD[k])
        for l in lays:
            c = min(fam.data(l), key=lambda q: tuple(l.param("coords", q)))
            if (k == "unrot" and case["dx"] == case["dz"]) or (k == "rot" and case["dz"] == case["dx"] + 1):
                g.set_trans_s(l, c)
            if k == "unrot" and case["dx"] == case["dz"]:
                g.set_trans_h(l, c)
        if len(lays) == 2:
            g.set_trans_cnot(lays[0], lays[1])
            g.set_trans_cnot(lays[1], lays[0])
        _cache[key] = lays
    return _cache[key]


def run_history(case, frame, start):
    """The circuit of a history; start: 'choi' (no initialisation) or a list of bases."""
    from surface_sim.util import merge_log_meas, merge_qec_rounds, merge_circuits

    lays = layouts(case)
    b = importlib.import_module("surface_sim.circuit_blocks." + MOD[case["fam"]])
    model = fam.model_for(*lays)
    dets = fam.detectors_for(*lays, frame=frame)
    model.new_circuit()
    dets.new_circuit()
    reset = case["reset"]
    circ = stim.Circuit()
    if start == "choi":
        for l in lays:
            dets.activate_detectors(fam.ancs(l))
    else:
        parts = [b.init_qubits(model, l, dets, data_init={q: 0 for q in fam.data(l)}, rot_basis=r) for l, r in zip(lays, start)]
        for p in parts:
            circ += p
    on = [True] * len(lays)
    for n, op in enumerate(case["ops"]):
        if op == "R":
            act = [l for l, o in zip(lays, on) if o]
            if len(act) == 1:
                circ += b.qec_round(model, act[0], dets, anc_reset=reset)
            elif act:
                circ += merge_qec_rounds(b.qec_round_iterator, model, act, dets, anc_reset=reset)
        elif op[0] == "M":  # logical measurement of one block in the middle of the circuit
            k = int(op[1])
            circ += b.log_meas(model, lays[k], dets, rot_basis=bool(n % 2), anc_reset=reset)
            on[k] = False
        elif op[0] == "I":  # and its re-initialisation
            k = int(op[1])
            circ += b.init_qubits(model, lays[k], dets, data_init={q: 0 for q in fam.data(lays[k])}, rot_basis=bool(n % 2))
            on[k] = True
        elif op[0] == "C":
            circ += b.log_trans_cnot(model, lays[int(op[1])], lays[int(op[2])], dets)
        else:
            fn = {"X": b.log_x, "Z": b.log_z, "S": getattr(b, "log_trans_s", None), "H": getattr(b, "log_trans_h", None)}[op[0]]
            circ += fn(model, lays[int(op[1])], dets)
    if case.get("final") is not None:
        if len(lays) == 1:
            circ += b.log_meas(model, lays[0], dets, rot_basis=case["final"][0], anc_reset=reset)
        else:
            circ += merge_log_meas(b.log_meas_iterator, model, lays, dets, rot_bases=list(case["final"]), anc_reset=reset)
    return lays, circ


def obs_images(case):
    """For every block, the logical Pauli (dict (block) -> 'X'/'Z'/'Y' masks) that the final observable is at the start."""
    nb = case["blocks"]
    out = []
    for k in range(nb):
        x = [0] * nb
        z = [0] * nb
        (x if case["final"][k] else z)[k] = 1
        for op in reversed(case["ops"]):
            if op == "R" or op[0] in "XZ":
                continue
            if op[0] == "S":  # X -> Y
                i = int(op[1])
                z[i] ^= x[i]
            elif op[0] == "H":
                i = int(op[1])
                x[i], z[i] = z[i], x[i]
            else:
                c, t = int(op[1]), int(op[2])
                x[t] ^= x[c]
                z[c] ^= z[t]
        out.append((x, z))
    return out


def build(case):
    """Job of one history: one frame, Choi start or initialised start."""
    start = case.get("start", "choi")
    lays, circ = run_history(case, case["frame"], start)
    inds = {}
    for l in lays:
        inds.update(l.qubit_inds())
    D = [q for l in lays for q in fam.data(l)]
    job = rel.Job(inds, circ, entangle=D if start == "choi" else [])
    job.records()
    _, obs, coords, drecs, orecs = cliff.detectors_of(circ, [0] * job.num_rec)
    if any(o[0] in "MI" for o in case["ops"]):
        return mid_circuit(case, lays, job, coords, drecs)
    nA = sum(len(fam.ancs(l)) for l in lays)
    rounds = case["ops"].count("R")
    tail = sum(len(fam.ancs(l, "x_type" if r else "z_type")) for l, r in zip(lays, case["final"])) if case.get("final") else 0
    if not job.require(len(drecs) == rounds * nA + tail, f"{len(drecs)} detectors instead of {rounds * nA + tail}"):
        return job
    if start == "choi":
        for k in range(nA if rounds else tail, len(drecs)):
            job.claim(f"detector {k} at {coords[k]}", recs=drecs[k])
            job.rels[-1].const = None
    # the outcomes of the last round enter the detectors of that round with full rank
    recs = job.records()
    per = [sorted(i for a in fam.ancs(l) for i in recs.get(a, [])) for l in lays]
    for r in range(rounds):
        mine = set()
        for l in lays:
            for a in fam.ancs(l):
                ra = recs.get(a, [])
                if job.require(len(ra) == rounds, f"{a} measured {len(ra)} times in {rounds} rounds"):
                    mine.add(ra[r])
        vs = [{i for i in drecs[r * nA + j] if i in mine} for j in range(nA)]
        job.require(rank(vs) == nA, f"the detectors of round {r} do not contain every stabilizer measured in it")
    if case.get("final") is not None:
        nb = case["blocks"]
        job.require(sorted(obs) == list(range(nb)), f"observables {sorted(obs)}")
        if start != "choi":
            for k, (x, z) in enumerate(obs_images(case)):
                eig = all(not (z[i] if start[i] else x[i]) for i in range(nb))
                if eig and k in obs:
                    job.claim(f"observable {k}", recs=orecs[k])
                    job.rels[-1].const = None
    if case.get("frames"):
        _, circ2 = run_history(case, case["frames"], start)
        _, _, coords2, drecs2, _ = cliff.detectors_of(circ2, [0] * job.num_rec)
        if job.require(coords == coords2, "the frames place different detectors"):
            cuts = [(r * nA, r * nA + nA) for r in range(rounds)] + ([(rounds * nA, rounds * nA + tail)] if tail else [])
            for a, b in cuts:
                u, v = [set_par(s) for s in drecs[a:b]], [set_par(s) for s in drecs2[a:b]]
                ru = rank(u)
                job.require(ru == rank(v) == rank(u + v), f"detectors {a}..{b} of the two frames span different parities")
    return job


def mid_circuit(case, lays, job, coords, drecs):
    """Histories in which single blocks are measured and re-initialised between rounds."""
    S = [fam.stabs(l) for l in lays]
    cs = [{a: tuple(float(v) for v in l.param("coords", a)) for a in fam.ancs(l)} for l in lays]
    order = [(k, a) for k, l in enumerate(lays) for a in fam.ancs(l)]
    on = [True] * len(lays)
    gauge = [{a for a in s} for s in S]  # stabilizers whose first value is random
    t, pos = 0, 0
    for n, op in enumerate(case["ops"]):
        if op == "R":
            for k, a in order:
                if not job.require(pos < len(drecs) and tuple(coords[pos]) == cs[k][a] + (float(t),), f"detector {pos} misplaced"):
                    return job
                if not on[k]:
                    job.require(not drecs[pos], f"detector {pos} of a measured block is not empty")
                elif a not in gauge[k]:
                    job.claim(f"detector {pos} at {coords[pos]}", recs=drecs[pos])
                    job.rels[-1].const = None
                    job.require(bool(drecs[pos]), f"detector {pos} at {coords[pos]} is empty")
                pos += 1
            for k in range(len(lays)):
                if on[k]:
                    gauge[k] = set()
            t += 1
        elif op[0] == "M":
            k = int(op[1])
            on[k] = False
            mine = {cs[k][a] for a in fam.ancs(lays[k], "x_type" if n % 2 else "z_type")}
            for _ in mine:
                if not job.require(pos < len(drecs) and tuple(coords[pos][:-1]) in mine and coords[pos][-1] == t - 0.5,
                                   f"detector {pos} of the logical measurement misplaced"):
                    return job
                job.claim(f"detector {pos} at {coords[pos]}", recs=drecs[pos])
                job.rels[-1].const = None
                pos += 1
        elif op[0] == "I":
            k = int(op[1])
            on[k] = True
            gauge[k] = set(fam.ancs(lays[k], "z_type" if n % 2 else "x_type"))
    job.require(pos == len(drecs), f"{len(drecs)} detectors instead of {pos}")
    return job


def set_par(idx):
    s = set()
    for i in idx:
        s ^= {i}
    return s


def rank(sets):
    rows = [sum(1 << i for i in s) for s in sets]
    piv = {}
    for r in rows:
        while r:
            h = r.bit_length()
            if h in piv:
                r ^= piv[h]
            else:
                piv[h] = r
                break
    return len(piv)


def replay(case):
    return rel.replay(case, build, shots=24)


def alphabet(case):
    out = ["R"]
    k = kind(case)
    nb = case["blocks"]
    s_ok = (k == "unrot" and case["dx"] == case["dz"]) or (k == "rot" and case["dz"] == case["dx"] + 1)
    for i in range(nb):
        if s_ok:
            out.append(f"S{i}")
            if k == "unrot":
                out.append(f"H{i}")
    if nb == 2:
        out += ["C01", "C10"]
    return out


def histories(case, length):
    """All histories up to the bound: first op a round; at least one more round or measurement after every gate."""
    ex = sym.Explorer(max_paths=10**6)
    al = alphabet(case)
    paulis = [f"{p}{i}" for p in "XZ" for i in range(case["blocks"])]

    def go():
        ops = ["R"]
        for _ in range(sym.choose(range(length + 1))):
            ops.append(sym.choose(al))
        return ops

    for n, ops in enumerate(ex.run(go)):
        # logical Paulis only flip signs; one is inserted after the first gate (position and kind vary over the histories)
        if n % 3 == 0 and len(ops) > 1:
            ops = ops[:2] + [paulis[n // 3 % len(paulis)]] + ops[2:]
        yield ops


def mid_histories(case, length):
    """Histories of two blocks with single-block measurements and re-initialisations between rounds."""
    ex = sym.Explorer(max_paths=10**6)
    al = alphabet(case)

    def go():
        ops, on, fresh = ["R"], [True, True], set()
        for _ in range(length):
            opts = ["R"]
            pending = any(o != "R" and o[0] in "CSH" for o in ops[len(ops) - ops[::-1].index("R"):])
            if not fresh:
                opts += [o for o in al if o != "R" and all(on[int(i)] for i in o[1:])]
            if not pending:
                opts += [f"M{k}" for k in (0, 1) if all(on) and k not in fresh]
            opts += [f"I{k}" for k in (0, 1) if not on[k] and not pending]
            o = sym.choose(opts)
            ops.append(o)
            if o == "R":
                fresh = set()
            elif o[0] == "M":
                on[int(o[1])] = False
            elif o[0] == "I":
                on[int(o[1])] = True
                fresh.add(int(o[1]))
        return ops + ["R"]

    for ops in ex.run(go):
        if any(o[0] == "M" for o in ops):
            yield ops


LONG = [  # beyond the exhaustive bound: many rounds, many gates, gates after many rounds
    "R R R R R R R R R R R R", "R R R R R R S0 R R R R R R", "R S0 R S0 R S0 R S0 R S0 R", "R S0 S0 S0 R R R R S0 R R",
    "R H0 R H0 R H0 R H0 R H0 R", "R R R R R H0 R R R R R R R R", "R H0 S0 H0 R R R R R",
]
LONG2 = [
    "R C01 R C01 R C01 R C01 R C01 R", "R C01 R C10 R C01 R C10 R C01 R C10 R", "R R R R R R C01 R R R R R R", "R C01 C10 C01 R R R R R",
    "R C01 S1 C10 S0 R R R R C01 R", "R R C01 R R C10 R R C01 R R C10 R R",
]
PENDING = [["R", "C01", "M0", "R"], ["R", "C10", "M0", "R"], ["R", "S1", "M0", "R"]]


def one(ck, item):
    case, todo = item
    if case.get("mid"):
        ck.covers("detectors.Detectors.deactivate_detectors", "detectors.Detectors.activate_detectors")
        for n, ops in todo:
            ck.paths += 1
            for frame in ("pre-gate", "post-gate"):
                rel.decide(ck, dict(case, ops=ops, frame=frame), build)
        return
    m = MOD[case["fam"]]
    ck.covers(f"circuit_blocks.{m}.qec_round", "circuit_blocks.util.log_trans_*", "detectors.Detectors.update_from_dict",
              "detectors.Detectors.build_from_anc", "detectors.Detectors.build_from_data", "util.merge_qec_rounds",
              "util.merge_log_meas")
    for n, ops in todo:
        ck.paths += 1
        nb = case["blocks"]
        finals = [[False] * nb, [True] * nb, [False, True][:nb], [True, False][:nb]]
        fin = finals[n % len(finals)]
        for frame in ("pre-gate", "post-gate"):
            c = dict(case, ops=ops, frame=frame, final=fin)
            if frame == "pre-gate":
                c["frames"] = "post-gate"
            if all(o == "R" or o[0] in "XZ" for o in ops):
                rel.decide(ck, dict(c, frame="gate-independent", frames="pre-gate"), build)
            rel.decide(ck, c, build)
            if frame == "pre-gate":
                st = [bool(n >> i & 1) for i in range(nb)]
                c2 = {k: v for k, v in c.items() if k != "frames"}
                rel.decide(ck, dict(c2, start=st), build)


def plans(ck):
    th = ck.thorough
    out = []
    for fm, dx, dz, nb, L in (
        [("rot", 2, 3, 1, 7), ("rotp", 2, 3, 1, 5), ("unrot", 2, 2, 1, 5), ("rot", 2, 3, 2, 4), ("unrot", 2, 2, 2, 4),
         ("rotp", 2, 2, 2, 5), ("rot", 3, 4, 1, 5), ("unrot", 3, 3, 1, 4), ("rot", 3, 3, 2, 4), ("rot", 3, 4, 2, 3)]
        if th else
        [("rot", 2, 3, 1, 5), ("rotp", 2, 3, 1, 3), ("unrot", 2, 2, 1, 4), ("rot", 2, 3, 2, 3), ("unrot", 2, 2, 2, 2),
         ("rotp", 2, 2, 2, 4), ("rot", 3, 4, 1, 2)]
    ):
        for reset in (True, False):
            out.append((dict(fam=fm, dx=dx, dz=dz, blocks=nb, reset=reset), L))
    return out


def run(ck):
    work = []
    plan = plans(ck)
    for case, L in plan:
        hs = list(enumerate(histories(case, L)))
        al = set(alphabet(case)) | {"R"}
        hs += [(k, h.split()) for k, h in enumerate(LONG + LONG2) if set(h.split()) <= al]
        for i in range(0, len(hs), 8):
            work.append((case, hs[i:i + 8]))
    for var in fam.VARIANTS:  # the same codes written down differently
        for fm, dx, dz, nb, L in (("rot", 2, 3, 1, 2), ("unrot", 2, 2, 2, 1), ("rotp", 2, 2, 2, 1), ("rot", 2, 3, 2, 1)):
            case = dict(fam=fm, dx=dx, dz=dz, blocks=nb, reset=nb == 2, var=var)
            hs = list(enumerate(histories(case, L + ck.thorough))) + [(1, ["R", "C01", "R", "C10", "R"])] * (nb == 2)
            for i in range(0, len(hs), 8):
                work.append((case, hs[i:i + 8]))
    mids = [("rot", 2, 3, 4), ("unrot", 2, 2, 3)] if not ck.thorough else [("rot", 2, 3, 5), ("unrot", 2, 2, 5), ("rotp", 2, 2, 7)]
    for fm, dx, dz, L in mids:
        for reset in (True, False):
            case = dict(fam=fm, dx=dx, dz=dz, blocks=2, reset=reset, mid=True)
            hs = list(enumerate(mid_histories(case, L)))
            if fm == "rot" and not ck.thorough:  # a double orientation change before a measurement
                hs += [(0, x.split()) for x in ("R C01 R C10 R M0 R R I0 R R", "R C01 R C10 R M1 R R I1 R C01 R",
                                                "R C01 R C10 R C01 R M0 R I0 R", "R S1 C01 R C10 R M0 R I0 R")]
            for i in range(0, len(hs), 8):
                work.append((case, hs[i:i + 8]))
            work.append((dict(case, pending=True), [(0, ops) for ops in PENDING]))
    ck.bounds = {"histories": sum(len(w[1]) for w in work),
                 "plans (family, dx, dz, blocks, ops after the first round)": [(c["fam"], c["dx"], c["dz"], c["blocks"], L) for c, L in plan],
                 "mid-circuit plans (family, dx, dz, ops)": mids, "longer histories": "12-14 rounds, 5-6 gates, gates after 6 rounds", "input states": "all", "outcomes": "all"}
    ck.pmap(one, work, chunk=1)
