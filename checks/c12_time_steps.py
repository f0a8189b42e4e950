"""C12: every qubit gets exactly one operation or idle, with its noise, per time step."""
import importlib

import z3

from vk import cliff, events, fam, memo, noise, params, pauli, rel, sym
from vk.fam import FAMS

LEVEL = "other"
EXPLANATION = (
    "Every circuit block (QEC rounds, initialisation, logical gates, logical measurements, their parallel versions) and every "
    "experiment is built by the real code with the noiseless model and with each noisy model over a setup in which every parameter "
    "of every qubit and pair is its own symbolic real. Per time step the noiseless circuit gives the operation of each qubit (at "
    "most one); the solver shows for all parameter values that the noisy circuit applies in that step exactly the channel of that "
    "operation (or of one idling period) with the qubit's or pair's own parameter, that data qubits get the incoming noise exactly "
    "once per round or logical operation, and two-qubit gates only act on neighbours or pairs declared by the gate."
)
MODELS = ("CircuitNoiseModel", "BiasedCircuitNoiseModel", "PhenomenologicalNoiseModel", "IncomingNoiseModel")
OP = {"X": "x_gate", "Z": "z_gate", "H": "hadamard", "S": "s_gate", "S_DAG": "s_dag_gate", "CZ": "cphase", "CX": "cnot", "SWAP": "swap",
      "M": "measure", "MX": "measure_x", "MY": "measure_y", "R": "reset", "RX": "reset_x", "RY": "reset_y"}


def init_bits(lay, spec):
    D = fam.data(lay)
    if spec == "none":
        return {}
    return {q: int(spec == "1" or (spec == "odd" and k % 2) or (spec == "first" and k == 0)) for k, q in enumerate(D)}


def layouts(case):
    f = FAMS[case["fam"]]
    l = fam.code(f.kind, case["dx"], case["dz"])
    lays = [l]
    if case.get("blocks", 1) == 2:
        lays.append(fam.second(f.kind, case["dx"], case["dz"], first=l))
    if case["op"] in ("s", "h", "cnot", "repeated_s", "repeated_h", "repeated_cnot"):
        g = importlib.import_module("surface_sim.log_gates." + ("unrot" if f.kind == "unrot" else "rot") + "_surface_code_css")
        op = case["op"].split("_")[-1]
        if op == "cnot":
            g.set_trans_cnot(lays[0], lays[1])
            g.set_trans_cnot(lays[1], lays[0])
        else:
            getattr(g, f"set_trans_{op}")(l, fam.data(l)[0])
    return lays


def build(case, model, lays):
    """The circuit of the case, and how often each data qubit must receive the incoming noise."""
    f = FAMS[case["fam"]]
    b = f.blocks
    u = importlib.import_module("surface_sim.circuit_blocks.util")
    x = "_xzzx" if f.frame == "xzzx" else ""
    d = fam.detectors_for(*lays, frame="post-gate" if f.google is False else "pre-gate")
    model.new_circuit()
    d.new_circuit()
    op, l = case["op"], lays[0]
    rot, reset = case.get("rot", False), case.get("reset", True)
    if not op.startswith(("memory", "repeated", "init")):
        d.activate_detectors([a for y in lays for a in fam.ancs(y)])
    if op == "round":
        return f.round(model, l, d, reset), 1
    if op == "round+meas":
        return b.qec_round_with_log_meas(model, l, d, rot_basis=rot), 1
    if op == "init":
        return b.init_qubits(model, l, d, init_bits(l, case["init"]), rot), 0
    if op == "meas":
        return getattr(u, "log_meas" + x)(model, l, d, rot, reset), 1
    if op in ("log_x", "log_z"):
        return getattr(u, op + x)(model, l, d), 1
    if op in ("s", "h"):
        return getattr(u, "log_trans_" + op)(model, l, d), 1
    if op == "cnot":
        a, c = (1, 0) if case.get("swap") else (0, 1)
        return u.log_trans_cnot(model, lays[a], lays[c], d), 1
    if op == "rounds":
        from surface_sim.util import merge_qec_rounds

        return merge_qec_rounds(b.qec_round_iterator, model, lays, d, anc_reset=reset), 1
    if op == "meass":
        from surface_sim.util import merge_log_meas

        return merge_log_meas(getattr(u, f"log_meas{x}_iterator"), model, lays, d, rot_bases=case["bases"], anc_reset=reset), 1
    if op == "memory":
        n = case["rounds"]
        return f.memory(model, l, d, n, init_bits(l, case["init"]), rot_basis=rot, anc_reset=reset), n + (not f.google)
    if op.startswith("repeated"):
        n, r = case["n"], case["rounds"]
        e = f.exps
        init = {}
        for y in lays:
            init.update(init_bits(y, case["init"]))
        kw = dict(model=model, detectors=d, num_rounds_per_gate=r, data_init=init, rot_basis=rot, anc_reset=reset)
        g = op.split("_")[1]
        if g == "cnot":
            kw.update(layout_c=lays[0], layout_t=lays[1], num_cnot_gates=n, cnot_orientation=case["ori"])
        else:
            kw.update({"layout": l, f"num_{g}_gates": n})
        return getattr(e, op + "_experiment")(**kw), 1 + n * (1 + r) + 1
    raise KeyError(op)


def declared(lays):
    """Unordered pairs on which a two-qubit gate may act: neighbours, and pairs a set-up transversal gate declares."""
    out = set()
    for l in lays:
        for q in l.get_qubits():
            for n in fam.nbrs(l, q):
                out.add(frozenset((q, n)))
    labels = [l.get_logical_qubits()[0] for l in lays]
    gates = [f"trans-{g}_{x}" for g in "sh" for x in labels] + [f"trans-cnot_{x}_{y}" for x in labels for y in labels]
    for l in lays:
        for q in fam.data(l):
            for g in gates:
                v = l.param(g, q)
                for k in ("cz", "swap", "cnot"):
                    if isinstance(v, dict) and v.get(k):
                        out.add(frozenset((q, v[k])))
    return out


def steps(circ):
    out = events.steps(circ)
    while out and not out[-1]:
        out.pop()
    return out


def trim(st):
    while st and not any(e.name != "I" for e in st[-1]):
        st = st[:-1]
    return st


def ideal_ops(circ, inv):
    """Per time step: {qubit: (op name, target)}; a problem string when a qubit has several operations."""
    out = []
    for t, st in enumerate(events.steps(circ)):
        ops, idle = {}, {}
        for e in st:
            if e.is_noise:
                continue
            qs = tuple(inv.get(q) for q in e.targets)
            if None in qs:
                return f"step {t}: unknown qubit in {e}", None
            for q in qs:
                if e.name == "I":
                    idle[q] = idle.get(q, 0) + 1
                    if idle[q] > 1 or q in ops:
                        return f"step {t}: {q} idles besides another operation or idle", None
                else:
                    if q in ops or q in idle:
                        return f"step {t}: {q} has more than one operation", None
                    ops[q] = (e.name, qs)
        out.append((ops, idle))
    return None, out


def compare(case, source, R):
    """Yields (what, got, want); got True for a structural difference."""
    lays = layouts(case)
    inds = {q: i for l in lays for q, i in l.qubit_inds().items()}
    inv = {i: q for q, i in inds.items()}
    from surface_sim.models import NoiselessModel

    circ, want_inc = build(case, NoiselessModel(inds), lays)
    msg, plan = ideal_ops(circ, inv)
    if msg:
        yield msg, True, False
        return
    allowed = declared(lays)
    for t, (ops, _) in enumerate(plan):
        for name, qs in ops.values():
            if name not in OP:
                yield f"step {t}: unexpected operation {name}", True, False
                return
            if len(qs) == 2 and frozenset(qs) not in allowed:
                yield f"step {t}: {name} on {qs}, which are neither neighbours nor declared", True, False
                return
    qubits = [q for l in lays for q in l.get_qubits()]
    D = {q for l in lays for q in fam.data(l)}
    for mname in case["models"]:
        src = source()
        noisy, _ = build(case, params.model(mname, src, inds), lays)
        which = src.pauli
        st = events.steps(noisy)
        if len(st) != len(plan):
            yield f"{mname}: {len(st)} time steps instead of {len(plan)}", True, False
            continue
        msg, ops2 = ideal_ops(noisy, inv)
        if msg:
            yield f"{mname}: {msg}", True, False
            continue
        incoming = dict.fromkeys(D, 0)
        empty = 0
        for t, evs in enumerate(st):
            if ops2[t][0] != plan[t][0]:
                yield f"{mname}: step {t} has other operations than the noiseless circuit", True, False
                return
            ops, idle = plan[t]
            nothing = not ops and not idle
            # noise per unit (qubit or pair): before / after the operation
            chans, seen = {}, set()
            for e in evs:
                qs = tuple(inv.get(q) for q in e.targets)
                if not e.is_noise:
                    seen.update(qs)
                    if e.is_meas:
                        p = R.read(e.args[0]) if e.args else R.const(0)
                        flagged = mname not in ("IncomingNoiseModel",) and src.flags(qs)
                        w = R.of(src.value("assign_error_prob", *qs)) if flagged else R.const(0)
                        yield f"{mname}, step {t}: assignment error of {qs[0]}", p, w
                    continue
                if None in qs:
                    yield f"{mname}, step {t}: noise on an unknown qubit", True, False
                    return
                unit = ops[qs[0]][1] if qs[0] in ops else (qs[0],)
                if not set(qs) <= set(unit):
                    yield f"{mname}, step {t}: correlated noise {e.name} on {qs}", True, False
                    return
                ch = pauli.probs(e.name, [R.read(a) for a in e.args])
                if ch is None:
                    yield f"{mname}, step {t}: unexpected noise {e.name}", True, False
                    return
                chans.setdefault(unit, [[], []])[bool(set(unit) & seen)].append((tuple(unit.index(q) for q in qs), ch))
            if nothing and not chans:
                continue
            units = set()
            if nothing and mname in ("IncomingNoiseModel", "PhenomenologicalNoiseModel"):
                units = {(q,) for q in D if (q,) in chans}
                for q in units:
                    incoming[q[0]] += 1
                extra = set(chans) - units
            else:
                for q in qubits:
                    units.add(ops[q][1] if q in ops else (q,))
                extra = set(chans) - units
            if extra:
                yield f"{mname}, step {t}: noise on {sorted(extra)[0]} without operation", True, False
                return
            for unit in units:
                o = OP[ops[unit[0]][0]] if unit[0] in ops else ("incoming_noise" if nothing and mname[0] in "IP" else "idle")
                before, ideal, after, basis = noise.expected(mname, o, which(unit), src, R, unit)
                got = chans.get(unit, [[], []])
                if ideal is None:
                    got = [[], got[0] + got[1]]
                ons = [p for p in (pauli.ONE if len(unit) == 1 else pauli.TWO) if set(p) != {"I"}]
                for side, g, w in (("before", got[0], before), ("after", got[1], after)):
                    if basis and side == "before" and o.startswith("reset"):
                        continue
                    if not g and not w:
                        continue
                    for on in [basis] if basis else ons:
                        yield f"{mname}, step {t}: noise {side} {o} on {unit}", noise.lam(R, g, on), noise.lam(R, w, on)
        if mname in ("IncomingNoiseModel", "PhenomenologicalNoiseModel"):
            bad = [q for q, n in incoming.items() if n != want_inc]
            if bad:
                yield f"{mname}: {bad[0]} receives the incoming noise {incoming[bad[0]]} times instead of {want_inc}", True, False
    # steps without any operation are only those of the incoming noise
    blank = sum(not o and not i for o, i in plan[:-1])
    if blank > want_inc:
        yield f"{blank} time steps without operation", True, False


class Src(params.Source):
    """The biased factor is a number of the oracle too."""


def oracle_real(symbolic):
    R = noise.Real(symbolic)
    R.of = lambda v: v.term if type(v) is sym.SymReal else (z3.RealVal(str(v)) if symbolic else float(v))
    return R


def replay(case):
    try:
        R = oracle_real(False)
        for what, g, w in compare(case, lambda: params.Source(False, params.FLAGS[case["flags"]], values=case.get("values")), R):
            if g is True or abs(g - w) > 1e-9:
                return f"{what}: {g} instead of {w}"
    except Exception as ex:
        if not rel.from_repo(ex):
            raise
        return f"raised {type(ex).__name__}: {ex}"
    return None


def differ(g, w):
    """Symbolic difference; probabilities that went through numpy floats (bias factors) are compared up to rounding."""
    d = z3.simplify(g - w, som=True)
    if z3.is_rational_value(d) and d.as_fraction() == 0:
        return None
    return z3.Or(d > z3.RealVal("1e-12"), d < z3.RealVal("-1e-12"))


def one(ck, case):
    ck.covers(f"circuit_blocks.{FAMS[case['fam']].mod}.*", "circuit_blocks.util.*", "models.library.*", "util.circuit_operations.merge_*")
    ck.programs += 1
    try:
        conclude(ck, case, *collect(case))
    except sym.CheckError as e:
        if "branch on symbolic" not in str(e):
            raise
    else:
        return
    # the code branches on parameters: all values strictly inside the range, explored path by path
    ck.degraded.append("parameters restricted to (1/1000, 3/4): the code under test branches on their values")
    ex = sym.Explorer()
    for msg, conds in ex.run(lambda: collect(case, ex)):
        ck.paths += 1
        path = list(ex.solver.assertions())
        if msg:
            path_values = values(ex.model(), path)
            ck.violation(dict(case, values=path_values), msg)
        else:
            conclude(ck, case, msg, conds, path)
        if ck.violations:
            return
        if ex.paths >= 64:
            ck.degraded.append("more than 64 paths through branches on parameters: only the first 64 were decided")
            return


def values(m, terms):
    """Parameter name -> number of a model."""
    return {str(v): float(sym.model_value(m, v)) for v in {x for t in terms for x in free(t)}}


def collect(case, ex=None):
    """(problem or None, [(what, condition)]) from running the real code on symbolic parameters."""
    sym.reset_tokens()
    R = oracle_real(True)
    seen = set()

    class S(params.Source):
        def value(self, param, *qubits):
            v = super().value(param, *qubits)
            if ex is not None and type(v) is sym.SymReal and str(v.term) not in seen:
                seen.add(str(v.term))
                ex.assume(z3.And(v.term > z3.RealVal("1/1000"), v.term < z3.RealVal("3/4")))
            return v

    conds = []
    try:
        for what, g, w in compare(case, lambda: S(True, params.FLAGS[case["flags"]]), R):
            if g is True:
                return f"{case['fam']} {case['op']}: {what}", []
            d = differ(g, w)
            if d is not None:
                conds.append((what, d))
    except (sym.CheckError, sym.PathAbort):
        raise
    except Exception as ex_:
        if not rel.from_repo(ex_):
            raise
        return f"valid request raised {type(ex_).__name__}: {ex_}", []
    return None, conds


def conclude(ck, case, msg, conds, path=()):
    if msg:
        ck.violation(case, msg)
        return
    names = sorted({v for _, d in conds for v in free(d)}, key=str)
    rng = [z3.And(v >= 0, v <= z3.RealVal("3/4")) for v in names]
    m = ck.refute(*path, *rng, z3.Or([c for _, c in conds]) if conds else z3.BoolVal(False))
    if m is not None:
        w = next((w for w, c in conds if z3.is_true(m.eval(c, model_completion=True))), conds[0][0])
        if path:
            case = dict(case, values=values(m, [*path, *[c for _, c in conds]]))
        ck.violation(case, f"{case['fam']} {case['op']}: {w} differs from the specified one")


def free(t):
    out, todo, seen = set(), [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.sort() == z3.RealSort():
            out.add(x)
        todo.extend(x.children())
    return out


def configs(ck):
    th = ck.thorough
    out = []
    sizes = [(2, 2), (2, 3), (3, 2), (3, 3)] + ([(3, 4), (4, 3), (4, 4), (5, 5), (2, 5)] if th else [])

    def add(fm, op, dx, dz, **kw):
        for k, models in enumerate(([MODELS[0], MODELS[2]], [MODELS[1], MODELS[3]])):
            out.append(dict(fam=fm, op=op, dx=dx, dz=dz, models=models, flags=("mixed", "all", "none")[(len(out) + k) % 3], **kw))

    for fm, f in FAMS.items():
        for dx, dz in sizes:
            for reset in f.resets:
                add(fm, "round", dx, dz, reset=reset)
                for rot in (False, True):
                    if f.google:
                        add(fm, "round+meas", dx, dz, rot=rot)
                    else:
                        add(fm, "meas", dx, dz, rot=rot, reset=reset)
            for rot in (False, True):
                for init in ("none", "0", "1", "odd", "first"):
                    add(fm, "init", dx, dz, rot=rot, init=init)
            if not f.google:
                add(fm, "log_x", dx, dz)
                add(fm, "log_z", dx, dz)
                if (dx, dz) in ((2, 2), (2, 3)) or th:
                    for reset in (True, False):
                        add(fm, "rounds", dx, dz, blocks=2, reset=reset)
                    for bases in ([False, False], [True, True], [False, True], [True, False]):
                        add(fm, "meass", dx, dz, blocks=2, bases=bases)
            css = f.frame == "css"
            if css and dz == dx + (f.kind == "rot"):
                add(fm, "s", dx, dz)
            if f.kind == "unrot" and dx == dz:
                add(fm, "h", dx, dz)
            if css and (max(dx, dz) < 4 or th and max(dx, dz) < 5):
                add(fm, "cnot", dx, dz, blocks=2)
                add(fm, "cnot", dx, dz, blocks=2, swap=True)
            if (dx, dz) in ((2, 3), (3, 3)) or th:
                for rot in (False, True):
                    for reset in f.resets:
                        add(fm, "memory", dx, dz, rounds=f.min_rounds() + (2 if reset else 1), rot=rot, reset=reset, init="odd")
                    if f.google:
                        add(fm, "memory", dx, dz, rounds=1, rot=rot, init="0")
    for fm in ("rot_css", "rot_css_pipelined", "unrot_css"):
        for n, r in ((2, 1), (0, 1), (2, 0)) + (((4, 2),) if th else ()):
            for rot in (False, True):
                add(fm, "repeated_s", 3 if fm[0] == "u" else 2, 3, n=n, rounds=r, rot=rot, reset=rot, init="first")
                if fm == "unrot_css":
                    add(fm, "repeated_h", 2, 2, n=n + rot, rounds=r, rot=rot, reset=rot, init="first")
                if fm != "rot_css_pipelined":
                    for ori in ("constant", "alternating"):
                        add(fm, "repeated_cnot", 2, 2, blocks=2, n=n, rounds=r, rot=rot, reset=rot, init="odd", ori=ori)
    return out


def run(ck):
    it = configs(ck)
    ck.bounds = {"circuits": len(it), "sizes": "2..3 (2..5 thorough)", "parameters": "all values in [0, 3/4], one per qubit or pair",
                 "bias factors": "one fixed number per qubit or pair (symbolic in C11)"}
    ck.assumptions.append("models whose idle needs a duration cannot be used with the circuit blocks; they are covered in C11")
    ck.assumptions.append("'one operation' is judged from the ideal circuit; initialisation has no incoming noise (it is a reset)")
    ck.sample(it[0])
    ck.pmap(one, it)
