"""C22: building an experiment is repeatable and leaves its inputs unchanged."""
import contextlib
import copy
import importlib
import sys

import z3

from vk import cliff, events, fam, params, rel, sym
from vk.fam import FAMS

LEVEL = "other"
EXPLANATION = (
    "Every experiment is built by the real code after a nondeterministically chosen history of other constructions with the same model, "
    "detector and layout objects (other experiments, other options, constructions left unfinished, changed setup values and changed "
    "gate orders), with symbolic options (basis, reset, gauge detectors), symbolic round counts, symbolic initial bits and symbolic "
    "noise parameters. On every path the circuit is compared with the one built from fresh objects; probabilities are z3 terms and the "
    "solver shows that no parameter value makes them differ. Layouts, setup, initial bits and ancilla lists are compared with snapshots."
)
MOD = {"rot": "rot_surface_code_css", "rotp": "rot_surface_code_css_pipelined", "unrot": "unrot_surface_code_css"}
SETUP = ("sq_error_prob", "tq_error_prob", "meas_error_prob", "reset_error_prob", "idle_error_prob", "assign_error_prob")


# ---------------------------------------------------------------- objects
_lays = {}
STATEFUL = {"order", "size", "setup", "objects"}  # histories for which module-level state of earlier paths must not interfere


@contextlib.contextmanager
def pristine(yes=True):
    """The code under test imported anew: no state left by whatever was built before."""
    if not yes:
        yield
        return
    mine = lambda: [k for k in sys.modules if k.split(".")[0] == "surface_sim"]
    old = {k: sys.modules.pop(k) for k in mine()}
    try:
        yield
    finally:
        for k in mine():
            del sys.modules[k]
        sys.modules.update(old)


def layouts(kind, gate, both):
    """Untouched layouts: one block, or two with the two-block gates prepared."""
    key = (kind, gate, both)
    if key not in _lays:
        _lays[key] = prepare(*key)
    out = copy.deepcopy(_lays[key])
    from surface_sim import Layout

    for l in out:
        l.__class__ = Layout
    return out


def prepare(kind, gate, both):
    dx, dz = (2, 3) if kind == "rot" and gate == "s" else (2, 2)
    a = fam.code(kind, dx, dz)
    g = importlib.import_module(f"surface_sim.log_gates.{'unrot' if kind == 'unrot' else 'rot'}_surface_code_css")
    if gate == "s":
        g.set_trans_s(a, fam.data(a)[0])
    elif gate == "h":
        g.set_trans_h(a, fam.data(a)[0])
    if not both:
        return [a]
    b = fam.second(kind, dx, dz, first=a)
    g.set_trans_cnot(a, b)
    g.set_trans_cnot(b, a)
    return [a, b]


def setup(val):
    """val(name) -> value of a parameter. The two-qubit probability is a free variable of the setup."""
    from surface_sim.setup import Setup

    first = {p: val(p) for p in SETUP}
    first.update(tq_error_prob="p_two", assign_error_flag=True, biased_pauli="Z", biased_factor=0.5)
    s = Setup(dict(setup=[first, dict(qubit="D1", sq_error_prob=val("own"), assign_error_flag=False)]))
    s.set_var_param("p_two", val("two"))
    return s


class World:
    def __init__(self, case, val, lays):
        self.case, self.lays = case, lays
        self.setup = setup(val)
        inds = {q: i for l in lays for q, i in l.qubit_inds().items()}
        from surface_sim import models as M

        c = getattr(M, case["model"])
        self.inds = inds
        self.model = c(inds) if case["model"] == "NoiselessModel" else c(self.setup, inds)
        self.dets = fam.detectors_for(*lays, frame=case["frame"])


def experiment(w, x):
    """x: dict(what, fam, n, rounds, rot, reset, gauge, init, ancs, ori)"""
    lays = w.lays
    if x["what"] == "memory":
        f = FAMS[x["fam"]]
        n = x["rounds"] + f.min_rounds()
        return f.memory(w.model, lays[0], w.dets, n, x["init"], rot_basis=x["rot"], anc_reset=x["reset"], ancs=x["ancs"],
                        gauge=x["gauge"])
    e = importlib.import_module("surface_sim.experiments." + MOD[x["fam"]])
    kw = dict(model=w.model, detectors=w.dets, num_rounds_per_gate=x["rounds"], data_init=x["init"], rot_basis=x["rot"],
              anc_reset=x["reset"], anc_detectors=x["ancs"], gauge_detectors=x["gauge"])
    if x["what"] == "cnot":
        kw.update(layout_c=lays[0], layout_t=lays[1], num_cnot_gates=x["n"], cnot_orientation=x["ori"])
    else:
        kw["layout"] = lays[0]
        kw[f"num_{x['what']}_gates"] = x["n"]
    return getattr(e, f"repeated_{x['what']}_experiment")(**kw)


def target(case, lays, val):
    """The experiment of a case; fresh containers on every call."""
    D = [q for l in (lays if case["what"] == "cnot" else lays[:1]) for q in fam.data(l)]
    A = [q for l in (lays if case["what"] == "cnot" else lays[:1]) for q in fam.ancs(l)]
    init = {q: (val(f"bit{k}") if k < case["bits"] else k % 2) for k, q in enumerate(D)}
    return dict(what=case["what"], fam=case["fam"], n=case["n"], rounds=val("rounds"), rot=val("rot"), reset=val("reset"), gauge=val("gauge"),
                init=init, ancs=A[::-2] if case["ancs"] else None, ori=case["ori"])


HIST = ("same", "other", "open", "blocks", "cnot", "objects", "setup", "order", "size", "fail")


def perform(w, case, h, val):
    """One construction of the history; whatever it changes in the inputs on purpose is changed back."""
    lays = w.lays
    if h == "same":
        experiment(w, target(case, lays, val))
    elif h == "other":
        x = target(case, lays, lambda n: {"rounds": 3, "rot": True, "reset": False, "gauge": False}.get(n, 1))
        x["ancs"] = fam.ancs(lays[0])[:1]
        x["n"] += 2
        experiment(w, x)
    elif h in ("open", "blocks"):
        # left unfinished, with or without a fresh start: detectors active, frames updated, measurements recorded
        f = FAMS["rot_css" if case["kind"] == "rot" else "unrot_css"]
        b = f.blocks
        if h == "open":
            w.model.new_circuit()
            w.dets.new_circuit()
            b.init_qubits(w.model, lays[0], w.dets, {q: 1 for q in fam.data(lays[0])}, True)
            f.round(w.model, lays[0], w.dets, False)
            b.init_qubits(w.model, lays[1], w.dets, {}, False)
            b.log_trans_cnot(w.model, lays[0], lays[1], w.dets)
        else:
            w.model.measure(lays[-1].get_qubits())
            w.model.incoming_noise(fam.data(lays[0]))
    elif h == "cnot":
        y = dict(what="cnot", fam="unrot" if case["kind"] == "unrot" else "rot", n=1, rounds=1, rot=False, reset=False, gauge=True,
                 init={q: 1 for l in lays for q in fam.data(l)}, ancs=None, ori="constant")
        experiment(w, y)
    elif h == "objects":
        # other objects of the same and other classes, for the same layouts
        for m in ("CircuitNoiseModel", "PhenomenologicalNoiseModel") if case["model"] == "NoiselessModel" else ("NoiselessModel", case["model"]):
            v = World(dict(case, model=m, frame="pre-gate" if case["frame"] != "pre-gate" else "post-gate"), val, lays)
            experiment(v, target(case, lays, val))
    elif h == "setup":
        s = w.setup
        keep, two = s.param("sq_error_prob"), s.var_param("p_two")
        s.set_param("sq_error_prob", val("changed"))
        s.set_var_param("p_two", val("changed"))
        experiment(w, target(case, lays, val))
        s.set_param("sq_error_prob", keep)
        s.set_var_param("p_two", two)
    elif h == "order":
        l = lays[0]
        keep = l.interaction_order
        new = copy.deepcopy(keep)
        swap_orders(new)
        l.interaction_order = new
        try:
            experiment(w, target(case, lays, val))
        finally:
            l.interaction_order = keep
    elif h == "size":
        # the same labels and objects of the same classes, for codes of another size
        v = World(case, val, [fam.code(case["kind"], 3, 3)])
        y = target(dict(case, what="memory", fam="rot_css" if case["kind"] == "rot" else "unrot_css"), v.lays, val)
        experiment(v, dict(y, ancs=None))
    elif h == "fail":
        # a construction that is aborted in its middle: the detectors object refuses to work
        x = target(case, lays, val)
        class Stop(Exception):
            pass

        n = [0]
        for name in ("build_from_anc", "build_from_data"):
            orig = getattr(w.dets, name)

            def wrapped(*a, _o=orig, **kw):
                n[0] += 1
                if n[0] >= 2:
                    raise Stop
                return _o(*a, **kw)

            setattr(w.dets, name, wrapped)
        try:
            experiment(w, x)
        except Stop:
            pass
        finally:
            for name in ("build_from_anc", "build_from_data"):
                w.dets.__dict__.pop(name, None)
    else:
        raise KeyError(h)


def swap_orders(o):
    """Exchange the steps of the two stabilizer types (an admissible other order for building circuits)."""
    for k, v in o.items():
        if isinstance(v, dict):
            swap_orders(v)
    if {"x_type", "z_type"} <= set(o):
        o["x_type"], o["z_type"] = o["z_type"], o["x_type"]


# ---------------------------------------------------------------- comparison
def absolute(circ):
    n, out = 0, []
    for ins in cliff.flat(circ):
        if ins.name in cliff.MEAS:
            n += len(ins.targets_copy())
        elif ins.name in ("DETECTOR", "OBSERVABLE_INCLUDE"):
            out.append((ins.name, tuple(ins.gate_args_copy()), tuple(sorted(n + t.value for t in ins.targets_copy()))))
        elif ins.name in ("QUBIT_COORDS", "SHIFT_COORDS"):
            out += [(ins.name, tuple(ins.gate_args_copy()), t.value) for t in ins.targets_copy()]
    return sorted(x for x in out if x[0] == "QUBIT_COORDS") + [x for x in out if x[0] != "QUBIT_COORDS"]


def different(c1, c2):
    """(what, condition) of a difference: condition True or a z3 term. None when identical."""
    if absolute(c1) != absolute(c2):
        return "detectors, observables or coordinates", True
    s1, s2 = events.steps(c1), events.steps(c2)
    if len(s1) != len(s2):
        return "number of time steps", True
    m1, m2 = ([e.targets for s in st for e in s if e.is_meas] for st in (s1, s2))
    if m1 != m2:
        return "measurement order", True
    conds = []
    for t, (a, b) in enumerate(zip(s1, s2)):
        a, b = events.by_qubit(a), events.by_qubit(b)
        if set(a) != set(b):
            return f"qubits in step {t}", True
        for q in a:
            d = events.differ(a[q], b[q])
            if d is True:
                return f"operations of qubit {q} in step {t}", True
            if d is not False:
                conds.append(d)
    return ("noise probabilities", z3.Or(conds)) if conds else None


def snapshot(w, x):
    lays = w.lays
    out = []
    for l in lays:
        d = l.to_dict()
        out.append(repr((d, l.get_qubits(), l.log_x, l.log_z, l.interaction_order, l.get_logical_qubits(),
                         [(q, l.get_neighbors([q]), l.param("coords", q)) for q in l.get_qubits()])))
    s = w.setup
    vals = [(p, str(s.param(p)), str(s.param(p, "D1")), str(s.param(p, "D2"))) for p in SETUP]
    out.append(repr((vals, sorted(s.free_params), str(s.var_param("p_two")), str(s.to_dict()))))
    out.append(repr(list((k, id(v)) for k, v in x["init"].items())))
    out.append(repr(x["ancs"]))
    out.append(repr(list(w.inds.items())))
    return out


NAMES = ("first layout", "second layout", "setup", "initial bits", "ancilla list", "qubit indices")


def attempt(case, val, hist):
    """Yields (what, condition)."""
    key = (case["kind"], case["gate"], case["what"] == "cnot" or bool({"open", "cnot"} & set(hist)))
    anew = bool(STATEFUL & set(hist))
    with pristine(anew):
        fresh = World(case, val, layouts(*key))
        ref = experiment(fresh, target(case, fresh.lays, val))
    with pristine(anew):
        yield from after(case, val, hist, key, ref)


def after(case, val, hist, key, ref):
    lays = layouts(*key)
    w = World(case, val, lays)
    for h in hist:
        perform(w, case, h, val)
    x = target(case, lays, val)
    before = snapshot(w, x)
    got = experiment(w, x)
    now = snapshot(w, x)
    for n, a, b in zip(NAMES[:1] + NAMES[1:][2 - len(lays):], before, now):
        if a != b:
            yield f"{n} modified by the construction", True
    d = different(ref, got)
    if d:
        yield f"{d[0]} differ from a construction with fresh objects", d[1]
    if hist and hist != ["same"]:
        return
    # once more, passing the same containers again
    again = experiment(w, x)
    d = different(ref, again)
    if d:
        yield f"{d[0]} differ when building again with the same arguments", d[1]


# ---------------------------------------------------------------- symbolic values
def symbolic(case, ex, hist):
    """Options, counts, bits and parameters as symbols (fixed values where the bounds say so)."""
    box = {}
    if not case["deep"]:
        k = len(hist) + sum(map(ord, "".join(hist)))
        box["gauge"] = bool(k % 2)
        if len(hist) > 1:
            box.update(rounds=1, reset=bool(k // 2 % 2), bit0=k // 4 % 2)
        elif hist and hist[0] not in ("same", "other", "open"):
            box["rounds"] = 1

    def val(n):
        if n not in box:
            if n == "rounds":
                box[n] = sym.SymInt("rounds")
                ex.assume(z3.And(z3.Int("rounds") >= 0, z3.Int("rounds") <= case["max"]))
            elif n in ("rot", "reset", "gauge") or n.startswith("bit"):
                box[n] = sym.SymBool(z3.Bool(n))
            else:
                box[n] = sym.SymReal(n)
        return box[n]

    return val


def concrete(values):
    def val(n):
        if n in values:
            return values[n]
        if n in ("rot", "reset", "gauge") or n.startswith("bit"):
            return 0
        if n == "rounds":
            return 1
        return params.number(n)

    return val


def replay(case):
    try:
        for what, cond in attempt(case, concrete(case["values"]), case["hist"]):
            if cond is True or not z3.is_false(z3.simplify(cond)):
                return what
    except Exception as e:
        if not rel.from_repo(e):
            raise
        return f"raised {type(e).__name__}: {e}"
    return None


def one(ck, case):
    ck.covers("experiments.*", "circuit_blocks.*", "models.model.Model.new_circuit", "detectors.detectors.Detectors.new_circuit", "setup.setup.Setup.param")
    ex = sym.Explorer()
    hist = case["hists"]
    base = {k: v for k, v in case.items() if k != "hists"}
    box = {}

    def body():
        sym.reset_tokens()
        box["hist"] = h = sym.choose(hist)
        try:
            box["val"] = val = symbolic(base, ex, h)
            return list(attempt(base, val, h))
        except (sym.CheckError, sym.PathAbort):
            raise
        except Exception as e:
            if not rel.from_repo(e):
                raise
            return [(f"valid request raised {type(e).__name__}: {e}", True)]

    for res in ex.run(body):
        ck.programs += 1
        ck.obligations += 1
        bad = None
        for what, cond in res:
            m = ex.model(z3.BoolVal(True) if cond is True else z3.And(cond, *[z3.And(v >= 0, v <= z3.RealVal("3/4")) for v in reals(cond)]))
            if m is not None:
                bad = (what, m)
                break
        if bad is None:
            ck.discharged += 1
            continue
        m = bad[1]
        values = {}
        for n in ("rot", "reset", "gauge", "bit0", "bit1", "rounds"):
            v = box["val"](n)
            if type(v) is sym.SymBool:
                v = z3.is_true(m.eval(v.term, model_completion=True))
            elif type(v) is sym.SymInt:
                v = m.eval(v.iterm, model_completion=True).as_long()
            values[n] = int(v)
        ck.violation(dict(base, hist=list(box["hist"]), values=values), f"{base} after {box['hist']}: {bad[0]}")
        if len(ck.violations) >= 3:
            break
    ck.paths += ex.paths


def reals(t):
    out, todo, seen = {}, [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.sort() == z3.RealSort():
            out[str(x)] = x
        todo.extend(x.children())
    return list(out.values())


def configs(ck):
    th = ck.thorough
    singles = [[]] + [[h] for h in HIST]
    pairs = [[a, b] for a in HIST for b in HIST if a != b]
    out = []

    def add(what, fm, kind, **kw):
        for k, model in enumerate(params.MODELS if th else ("CircuitNoiseModel", "NoiselessModel")):
            for ancs in (False, True) if th else (bool((k + len(out)) % 2),):
                hs = singles + (pairs if th else pairs[(len(out) * 7) % 9::9])
                hs = [h for h in hs if not (model == "NoiselessModel" and "setup" in h)]
                for i in range(0, len(hs), 3):
                    out.append(dict(what=what, fam=fm, kind=kind, model=model, ancs=ancs, n=kw.get("n", 0), ori=kw.get("ori"), gate=what,
                                    frame=("pre-gate", "post-gate")[(k + ancs) % 2], max=2 if th else 1, bits=2 if th else 1, deep=th,
                                    hists=hs[i:i + 3]))

    for f in FAMS.values():
        add("memory", f.name, f.kind)
    add("s", "rot", "rot", n=2)
    add("s", "rotp", "rot", n=2)
    add("s", "unrot", "unrot", n=2)
    add("h", "unrot", "unrot", n=1)
    add("cnot", "rot", "rot", n=3, ori="alternating")
    add("cnot", "unrot", "unrot", n=2, ori="constant")
    add("cnot", "rotp", "rot", n=1, ori="alternating")
    have = {f: importlib.import_module("surface_sim.experiments." + m) for f, m in MOD.items()}
    return [c for c in out if c["what"] == "memory" or hasattr(have[c["fam"]], f"repeated_{c['what']}_experiment")]


def run(ck):
    it = configs(ck)
    ck.bounds = {"targets": len(it), "history length": "0..2", "rounds": "0..1 (0..2 thorough)", "options": "all with histories up to length 1 (gauge detectors fixed per history on quick)", "noise parameters": "all",
                 "initial bits": "one (two thorough) symbolic, the rest fixed", "sizes": "2x2, 2x3"}
    ck.assumptions.append("equality of circuits is per time step and qubit, with measurement order, detectors and observables in order")
    ck.sample({k: v for k, v in it[0].items()})
    ck.pmap(one, it, chunk=1)
