"""C23: the choice of noise model never changes the ideal circuit."""
import z3

import c12_time_steps as c12
import c22_repeatable as c22
from vk import cliff, events, fam, params, rel, sym
from vk.fam import FAMS

LEVEL = "other"
EXPLANATION = (
    "Every circuit block and experiment is built by the real code with the noiseless model and with every noise model whose setup "
    "returns symbolic reals for all parameters (one symbol per parameter, plus own symbols for one data and one ancilla qubit) and "
    "symbolic booleans for the assignment-error flags. Every branch of the code on such a value is explored; on every path the "
    "noise-free part of the circuit must be, step by step, the noiseless circuit, with the same measurement order, detectors and "
    "observables. With all error probabilities zero, the solver shows that every noise argument is zero for all remaining parameters."
)
ALL = ("CircuitNoiseModel", "BiasedCircuitNoiseModel", "PhenomenologicalNoiseModel", "IncomingNoiseModel", "DecoherenceNoiseModel",
       "ExperimentalNoiseModel", "DecoherenceNoiseModel:asym")


class Src:
    """val(name) -> symbolic or concrete value; asked for by class of qubits."""

    def __init__(self, val, special, pauli, zero=False, coarse=False):
        from surface_sim.setup import Setup

        src = self

        class S(Setup):
            def __init__(self):
                super().__init__(dict(setup=[{}]))

            def param(self, param, *qubits):
                return src.value(param, *qubits)

            def gate_duration(self, name):
                return src.value("duration")

        self.coarse = coarse
        self.val, self.special, self.pauli, self.zero, self.setup = val, special, pauli, zero, S()

    def value(self, param, *qubits):
        own = [q for q in qubits if q in self.special]
        tag = "|" + ",".join(own) if own else ""
        if param == "assign_error_flag":
            return self.val("flag_" + (tag if tag and not self.coarse else ("data" if qubits[0].startswith("D") else "anc")))
        if param == "biased_pauli":
            return self.pauli
        if param == "biased_factor":
            return 0.25 + 40 * params.number(param + tag)
        if param in ("T1", "T2", "duration"):
            return {"T1": 30.0, "T2": 40.0, "duration": 0.5}[param] + params.number(param + tag)
        if self.zero:
            return 0.0
        return self.val("p_" + param + tag)


def noisy_model(case, src, inds):
    from surface_sim import models as M

    name, _, asym = case["model"].partition(":")
    c = getattr(M, name)
    if name in ("DecoherenceNoiseModel", "ExperimentalNoiseModel"):
        class C(c):  # the blocks give no duration: one idling period
            def idle(self, qubits, duration=1.0):
                return super().idle(qubits, duration)

        c = C
    return c(src.setup, inds, symmetric_noise=False) if asym else c(src.setup, inds)


def ideal(circ):
    """Per step and qubit the noise-free operations, the measurement order, and all annotations."""
    st = []
    for s in events.steps(circ):
        out = {}
        for e in s:
            if not e.is_noise and e.name != "I":
                for q in e.targets:
                    out.setdefault(q, []).append((e.name, e.targets))
        st.append(out)
    meas = [e.targets[0] for s in events.steps(circ) for e in s if e.is_meas]
    return st, meas, c22.absolute(circ)


def compare(case, src):
    """Problem string, or None; and the noise arguments of the noisy circuit."""
    lays = c12.layouts(case)
    inds = {q: i for l in lays for q, i in l.qubit_inds().items()}
    from surface_sim.models import NoiselessModel

    ref, _ = c12.build(case, NoiselessModel(inds), lays)
    circ, _ = c12.build(case, noisy_model(case, src, inds), lays)
    args = [(e, a) for s in events.steps(circ) for e in s if e.is_noise or e.is_meas for a in e.args]
    for e, a in [(e, a) for s in events.steps(ref) for e in s if e.is_noise or e.is_meas for a in e.args]:
        if a:
            return f"the noiseless model gives {e}", args
    want, got = ideal(ref), ideal(circ)
    if ideal(circ.without_noise()) != got:
        return "removing the noise changes the operations", args
    if len(want[0]) != len(got[0]):
        return f"{len(got[0])} time steps instead of {len(want[0])}", args
    for t, (a, b) in enumerate(zip(want[0], got[0])):
        for q in sorted(set(a) | set(b)):
            if a.get(q) != b.get(q):
                return f"step {t}, qubit {q}: {b.get(q)} instead of {a.get(q)}", args
    if want[1] != got[1]:
        return "other measurement order", args
    for a, b in zip(want[2], got[2]):
        if a != b:
            return f"{b} instead of {a}", args
    if len(want[2]) != len(got[2]):
        return f"{len(got[2])} annotations instead of {len(want[2])}", args
    return None, args


def special(case):
    l = c12.layouts(case)[0]
    return (fam.data(l)[1], fam.ancs(l)[0])


def value(x):
    t = events.term(x)
    return t


def replay(case):
    src = Src(lambda n: case["values"].get(n, params.number(n)), special(case), case["pauli"], case["zero"], case["coarse"])
    try:
        msg, args = compare(case, src)
    except Exception as e:
        if not rel.from_repo(e):
            raise
        return f"raised {type(e).__name__}: {e}"
    if msg is None and case["zero"]:
        bad = [(e, a) for e, a in args if a and e.name not in ()]
        if bad and not decays(case):
            msg = f"zero error probabilities give {bad[0][0]}"
    return msg


def decays(case):
    """T1/T2 decay is not an error probability; it vanishes only for infinite times."""
    return case["model"].startswith(("DecoherenceNoiseModel", "ExperimentalNoiseModel"))


def one(ck, case):
    ck.covers(f"circuit_blocks.{FAMS[case['fam']].mod}.*", "circuit_blocks.util.*", "experiments.*", f"models.library.{case['model'].partition(':')[0]}",
              "util.circuit_operations.merge_*")
    ex = sym.Explorer(max_paths=3000)
    sp = special(case)
    box = {}

    def body():
        box.clear()
        names = box["names"] = {}

        def val(n):
            if n not in names:
                if n.startswith("flag"):
                    names[n] = sym.SymBool(z3.Bool(n))
                else:
                    names[n] = v = sym.SymReal(n)
                    ex.assume(z3.And(v.term >= 0, v.term <= z3.RealVal("3/4")))
            return names[n]

        sym.reset_tokens()
        try:
            return compare(case, Src(val, sp, case["pauli"], case["zero"], case["coarse"]))
        except (sym.CheckError, sym.PathAbort):
            raise
        except NotImplementedError:
            return None, []  # the model does not offer the operation
        except Exception as e:
            if not rel.from_repo(e):
                raise
            return f"valid request raised {type(e).__name__}: {e}", []

    for msg, args in ex.run(body):
        ck.programs += 1
        ck.obligations += 1
        cond = z3.BoolVal(msg is not None)
        if msg is None and case["zero"] and not decays(case):
            ts = [events.term(a) != 0 for _, a in args if a != 0]
            cond = z3.Or(ts) if ts else cond
        m = ex.model(cond)
        if m is None:
            ck.discharged += 1
            continue
        values = {}
        for n, v in box["names"].items():
            values[n] = bool(z3.is_true(m.eval(v.term, model_completion=True))) if n.startswith("flag") else float(sym.model_value(m, v.term))
        ck.violation(dict(case, values=values), f"{case['model']}, {case['fam']} {case['op']}: {msg or 'noise although all probabilities are zero'}")
        break
    ck.paths += ex.paths


def configs(ck):
    out, seen = [], set()
    for c in c12.configs(ck):
        c = {k: v for k, v in c.items() if k not in ("models", "flags")}
        if repr(c) in seen:
            continue
        seen.add(repr(c))
        if not ck.thorough and c["op"] == "init" and c["init"] not in ("odd", "none"):
            continue
        k = len(seen)
        small = (c["dx"], c["dz"]) in ((2, 2), (2, 3))
        for model in ALL if small or ck.thorough else (ALL[k % 7], ALL[(k + 3) % 7]):
            for zero in (False, True):
                # experiments and every model; zero probabilities on the 2x3 ones
                if zero and not small:
                    continue
                coarse = not ck.thorough and (zero or not small or c["op"].startswith("repeated"))
                if not ck.thorough and (c["dx"], c["dz"]) == (3, 2):
                    continue
                out.append(dict(c, model=model, zero=zero, coarse=coarse, pauli="XYZ"[len(out) % 3]))
    return out


def run(ck):
    it = configs(ck)
    ck.bounds = {"circuits": len(it), "sizes": "2..3 (2..5 thorough)", "parameters": "all in [0, 3/4]; T1, T2, durations and bias factors fixed",
                 "flags": "all, per class of qubits"}
    ck.assumptions.append("models whose idle needs a duration are given one by a subclass, since the blocks pass none; their decay is not "
                          "an error probability and is not required to vanish")
    ck.assumptions.append("parameters of qubits other than one data and one ancilla qubit share one symbol per parameter (own ones in C12)")
    ck.sample(it[0])
    ck.pmap(one, it)
