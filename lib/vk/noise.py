"""What each noise model must do: an independent table of channels per model and operation."""
from . import env  # noqa: F401
import z3

from . import events, pauli, sym

ONE = {  # op -> (ideal operation, error parameter, duration name)
    "x_gate": ("X", "x_error_prob"), "z_gate": ("Z", "z_error_prob"), "hadamard": ("H", "h_error_prob"),
    "s_gate": ("S", "s_error_prob"), "s_dag_gate": ("S_DAG", "sdag_error_prob"),
}
TWO = {"cphase": ("CZ", "cz_error_prob", "CZ"), "cnot": ("CX", "cnot_error_prob", "CNOT"), "swap": ("SWAP", "swap_error_prob", "SWAP")}
MEAS = {"measure": ("M", "Z"), "measure_x": ("MX", "X"), "measure_y": ("MY", "Y"), "measure_z": ("M", "Z")}
RESET = {"reset": ("R", "Z"), "reset_x": ("RX", "X"), "reset_y": ("RY", "Y"), "reset_z": ("R", "Z")}
OPS = [*ONE, *TWO, *MEAS, *RESET, "idle", "incoming_noise"]
MODELS = ["CircuitNoiseModel", "BiasedCircuitNoiseModel", "DecoherenceNoiseModel", "DecoherenceNoiseModel-asym",
          "ExperimentalNoiseModel", "NoiselessModel", "IncomingNoiseModel", "PhenomenologicalNoiseModel"]
GATE_NOISE = {"CircuitNoiseModel", "BiasedCircuitNoiseModel", "ExperimentalNoiseModel"}
MEAS_NOISE = GATE_NOISE | {"PhenomenologicalNoiseModel"}




class Real:
    """Arithmetic of the oracle: z3 terms (symbolic) or floats (replay)."""

    def __init__(self, symbolic):
        self.symbolic = symbolic

    def const(self, v):
        return z3.RealVal(v) if self.symbolic else float(v)

    def exp(self, v):
        return sym.EXP(v) if self.symbolic else sym._real_exp(v)

    def read(self, v):
        return events.term(v) if self.symbolic else float(v)

    def of(self, v):
        return v.term if self.symbolic else float(v)


def one_idle(R, src, q, d):
    """Pauli twirl of amplitude and phase damping over the time d."""
    t1, t2 = R.of(src.value("T1", q)), R.of(src.value("T2", q))
    e1, e2 = R.exp(-d / t1), R.exp(-d / t2)
    px = (1 - e1) / 4
    return {"X": px, "Y": px, "Z": (1 - e2) / 2 - px}


def biased(R, src, p, qs, n, which):
    """which: biased Pauli; every operator holding it is bias times as likely as the others, total p."""
    b = R.of(src.value("biased_factor", *qs))
    ops = [o for o in (pauli.ONE if n == 1 else pauli.TWO) if set(o) != {"I"}]
    nb = sum(which in o for o in ops)
    tot = nb * b + (len(ops) - nb)
    return {o: p * (b if which in o else 1) / tot for o in ops}


def depol(p, n):
    return pauli.probs(f"DEPOLARIZE{n}", [p])


def expected(model, op, which, src, R, target):
    """For one qubit or pair: ([channels before], ideal op name or None, [channels after], basis or None). A channel is
    (positions, Pauli -> probability); basis restricts the comparison to that Pauli."""
    name = model.split("-")[0]
    n = len(target)
    pos = tuple(range(n))
    before, after = [], []

    def prm(p, *q):
        return R.of(src.value(p, *(q or target)))

    def chan(p):
        if name == "BiasedCircuitNoiseModel":
            return biased(R, src, p, target, n, which)
        return depol(p, n)

    if op == "idle":
        if name == "CircuitNoiseModel" or name == "BiasedCircuitNoiseModel":
            after.append((pos, chan(prm("idle_error_prob"))))
        elif name in ("DecoherenceNoiseModel", "ExperimentalNoiseModel"):
            after.append((pos, one_idle(R, src, target[0], R.of(src.value("duration_test")))))
        return before, None, after, None
    if op == "incoming_noise":
        if name in ("IncomingNoiseModel", "PhenomenologicalNoiseModel"):
            p = prm("idle_error_prob")
            after += [(pos, {"X": p}), (pos, {"Z": p})]
        return before, None, after, None
    basis = None
    if op in ONE:
        ideal, par = ONE[op]
        dur = ideal
    elif op in TWO:
        ideal, par, dur = TWO[op]
    elif op in MEAS:
        (ideal, basis), par = MEAS[op], "meas_error_prob"
        dur = ideal
    else:
        (ideal, basis), par = RESET[op], "reset_error_prob"
        dur = ideal
    if name == "DecoherenceNoiseModel":
        d = R.of(src.setup.gate_duration(dur))
        parts = [before, after] if "asym" not in model else [after]
        for side in parts:
            for k, q in enumerate(target):
                side.append(((k,), one_idle(R, src, q, d / len(parts))))
        return before, ideal, after, None
    if op in MEAS:
        if name in MEAS_NOISE:
            flip = {"Z": "X", "X": "Z", "Y": "X"}[basis]
            before.append((pos, {flip: prm(par)}))
    elif op in RESET:
        if name in GATE_NOISE:
            flip = {"Z": "X", "X": "Z", "Y": "X"}[basis]
            after.append((pos, {flip: prm(par)}))
    elif name in GATE_NOISE:
        after.append((pos, chan(prm(par))))
    return before, ideal, after, basis


def lam(R, channels, on):
    out = R.const(1)
    for pos, ch in channels:
        sub = "".join(on[k] for k in pos)
        if set(sub) != {"I"}:
            out = out * pauli.eigen(ch, sub)
    return out
