"""A Setup whose every lookup is its own parameter: symbolic (one real per parameter and qubits) or, for replays, its own number."""
from . import env  # noqa: F401
import hashlib

from . import sym

MODELS = ("CircuitNoiseModel", "BiasedCircuitNoiseModel", "PhenomenologicalNoiseModel", "IncomingNoiseModel", "NoiselessModel")
# models whose idle() needs a duration cannot be used with the circuit blocks at all


def name_of(param, qubits):
    return param + "".join("|" + q for q in qubits)


def number(name):
    h = int(hashlib.sha256(name.encode()).hexdigest()[:12], 16)
    return 0.001 + (h % 10**9) / 10**11


class Source:
    """flags(qubits) -> bool decides the assign_error_flag; pauli(qubits) the biased Pauli."""

    def __init__(self, symbolic, flags=None, pauli=None, values=None):
        from surface_sim.setup import Setup

        src = self

        class PSetup(Setup):
            def __init__(self):
                super().__init__(dict(setup=[{}]))

            def param(self, param, *qubits):
                return src.value(param, *qubits)

            def gate_duration(self, name):
                return src.value("duration_" + name)

        self.symbolic = symbolic
        self.values = values or {}
        self.flags = flags or (lambda qs: True)
        self.pauli = pauli or (lambda qs: "XYZ"[sum(map(ord, "".join(qs))) % 3])
        self.asked = []
        self.setup = PSetup()

    def value(self, param, *qubits):
        self.asked.append((param, qubits))
        if param == "assign_error_flag":
            return self.flags(qubits)
        if param == "biased_pauli":
            return self.pauli(qubits)
        n = name_of(param, qubits)
        if param == "biased_factor":  # symbolic in C11 / C16; fixed and different per qubit here (it only enters as a divisor)
            return 0.25 + 100 * number(n)
        if self.symbolic:
            return sym.SymReal(n)
        if n in self.values:
            return self.values[n]
        if param == "T1":
            return 30.0 + 1000 * number(n)
        if param == "T2":
            return 20.0 + 1000 * number(n)
        return number(n)


FLAGS = {
    "all": lambda qs: True,
    "none": lambda qs: False,
    "mixed": lambda qs: sum(map(ord, "".join(qs))) % 2 == 0,
    "data": lambda qs: qs[0].startswith("D"),
    "far": lambda qs: len(qs[0]) > 3,  # labels of the second block are four characters long
}


def model(cls, source, inds):
    from surface_sim import models as M

    c = getattr(M, cls)
    return c(inds) if cls == "NoiselessModel" else c(source.setup, inds)
