"""Circuits as what they do: per time step and qubit, the ordered list of operations, noise channels and their probabilities.

Probabilities that came out of symbolic parameters are tokens (see sym); ``differ`` turns two event lists into a z3 condition that
is satisfiable exactly when some parameter value makes them different."""
from . import env  # noqa: F401
import z3

from . import cliff, sym

PAIRS = {"CX", "CZ", "SWAP", "DEPOLARIZE2", "PAULI_CHANNEL_2", "CY", "ISWAP", "ISWAP_DAG", "XCZ", "ZCX", "MXX", "MYY", "MZZ"}
ANNOT = {"DETECTOR", "OBSERVABLE_INCLUDE", "QUBIT_COORDS", "SHIFT_COORDS", "MPAD"}


class Ev(tuple):
    """(canonical name, target tuple, args tuple)"""

    name = property(lambda s: s[0])
    targets = property(lambda s: s[1])
    args = property(lambda s: s[2])
    is_noise = property(lambda s: s[0] in cliff.NOISE)
    is_meas = property(lambda s: s[0] in cliff.MEAS or s[0] in ("MXX", "MYY", "MZZ") or s[0].startswith("MPP"))


def steps(circuit):
    """List of time steps; each is the ordered list of events (one target or target pair each). Annotations are left out."""
    out = [[]]
    for ins in cliff.flat(circuit):
        name = cliff.CANON.get(ins.name, ins.name)
        if name == "TICK":
            out.append([])
            continue
        if name in ANNOT:
            continue
        ts = ins.targets_copy()
        args = tuple(ins.gate_args_copy())
        if name == "MPP":  # one event per product, which names the Paulis
            for g in ins.target_groups():
                ps = [t for t in g if not t.is_combiner]
                pauli = "".join(("!" if t.is_inverted_result_target else "") + t.pauli_type for t in ps)
                out[-1].append(Ev((f"MPP {pauli}", tuple(t.value for t in ps), args)))
            continue
        n = 2 if name in PAIRS else 1
        vals = [t.value if not t.is_inverted_result_target else ("!", t.value) for t in ts]
        for i in range(0, len(vals), n):
            out[-1].append(Ev((name, tuple(vals[i:i + n]), args)))
    return out


def by_qubit(step):
    out = {}
    for e in step:
        for q in e.targets:
            out.setdefault(q, []).append(e)
    return out


def shape(evs):
    return [(e.name, e.targets, len(e.args)) for e in evs]


def term(x):
    return sym.untoken(x)


def differ(a, b):
    """a, b: event lists. Returns False (identical), True (structurally different) or a z3 condition for a difference."""
    if shape(a) != shape(b):
        return True
    out = []
    for x, y in zip(a, b):
        for u, v in zip(x.args, y.args):
            if u != v:
                out.append(term(u) != term(v))
    if not out:
        return False
    return z3.Or(out)


def differ_args(got, want):
    """got: floats of real code (maybe tokens); want: z3 terms / SymReal / numbers."""
    if len(got) != len(want):
        return True
    out = []
    for u, v in zip(got, want):
        v = sym.toterm(v) if not z3.is_expr(v) else v
        out.append(term(u) != v)
    return z3.Or(out) if out else False
