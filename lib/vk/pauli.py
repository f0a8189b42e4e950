"""Noise channels as Pauli channels: eigenvalues on the Paulis of one or two qubits (composition is multiplication)."""
from itertools import product

ONE = ["I", "X", "Y", "Z"]
TWO = [a + b for a, b in product(ONE, ONE)]


def anti(a, b):
    return sum(x != "I" and y != "I" and x != y for x, y in zip(a, b)) % 2


def probs(name, args):
    """Non-identity Pauli -> probability, of one stim noise instruction on its targets; args: terms or numbers."""
    if name == "DEPOLARIZE1":
        return {p: args[0] / 3 for p in ONE[1:]}
    if name == "DEPOLARIZE2":
        return {p: args[0] / 15 for p in TWO[1:]}
    if name in ("X_ERROR", "Y_ERROR", "Z_ERROR"):
        return {name[0]: args[0]}
    if name == "PAULI_CHANNEL_1":
        return dict(zip(ONE[1:], args))
    if name == "PAULI_CHANNEL_2":
        return dict(zip(TWO[1:], args))
    return None


def eigen(ch, on):
    """Eigenvalue of the channel (Pauli -> probability) on the Pauli ``on``."""
    out = 1
    for p, v in ch.items():
        if anti(p, on):
            out = out - 2 * v
    return out
