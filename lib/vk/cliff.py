"""Symbolic execution of stabilizer circuits.

State: stabilizer tableau (Aaronson-Gottesman with destabilizers) whose row signs are GF(2)-affine expressions, stored as
Python ints (bit 0 = the constant 1, bit i = symbol i).  Symbols: random measurement outcomes, input bits, Pauli faults.
Executing a circuit once therefore covers all its random outcomes / symbolic inputs / faults at once, exactly.
"""
from . import env  # noqa: F401
import stim
import z3

from .env import CheckError

UNITARY_1 = {"I", "X", "Y", "Z", "H", "S", "S_DAG"}
ANNOT = {"TICK", "QUBIT_COORDS", "SHIFT_COORDS", "DETECTOR", "OBSERVABLE_INCLUDE"}
NOISE = {
    "DEPOLARIZE1", "DEPOLARIZE2", "X_ERROR", "Y_ERROR", "Z_ERROR", "PAULI_CHANNEL_1", "PAULI_CHANNEL_2", "E",
    "CORRELATED_ERROR", "ELSE_CORRELATED_ERROR", "HERALDED_ERASE", "HERALDED_PAULI_CHANNEL_1",
}
MEAS = {"M": "Z", "MX": "X", "MY": "Y", "MZ": "Z", "MR": "Z", "MRX": "X", "MRY": "Y", "MRZ": "Z"}
RESET = {"R": "Z", "RX": "X", "RY": "Y", "RZ": "Z", "MR": "Z", "MRX": "X", "MRY": "Y", "MRZ": "Z"}
CANON = {"CNOT": "CX", "ZCX": "CX", "ZCZ": "CZ", "MZ": "M", "RZ": "R", "MRZ": "MR", "SQRT_Z": "S", "SQRT_Z_DAG": "S_DAG", "H_XZ": "H"}


def popcount(x):
    return bin(x).count("1")


class Symbols:
    def __init__(self):
        self.names = ["1"]

    def new(self, name):
        self.names.append(name)
        return 1 << (len(self.names) - 1)

    def show(self, expr):
        return " ^ ".join(self.names[i] for i in range(len(self.names)) if expr >> i & 1) or "0"

    def z3bool(self, i):
        return z3.Bool(f"s{i}_{self.names[i]}")

    def z3(self, expr):
        """z3 term of the affine expression."""
        t = z3.BoolVal(bool(expr & 1))
        i = 1
        e = expr >> 1
        while e:
            if e & 1:
                t = z3.Xor(t, self.z3bool(i))
            e >>= 1
            i += 1
        return z3.simplify(t) if expr <= 1 else t

    def from_model(self, model, expr_mask=None):
        vals = {}
        for i in range(1, len(self.names)):
            if expr_mask is None or expr_mask >> i & 1:
                vals[i] = z3.is_true(model.eval(self.z3bool(i), model_completion=True))
        return vals


class Tableau:
    """n qubits in |0..0>; rows 0..n-1 destabilizers, n..2n-1 stabilizers."""

    def __init__(self, n, symbols=None):
        self.n = n
        self.sym = symbols or Symbols()
        self.x = [1 << i for i in range(n)] + [0] * n
        self.z = [0] * n + [1 << i for i in range(n)]
        self.s = [0] * (2 * n)
        self.rec = []  # measurement record: affine expressions
        self.rec_q = []  # (qubit, basis) of each record

    # ---- gates, masks over qubits
    def h(self, m):
        x, z, s = self.x, self.z, self.s
        for r in range(2 * self.n):
            a, b = x[r], z[r]
            if popcount(a & b & m) & 1:
                s[r] ^= 1
            d = (a ^ b) & m
            if d:
                x[r] = a ^ d
                z[r] = b ^ d

    def sgate(self, m):
        x, z, s = self.x, self.z, self.s
        for r in range(2 * self.n):
            a = x[r] & m
            if a:
                if popcount(a & z[r]) & 1:
                    s[r] ^= 1
                z[r] ^= a

    def pauli(self, mx, mz, expr=1):
        """Apply Pauli with x-mask mx, z-mask mz, multiplied in the sign by expr (symbolic when not 1)."""
        x, z, s = self.x, self.z, self.s
        for r in range(2 * self.n):
            if (popcount(x[r] & mz) ^ popcount(z[r] & mx)) & 1:
                s[r] ^= expr

    def cx(self, pairs):
        x, z, s = self.x, self.z, self.s
        for r in range(2 * self.n):
            a, b, sg = x[r], z[r], s[r]
            for c, t in pairs:
                xc, zt = a >> c & 1, b >> t & 1
                if xc & zt & ((a >> t & 1) ^ (b >> c & 1) ^ 1):
                    sg ^= 1
                if xc:
                    a ^= 1 << t
                if zt:
                    b ^= 1 << c
            x[r], z[r], s[r] = a, b, sg

    def cz(self, pairs):
        x, z, s = self.x, self.z, self.s
        for r in range(2 * self.n):
            a, b, sg = x[r], z[r], s[r]
            if not a:
                continue
            for c, t in pairs:
                xc, xt = a >> c & 1, a >> t & 1
                if xc & xt & ((b >> c & 1) ^ (b >> t & 1)):
                    sg ^= 1
                if xc:
                    b ^= 1 << t
                if xt:
                    b ^= 1 << c
            z[r], s[r] = b, sg

    def swap(self, pairs):
        for q1, q2 in pairs:
            m = (1 << q1) | (1 << q2)
            for arr in (self.x, self.z):
                for r in range(2 * self.n):
                    v = arr[r]
                    if (v >> q1 ^ v >> q2) & 1:
                        arr[r] = v ^ m

    def _phase(self, x1, z1, x2, z2):
        """exponent of i (mod 4) picked up in P1*P2 where rows denote i^{|x&z|} X^x Z^z ( Y = iXZ )."""
        # P = i^{|x.z|} X^x Z^z ; product: i^{a+b} X^x1 Z^z1 X^x2 Z^z2 = i^{a+b} (-1)^{z1.x2} X^(x1^x2) Z^(z1^z2)
        # result written as i^{c} i^{|x3.z3|} X^x3 Z^z3
        a = popcount(x1 & z1) + popcount(x2 & z2) + 2 * popcount(z1 & x2)
        return (a - popcount((x1 ^ x2) & (z1 ^ z2))) % 4

    def _rowmul(self, h, i):
        """row h := row i * row h (phases of commuting rows are real)."""
        ph = self._phase(self.x[i], self.z[i], self.x[h], self.z[h])
        self.s[h] ^= self.s[i] ^ (1 if ph & 2 else 0)
        self.x[h] ^= self.x[i]
        self.z[h] ^= self.z[i]

    def expectation(self, px, pz, sign=0):
        """Affine expression e with <P> = (-1)^e if the state is an eigenstate of P for every symbol value, else None."""
        n = self.n
        for r in range(n, 2 * n):
            if (popcount(self.x[r] & pz) ^ popcount(self.z[r] & px)) & 1:
                return None
        ax = az = 0
        e = 0
        for r in range(n):
            if (popcount(self.x[r] & pz) ^ popcount(self.z[r] & px)) & 1:
                j = r + n
                ph = self._phase(ax, az, self.x[j], self.z[j])
                e ^= self.s[j] ^ (1 if ph & 2 else 0)
                ax ^= self.x[j]
                az ^= self.z[j]
        assert ax == px and az == pz
        return e ^ sign

    def measure_pauli(self, px, pz, name="m"):
        n = self.n
        p = None
        for r in range(n, 2 * n):
            if (popcount(self.x[r] & pz) ^ popcount(self.z[r] & px)) & 1:
                p = r
                break
        if p is None:
            return self.expectation(px, pz)
        for r in range(2 * n):
            if r != p and r != p - n and (popcount(self.x[r] & pz) ^ popcount(self.z[r] & px)) & 1:
                self._rowmul(r, p)
        d = p - n
        self.x[d], self.z[d], self.s[d] = self.x[p], self.z[p], self.s[p]
        v = self.sym.new(name)
        self.x[p], self.z[p], self.s[p] = px, pz, v
        return v

    def _basis_pauli(self, q, basis):
        return {"Z": (0, 1 << q), "X": (1 << q, 0), "Y": (1 << q, 1 << q)}[basis]

    def reset(self, q, basis="Z"):
        px, pz = self._basis_pauli(q, basis)
        e = self.measure_pauli(px, pz, f"reset{q}")
        if e:
            # flip with a Pauli anticommuting with P
            fx, fz = (0, 1 << q) if basis == "X" else (1 << q, 0)
            self.pauli(fx, fz, e)

    # ---- circuits
    def run(self, circuit, qmap=None, noise=None, meas_noise=None):
        """Execute a stim circuit. Noise channels call noise(tableau, instr, target group) (ignored when None)."""
        for instr in flat(circuit):
            self.step(instr, qmap, noise, meas_noise)
        return self

    def step(self, instr, qmap=None, noise=None, meas_noise=None):
        name = instr.name
        name = CANON.get(name, name)
        if name in ANNOT or name == "MPAD":
            if name == "MPAD":
                for t in instr.targets_copy():
                    self.rec.append(t.value & 1)
                    self.rec_q.append((None, "PAD"))
            return
        f = (lambda q: q) if qmap is None else (lambda q: qmap[q])
        if name in NOISE:
            if noise is not None:
                noise(self, instr, f)
            return
        if name == "MPP":
            for grp in instr.target_groups():
                px = pz = 0
                inv = 0
                for t in grp:
                    q = f(t.value)
                    inv ^= int(t.is_inverted_result_target)
                    if t.is_x_target or t.is_y_target:
                        px |= 1 << q
                    if t.is_z_target or t.is_y_target:
                        pz |= 1 << q
                self.rec.append(self.measure_pauli(px, pz, f"m{len(self.rec)}") ^ inv)
                self.rec_q.append((tuple(t.value for t in grp), "P"))
            return
        targets = instr.targets_copy()
        if any(not t.is_qubit_target for t in targets):
            raise CheckError(f"unsupported targets in {instr}")
        qs = [f(t.value) for t in targets]
        if name in MEAS:
            b = MEAS[name]
            for t, q in zip(targets, qs):
                px, pz = self._basis_pauli(q, b)
                e = self.measure_pauli(px, pz, f"m{len(self.rec)}q{t.value}")
                if name in RESET:
                    if e:
                        fx, fz = (0, 1 << q) if b == "X" else (1 << q, 0)
                        self.pauli(fx, fz, e)
                if t.is_inverted_result_target:
                    e ^= 1
                if meas_noise is not None:
                    e ^= meas_noise(self, instr, t.value, len(self.rec))
                self.rec.append(e)
                self.rec_q.append((t.value, b))
            return
        if name in RESET:
            for q in qs:
                self.reset(q, RESET[name])
            return
        if len(set(qs)) == len(qs):  # disjoint targets: masks
            m = sum(1 << q for q in qs)
            if name == "I":
                return
            if name == "X":
                return self.pauli(m, 0)
            if name == "Z":
                return self.pauli(0, m)
            if name == "Y":
                return self.pauli(m, m)
            if name == "H":
                return self.h(m)
            if name == "S":
                return self.sgate(m)
            if name == "S_DAG":
                self.pauli(0, m)
                return self.sgate(m)
        pairs = list(zip(qs[::2], qs[1::2]))
        if name == "CX":
            return self.cx(pairs)
        if name == "CZ":
            return self.cz(pairs)
        if name == "SWAP":
            return self.swap(pairs)
        # anything else: let stim decompose it into H, S, CX, M, R
        c = stim.Circuit()
        c.append(instr)
        d = c.decomposed()
        if len(d) == 1 and d[0].name == instr.name:
            if len(set(qs)) != len(qs):  # repeated 1-qubit targets
                for t in targets:
                    self.step(stim.CircuitInstruction(instr.name, [t]), qmap, noise, meas_noise)
                return
            raise CheckError(f"unsupported instruction {instr}")
        for i in d:
            self.step(i, qmap, noise, meas_noise)

    # ---- Choi states
    def entangle(self, pairs):
        """Bell pairs between data qubit and reference qubit (all fresh)."""
        m = sum(1 << a for a, _ in pairs)
        self.h(m)
        self.cx(list(pairs))


def flat(circuit):
    for instr in circuit.flattened():
        yield instr


def detectors_of(circuit, rec):
    """(list of detector exprs, dict observable -> expr, list of coords, list of target sets) given the final record."""
    dets, coords, det_recs = [], [], []
    obs, obs_recs = {}, {}
    n = 0
    for instr in flat(circuit):
        name = instr.name
        if name in MEAS or name in ("MPAD",):
            n += len(instr.targets_copy())
        elif name == "MPP":
            n += len(instr.target_groups())
        elif name == "DETECTOR" or name == "OBSERVABLE_INCLUDE":
            e = 0
            idx = []
            for t in instr.targets_copy():
                k = n + t.value
                if k < 0:
                    raise CheckError("record target before start")
                idx.append(k)
                e ^= rec[k]
            if name == "DETECTOR":
                dets.append(e)
                det_recs.append(idx)
                coords.append(tuple(instr.gate_args_copy()))
            else:
                o = int(instr.gate_args_copy()[0])
                obs[o] = obs.get(o, 0) ^ e
                obs_recs.setdefault(o, []).extend(idx)
    return dets, obs, coords, det_recs, obs_recs


def count_qubits(circuit):
    return circuit.num_qubits


def execute(circuit, **kw):
    t = Tableau(max(1, circuit.num_qubits))
    t.run(circuit, **kw)
    return t
