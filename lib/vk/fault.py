"""Symbolic fault injection: every elementary fault of a noisy circuit gets symbols; signatures are read off the tableau."""
from . import env  # noqa: F401
import itertools
import time

import stim

from .env import CheckError
from . import cliff, sym

P1 = {"X": (1, 0), "Y": (1, 1), "Z": (0, 1)}
P2 = [p for p in itertools.product("IXYZ", repeat=2) if p != ("I", "I")]


def locations(circuit):
    """(instruction number, target group, allowed faults) with faults: tuple of Paulis per target, or 'flip'."""
    out = []
    for k, ins in enumerate(cliff.flat(circuit)):
        name, args, ts = ins.name, ins.gate_args_copy(), [t.value for t in ins.targets_copy()]
        if name in cliff.MEAS and args and args[0] > 0:
            out += [(k, (j, q), ["flip"]) for j, q in enumerate(ts)]
        elif name in ("X_ERROR", "Y_ERROR", "Z_ERROR") and args[0] > 0:
            out += [(k, (q,), [name[0]]) for q in ts]
        elif name == "DEPOLARIZE1" and args[0] > 0:
            out += [(k, (q,), list("XYZ")) for q in ts]
        elif name == "DEPOLARIZE2" and args[0] > 0:
            out += [(k, g, P2) for g in zip(ts[::2], ts[1::2])]
        elif name == "PAULI_CHANNEL_1":
            out += [(k, (q,), [p for p, a in zip("XYZ", args) if a > 0]) for q in ts]
        elif name == "PAULI_CHANNEL_2":
            out += [(k, g, [p for p, a in zip(P2, args) if a > 0]) for g in zip(ts[::2], ts[1::2])]
        elif name in cliff.NOISE:
            raise CheckError(f"unsupported noise {name}")
    return out


class Signatures:
    """sig[(loc number, fault)] = (frozenset-like detector mask, observable mask); ``random_obs`` if undetermined."""

    def __init__(self, circuit):
        self.locs = locations(circuit)
        by = {}
        for n, (k, g, _) in enumerate(self.locs):
            by.setdefault(k, {})[g] = n
        t = cliff.Tableau(max(1, circuit.num_qubits))
        self.var = {}  # (loc, slot, 'x'|'z') -> symbol bit
        for k, ins in enumerate(cliff.flat(circuit)):
            if ins.name in cliff.NOISE:
                for g, n in by.get(k, {}).items():
                    kinds = self.locs[n][2]
                    for s, q in enumerate(g):
                        for w, m in (("x", (1 << q, 0)), ("z", (0, 1 << q))):
                            need = any((f[s] if isinstance(f, tuple) else f) in ("XY" if w == "x" else "ZY") and
                                       (f[s] if isinstance(f, tuple) else f) != "I" for f in kinds)
                            if need:
                                b = t.sym.new(f"f{n}{w}{s}")
                                self.var[n, s, w] = b
                                t.pauli(*m, b)
                continue
            pos = {}

            def mn(tab, instr, q, idx, k=k, pos=pos):
                j = pos.setdefault("j", 0)
                pos["j"] += 1
                n = by.get(k, {}).get((j, q))
                if n is None:
                    return 0
                b = tab.sym.new(f"f{n}m")
                self.var[n, 0, "m"] = b
                return b

            t.step(ins, meas_noise=mn)
        self.t = t
        dets, obs, self.coords, self.det_recs, self.obs_recs = cliff.detectors_of(circuit, t.rec)
        self.dets, self.obs = dets, obs
        fm = 0
        for b in self.var.values():
            fm |= b
        self.fmask = fm
        # project away measurement randomness (none expected): eliminate random symbols among detectors
        self.random_dets = [i for i, e in enumerate(dets) if e & ~fm & ~1]
        rows = list(dets)
        if self.random_dets:
            piv = []
            rows = []
            for e in dets:
                for b, p in piv:
                    if e & b:
                        e ^= p
                r = e & ~fm & ~1
                if r:
                    piv.append((r & -r, e))
                else:
                    rows.append(e)
            self.piv = piv
        else:
            self.piv = []
        self.rows = rows
        self.orow = {}
        self.random_obs = []
        for o, e in obs.items():
            for b, p in self.piv:
                if e & b:
                    e ^= p
            if e & ~fm & ~1:
                self.random_obs.append(o)
            self.orow[o] = e
        col = {}
        for i, e in enumerate(rows):
            e = (e & fm) >> 1
            k = 1
            while e:
                low = (e & -e).bit_length()
                col[low] = col.get(low, 0) | 1 << i
                e &= e - 1
        self.dcol = col  # bit number -> det mask

    def sig(self, n, f):
        m = 0
        if f == "flip":
            m = self.var[n, 0, "m"]
        else:
            for s, p in enumerate(f if isinstance(f, tuple) else (f,)):
                if p == "I":
                    continue
                if P1[p][0]:
                    m ^= self.var[n, s, "x"]
                if P1[p][1]:
                    m ^= self.var[n, s, "z"]
        d = 0
        mm = m
        while mm:
            low = (mm & -mm).bit_length() - 1
            d ^= self.dcol.get(low, 0)
            mm &= mm - 1
        o = 0
        for j, e in self.orow.items():
            if cliff.popcount(e & m) & 1:
                o |= 1 << j
        return d, o

    def classes(self):
        """signature -> one representative fault."""
        out = {}
        for n, (k, g, kinds) in enumerate(self.locs):
            for f in kinds:
                s = self.sig(n, f)
                if s != (0, 0):
                    out.setdefault(s, (n, f))
        return out


def undetected(sigs, max_weight, classes=None, cond=None, timeout=600):
    """SAT: a set of at most max_weight fault classes, no detector fires, observable parity odd. None when UNSAT."""
    from pysat.solvers import Solver
    from pysat.card import CardEnc, EncType

    cl = classes or sigs.classes()
    keys = list(cl)
    nv = len(keys)
    inc = {}
    obs = []
    for v, (d, o) in enumerate(keys, 1):
        while d:
            low = (d & -d).bit_length()
            inc.setdefault(low, []).append(v)
            d &= d - 1
        if o & 1:
            obs.append(v)
    top = nv
    clauses = []

    def xor(lits, val):
        nonlocal top
        lits = list(lits)
        while len(lits) > 4:
            new = []
            for i in range(0, len(lits), 3):
                grp = lits[i:i + 3]
                if len(grp) == 1:
                    new.append(grp[0])
                    continue
                top += 1
                _xor(grp + [top], 0)
                new.append(top)
            lits = new
        _xor(lits, val)

    def _xor(lits, val):
        for bits in itertools.product((0, 1), repeat=len(lits)):
            if sum(bits) % 2 != val:
                clauses.append([-l if b else l for l, b in zip(lits, bits)])

    for k, vs in inc.items():
        xor(vs, 0)
    if not obs:
        return None, dict(vars=nv, clauses=0, time=0.0)
    xor(obs, 1)
    card = CardEnc.atmost(lits=list(range(1, nv + 1)), bound=max_weight, top_id=top, encoding=EncType.seqcounter)
    clauses += card.clauses
    t = time.time()
    with Solver("cadical153", bootstrap_with=clauses) as s:
        r = s.solve()
        sym.Stats.queries += 1
        sym.Stats.time += time.time() - t
        st = dict(vars=nv, clauses=len(clauses), time=round(time.time() - t, 2))
        if not r:
            sym.Stats.unsat += 1
            return None, st
        sym.Stats.sat += 1
        m = set(l for l in s.get_model() if 0 < l <= nv)
    return [cl[keys[v - 1]] for v in sorted(m)], st


def with_faults(circuit, locs, faults):
    """The noiseless circuit with the chosen faults applied explicitly. faults: [(loc number, fault)]."""
    todo = {}
    for n, f in faults:
        k, g, _ = locs[n]
        todo.setdefault(k, []).append((g, f))
    out = stim.Circuit()
    for k, ins in enumerate(cliff.flat(circuit)):
        if ins.name in cliff.NOISE:
            for g, f in todo.get(k, []):
                for q, p in zip(g, f if isinstance(f, tuple) else (f,)):
                    if p != "I":
                        out.append(p, [q])
            continue
        if ins.name in cliff.MEAS:
            fl = {g for g, f in todo.get(k, []) if f == "flip"}
            for j, t in enumerate(ins.targets_copy()):
                inv = t.is_inverted_result_target != ((j, t.value) in fl)
                out.append(ins.name, [stim.target_inv(t.value) if inv else t.value])
            continue
        out.append(ins)
    return out


def evaluate(circuit, seed=0):
    """Concrete detectors / observables in stim's tableau simulator."""
    s = stim.TableauSimulator(seed=seed)
    s.do(circuit)
    rec = [int(b) for b in s.current_measurement_record()]
    d, o, *_ = cliff.detectors_of(circuit, rec)
    return d, o
