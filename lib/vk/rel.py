"""Jobs: a circuit of the real code run on a maximally entangled input, and the relations it must satisfy.

``decide`` executes the circuit on the symbolic tableau (all input states / measurement outcomes at once) and asks the
solver; ``replay`` runs the same circuit in stim's own simulator and evaluates the same relations on concrete outcomes."""
from . import env
import os
import random
import traceback

import stim

from .env import CheckError, REPO
from . import cliff, fam


def from_repo(exc):
    """True when the exception passed through the code under test."""
    root = os.path.join(os.path.realpath(REPO), "surface_sim") + os.sep
    return any(os.path.realpath(f.filename).startswith(root) for f in traceback.extract_tb(exc.__traceback__))


class Rel:
    """<P(on) x P(ref)^T> = (-1)^(xor of records + const); const None: any constant (but a constant);
    const "free": any function of the outcomes, but determined."""

    def __init__(self, name, on=None, ref=None, recs=(), const=0, free_syms=()):
        self.name, self.on, self.ref, self.recs, self.const = name, on or {}, ref or {}, tuple(recs), const


class Job:
    def __init__(self, inds, circuit, extra=(), entangle=True):
        self.inds, self.circuit, self.extra = dict(inds), circuit, tuple(extra)
        self.entangled = list(inds) if entangle is True else list(entangle or [])
        self.rels = []
        self.problems = []  # statically false claims

    def claim(self, *a, **kw):
        self.rels.append(Rel(*a, **kw))

    def require(self, cond, msg):
        if not cond:
            self.problems.append(msg)
        return bool(cond)

    def records(self):
        """label -> record indices"""
        inv = {i: q for q, i in self.inds.items()}
        out, k = {}, 0
        for ins in cliff.flat(self.circuit):
            if ins.name in cliff.MEAS:
                for t in ins.targets_copy():
                    out.setdefault(inv.get(t.value, t.value), []).append(k)
                    k += 1
            elif ins.name == "MPP":
                k += len(ins.target_groups())
        self.num_rec = k
        return out


def symbolic(job):
    inds = {q: job.inds[q] for q in job.entangled}
    extra = [i for q, i in job.inds.items() if q not in inds] + list(job.extra)
    c = fam.Choi(inds, extra)
    for q, i in job.inds.items():
        c.pos[q] = c.qmap[i]
    known = set(c.qmap)
    for ins in cliff.flat(job.circuit):
        for t in ins.targets_copy():
            if t.is_qubit_target and t.value not in known:
                job.require(False, f"circuit touches unknown qubit index {t.value}")
                return None
    c.run(job.circuit)
    return c


def exprs(job, c):
    out = []
    for r in job.rels:
        e = c.exp(r.on, r.ref)
        if e is not None:
            for k in r.recs:
                e ^= c.t.rec[k]
            if r.const is None:
                e &= ~1
            elif r.const == "free":
                e = 0
            else:
                e ^= r.const
        out.append((r, e))
    return out


def decide(ck, case, build):
    """Build the job of a case from the real code and let the solver decide all its relations."""
    ck.programs += 1
    try:
        job = build(case)
        c = None if job.problems else symbolic(job)
    except CheckError:
        raise
    except Exception as ex:
        if not from_repo(ex):
            raise
        ck.violation(case, f"valid request raised {type(ex).__name__}: {ex}")
        return None
    if job.problems:
        ck.violation(case, job.problems[0])
        return None
    rs = exprs(job, c)
    bad = [r for r, e in rs if e is None]
    if bad:
        ck.obligations += 1
        ck.violation(case, f"{case}: {bad[0].name}: not determined by the input and the outcomes")
        return job
    hit = ck.refute_affine(c.t.sym, [e for _, e in rs])
    if hit is not None:
        r = rs[hit[0]][0]
        ck.violation(case, f"{case}: {r.name} violated for outcomes {hit[1]}")
    return job


def replay(case, build, shots=40):
    try:
        job = build(case)
    except CheckError:
        raise
    except Exception as ex:
        if not from_repo(ex):
            raise
        return f"raised {type(ex).__name__}: {ex}"
    if job.problems:
        return job.problems[0]
    inds = job.inds
    n = max([*inds.values(), *job.extra, job.circuit.num_qubits - 1, 0]) + 1
    if job.circuit.num_qubits > max([*inds.values(), *job.extra, 0]) + 1:
        return "circuit touches an unknown qubit index"
    ref = {q: n + k for k, q in enumerate(job.entangled)}
    N = n + len(ref)
    pre = stim.Circuit()
    for q in job.entangled:
        pre.append("H", [inds[q]])
        pre.append("CX", [inds[q], ref[q]])
    circ = job.circuit.without_noise()
    consts = {}
    for s in range(shots):
        sim = stim.TableauSimulator(seed=s)
        sim.do(pre)
        sim.do(circ)
        rec = sim.current_measurement_record()
        if sim.num_qubits < N:
            sim.set_num_qubits(N)
        for k, r in enumerate(job.rels):
            p = stim.PauliString(N)
            ny = 0
            for q, o in r.on.items():
                p[inds[q]] = o
            for q, o in r.ref.items():
                p[ref[q]] = o
                ny += o == "Y"
            want = sum(rec[j] for j in r.recs) + ny
            got = sim.peek_observable_expectation(p) if p.weight else 1
            if got == 0:
                return f"{r.name}: expectation value is undetermined"
            v = (want + (got < 0)) % 2
            if r.const == "free":
                continue
            if r.const is None:
                if consts.setdefault(k, v) != v:
                    return f"{r.name}: differs between shots"
            elif v != r.const:
                return f"{r.name}: wrong value in shot {s}"
    return None
