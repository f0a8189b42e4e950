"""The six circuit families, layout builders and the oracles read off the layout definition."""
from . import env  # noqa: F401
import importlib

import stim

from .env import CheckError
from . import cliff


class Fam:
    def __init__(self, name, kind, mod, frame, google=False):
        self.name, self.kind, self.mod, self.frame, self.google = name, kind, mod, frame, google

    @property
    def blocks(self):
        return importlib.import_module(f"surface_sim.circuit_blocks.{self.mod}")

    @property
    def exps(self):
        return importlib.import_module(f"surface_sim.experiments.{self.mod}")

    def round(self, model, layout, dets, anc_reset, ancs=None):
        if self.google:
            return self.blocks.qec_round(model, layout, dets, anc_detectors=ancs)
        return self.blocks.qec_round(model, layout, dets, anc_reset=anc_reset, anc_detectors=ancs)

    @property
    def resets(self):
        return (True,) if self.google else (True, False)

    def min_rounds(self):
        return 1 if self.google else 0

    def memory(self, model, layout, dets, rounds, init, rot_basis=False, anc_reset=True, ancs=None, gauge=True):
        kw = dict(model=model, layout=layout, detectors=dets, num_rounds=rounds, data_init=init, rot_basis=rot_basis,
                  anc_detectors=ancs, gauge_detectors=gauge)
        if not self.google:
            kw["anc_reset"] = anc_reset
        return self.exps.memory_experiment(**kw)


FAMS = {
    f.name: f
    for f in [
        Fam("rot_css", "rot", "rot_surface_code_css", "css"),
        Fam("rot_css_pipelined", "rot", "rot_surface_code_css_pipelined", "css"),
        Fam("rot_xzzx", "rot", "rot_surface_code_xzzx", "xzzx"),
        Fam("rot_xzzx_pipelined", "rot", "rot_surface_code_xzzx_pipelined", "xzzx"),
        Fam("rot_xzzx_google", "rot", "rot_surface_code_xzzx_google", "xzzx", google=True),
        Fam("unrot_css", "unrot", "unrot_surface_code_css", "css"),
    ]
}


def code(kind, dx, dz, **kw):
    from surface_sim import layouts as L

    f = L.rot_surface_code_rectangle if kind == "rot" else L.unrot_surface_code_rectangle
    return f(distance_x=dx, distance_z=dz, **kw)


VARIANTS = ("reversed", "interleaved", "scattered", "relabelled")


def variant(lay, how):
    """The same code written down differently: other order of the qubits, other indices, other labels."""
    from surface_sim import Layout

    if how is None:
        return lay
    d = lay.to_dict()
    qs = [dict(q) for q in d["layout"]]
    first = min(q["ind"] for q in qs)
    if how == "reversed":
        qs = qs[::-1]
    elif how == "interleaved":
        qs = qs[1::2] + qs[::2][::-1]
    elif how == "scattered":
        for k, q in enumerate(qs):
            q["ind"] = first + 2 * ((5 * k + 3) % len(qs) if len(qs) % 5 else len(qs) - 1 - k) + 1
        qs = qs[2::3] + qs[::3] + qs[1::3]
    elif how == "relabelled":  # labels whose alphabetical order has nothing to do with their roles
        n = len(qs)
        new = {q["qubit"]: f"{'qQ_'[k % 3]}{(7 * k + 2) % n if n % 7 else n - k}" for k, q in enumerate(qs)}

        def ren(x):
            if isinstance(x, str):
                return new.get(x, x)
            if isinstance(x, dict):
                return {a: ren(b) for a, b in x.items()}
            if isinstance(x, (list, tuple)):
                return [ren(b) for b in x]
            return x

        d = {**d, **{a: ren(b) for a, b in d.items() if a.startswith("log_")}}
        qs = [{**ren(q), "role": q["role"]} for q in qs]
    else:
        raise KeyError(how)
    return Layout({**d, "layout": qs})


def second(kind, dx, dz, first=None, label="L1", shift=None):
    """A second block of the same code next to the first one."""
    from surface_sim import layouts as L

    n = max((first or code(kind, dx, dz)).get_inds((first or code(kind, dx, dz)).get_qubits())) + 1
    return code(kind, dx, dz, logical_qubit_label=label, init_point=shift or (100, 200), init_data_qubit_id=1000,
                init_zanc_qubit_id=1000, init_xanc_qubit_id=1000, init_ind=n)


def nbrs(layout, q):
    """Neighbours straight from the definition."""
    return [v for v in layout.param("neighbors", q).values() if v is not None]


def data(layout):
    return [q for q in layout.get_qubits() if layout.param("role", q) == "data"]


def ancs(layout, stab_type=None):
    return [q for q in layout.get_qubits()
            if layout.param("role", q) == "anc" and (stab_type is None or layout.param("stab_type", q) == stab_type)]


def sublattice(layout):
    """Data qubits on which the XZZX frame applies a Hadamard: NW / SE neighbours of the Z-type ancillas."""
    s = set()
    for a in ancs(layout, "z_type"):
        nb = layout.param("neighbors", a)
        for d in ("north_west", "south_east"):
            if nb.get(d) is not None:
                s.add(nb[d])
    return s


def rotate(op, sub):
    return {q: ({"X": "Z", "Z": "X", "Y": "Y"}[p] if q in sub else p) for q, p in op.items()}


def stabs(layout, frame="css"):
    sub = sublattice(layout) if frame == "xzzx" else set()
    return {a: rotate({q: "X" if layout.param("stab_type", a) == "x_type" else "Z" for q in nbrs(layout, a)}, sub)
            for a in ancs(layout)}


def logical(layout, which, frame="css"):
    sub = sublattice(layout) if frame == "xzzx" else set()
    lab = layout.get_logical_qubits()[0]
    sup = (layout.log_x if which == "X" else layout.log_z)[lab]
    return rotate({q: which for q in sup}, sub)


def init_basis(layout, frame, rot_basis):
    """basis ('Z'/'X') in which every data qubit is prepared / read out."""
    sub = sublattice(layout) if frame == "xzzx" else set()
    return {q: ("X" if (q in sub) != bool(rot_basis) else "Z") for q in data(layout)}


def mul(*ops):
    """Product of label->Pauli dicts; returns (dict, sign bit). Raises if the phase is imaginary."""
    x, z, ph = {}, {}, 0
    qs = sorted({q for o in ops for q in o})
    idx = {q: i for i, q in enumerate(qs)}
    ax = az = 0
    ph = 0
    for o in ops:
        ox = sum(1 << idx[q] for q, p in o.items() if p in "XY")
        oz = sum(1 << idx[q] for q, p in o.items() if p in "ZY")
        pc = cliff.popcount
        a = pc(ax & az) + pc(ox & oz) + 2 * pc(az & ox)
        ph += a - pc((ax ^ ox) & (az ^ oz))
        ax ^= ox
        az ^= oz
    out = {}
    for q, i in idx.items():
        bx, bz = ax >> i & 1, az >> i & 1
        if bx or bz:
            out[q] = "Y" if bx and bz else ("X" if bx else "Z")
    ph %= 4
    return out, ph


def masks(op, pos):
    px = pz = 0
    for q, p in op.items():
        if p in "XY":
            px |= 1 << pos[q]
        if p in "ZY":
            pz |= 1 << pos[q]
    return px, pz


def model_for(*layouts, cls="NoiselessModel", setup=None):
    from surface_sim import models as M

    inds = {}
    for l in layouts:
        inds.update(l.qubit_inds())
    c = getattr(M, cls)
    return c(inds) if cls == "NoiselessModel" else c(setup, inds)


def detectors_for(*layouts, frame="pre-gate", coords=True):
    from surface_sim import Detectors

    a, c = [], {}
    for l in layouts:
        a += ancs(l)
        c.update({q: l.param("coords", q) for q in ancs(l)})
    return Detectors(a, frame=frame, anc_coords=c if coords else None)


class Choi:
    """Tableau in which every listed stim qubit index q starts maximally entangled with a reference qubit."""

    def __init__(self, inds, extra=()):
        """inds: label -> stim index (entangled); extra: further stim indices starting in |0>."""
        self.labels = list(inds)
        self.qmap = {}
        self.pos, self.ref = {}, {}
        n = 0
        for q in self.labels:
            self.pos[q] = n
            self.qmap[inds[q]] = n
            n += 1
        for q in self.labels:
            self.ref[q] = n
            n += 1
        for i in extra:
            if i not in self.qmap:
                self.qmap[i] = n
                n += 1
        self.t = cliff.Tableau(n)
        self.t.entangle([(self.pos[q], self.ref[q]) for q in self.labels])

    def run(self, circuit):
        class Map(dict):
            def __missing__(s, k):
                raise CheckError(f"circuit touches unknown qubit index {k}")

        self.t.run(circuit, Map(self.qmap))
        return self

    def exp(self, on=None, ref=None, sign=0):
        """Expectation exponent of  P(on) (x) P(ref)^T ."""
        px, pz = masks(on or {}, self.pos)
        rx, rz = masks(ref or {}, self.ref)
        ny = sum(p == "Y" for p in (ref or {}).values())
        return self.t.expectation(px | rx, pz | rz, sign ^ (ny & 1))


def ideal(circuit):
    """The circuit without annotations and noise."""
    return circuit.without_noise()


def rec_by_qubit(t, inds):
    """label -> list of record indices, for the records in tableau t."""
    inv = {i: q for q, i in inds.items()}
    out = {}
    for k, (q, _) in enumerate(t.rec_q):
        out.setdefault(inv.get(q), []).append(k)
    return out
