"""C26: layout plots draw every qubit, label, patch and connection at its coordinates."""
import itertools

import numpy as np
import z3

from vk import fam, rel, sym

LEVEL = "other"
EXPLANATION = (
    "The real plotting code runs on layouts with symbolic coordinates (generated codes with a symbolic real origin and scale, and "
    "small definitions in which every coordinate, stabilizer type and flag is symbolic) against an axes object that records the "
    "matplotlib artists it is given. The solver shows for all values that each qubit has exactly one circle and one label at its "
    "coordinates, each ancilla one simple polygon on its data qubits and one line to each neighbour, all in the colour of the type, "
    "and that the axis limits contain every qubit."
)


class Axes:
    """Records what is drawn."""

    def __init__(self):
        self.artists, self.lim, self.inverted = [], {}, 0

    def add_artist(self, a):
        self.artists.append(a)
        return a

    add_patch = add_line = add_text = _add_text = add_artist

    def set_xlim(self, left=None, right=None, **kw):
        self.lim["x"] = left if isinstance(left, (tuple, list)) else (left if left is not None else kw.get("xmin"), right if right is not None else kw.get("xmax"))

    def set_ylim(self, bottom=None, top=None, **kw):
        self.lim["y"] = bottom if isinstance(bottom, (tuple, list)) else (bottom if bottom is not None else kw.get("ymin"), top if top is not None else kw.get("ymax"))

    def invert_yaxis(self):
        self.inverted += 1

    def __getattr__(self, name):
        if name.startswith("set_") or name in ("grid", "autoscale", "margins", "axis", "tick_params"):
            return lambda *a, **kw: None
        raise sym.CheckError(f"the plotting code uses Axes.{name}, which is not recorded")


class Angle:
    """Direction of a vector, ordered like the value of atan2 (exactly, by signs and cross products)."""

    def __init__(self, y, x):
        self.y, self.x = y, x

    def half(self):  # 0: (-pi, 0), 1: 0, 2: (0, pi), 3: pi
        if bool(self.y < 0):
            return 0
        if bool(self.y > 0):
            return 2
        return 1 if bool(self.x >= 0) else 3

    def __lt__(self, o):
        a, b = self.half(), o.half()
        return a < b if a != b or a in (1, 3) else bool(self.x * o.y - self.y * o.x > 0)

    def __gt__(self, o):
        return o < self

    def __le__(self, o):
        return not o < self

    def __ge__(self, o):
        return not self < o


def _arctan2(self, x):
    return Angle(self, x)


sym.SymReal.arctan2 = _arctan2


def term(v):
    return v.term if type(v) is sym.SymReal else sym.untoken(v)


def num(v):
    return v if type(v) is sym.SymReal else float(v)


# ---------------------------------------------------------------- layouts
def build(case, val, choice):
    """(layout, flags)"""
    from surface_sim import Layout

    fl = {k: choice([True, False]) for k in ("add_labels", "add_patches", "add_connections", "stim_orientation")} if case["flags"] else dict(
        add_labels=True, add_patches=True, add_connections=True, stim_orientation=True)
    if case["kind"] == "generated":
        l = fam.code(case["code"], case["dx"], case["dz"], init_point=(val("px"), val("py")))
        if case["scale"]:
            for q in l.get_qubits():
                c = fam.code(case["code"], case["dx"], case["dz"]).param("coords", q)
                l.set_param("coords", q, [val("px") + val("+a") * c[0], val("py") + val("+b") * c[1]])
        if case.get("meta"):  # drawing parameters of one qubit
            l.set_param("metaparams", choice(l.get_qubits()[case["meta"] - 1 :: 6]), choice(METAS))
        return l, fl
    # free coordinates: patches are polygons on arbitrary points, so they are left out
    names = ["D1", "Z2", "anc", "D10b", "X-3"][:case["n"]]
    layout = []
    anc = [q for q in names if q[0] != "D"]
    for k, q in enumerate(names):
        e = dict(qubit=q, role="data" if q[0] == "D" else "anc", coords=[val(f"x{k}"), val(f"y{k}")], neighbors={})
        if q[0] != "D":
            e["stab_type"] = choice(["x_type", "z_type", "other", None]) if q == "Z2" else ["x_type", "z_type"][k % 2]
            for d, n in zip(("a", "b"), [x for x in names if x[0] == "D"]):
                e["neighbors"][d] = n
        else:
            for d, n in zip(("c", "d", "e"), anc):
                e["neighbors"][d] = n
        layout.append(e)
    fl["add_patches"] = False
    return Layout(dict(layout=layout)), fl


KIND = {"x_type": "red", "z_type": "blue"}
METAS = [dict(circle=dict(facecolor="magenta", linewidth=7.0)), dict(line=dict(color="magenta", linestyle=":")), dict(patch=dict(facecolor="magenta", linewidth=7.0)),
         dict(text=dict(color="magenta", fontsize=33.0)), dict(circle=dict(radius=0.75), patch=dict(linewidth=7.0), line=dict(linewidth=7.0), text=dict(alpha=0.5))]


def custom(lay, q, what):
    m = lay.param("metaparams", q)
    return m.get(what, {}) if isinstance(m, dict) else {}


def strays(lay, artists, what, getters, at, names):
    """Style of an artist of a qubit: its own parameters, otherwise the one all other artists of this kind have."""
    seen = {}
    for q in names:
        for a, here in at(q):
            for key, get in getters.items():
                v = get(a)
                own = custom(lay, q, what)
                if key in own:
                    if v != own[key]:
                        yield f"the {key} of the {what} of {q} is {v} instead of {own[key]}", here
                else:
                    seen.setdefault((key, v), []).append((q, here))
    for key in getters:
        vals = {k[1]: len(l) for k, l in seen.items() if k[0] == key}
        if len(vals) > 1:
            best = max(vals, key=vals.get)
            for v in vals:
                for q, here in seen[key, v] if v != best else ():
                    yield f"the {key} of the {what} of {q} is {v}, that of others {best}", here


def rgba(c):
    from matplotlib.colors import to_rgba

    return tuple(np.round(to_rgba(c), 6))


def claims(case, val, choice):
    from matplotlib.lines import Line2D
    from matplotlib.patches import Circle, Polygon
    from matplotlib.text import Text

    from surface_sim.layouts import plot
    from surface_sim.layouts.plotter import COLORS

    lay, fl = build(case, val, choice)
    ax = Axes()
    out = plot(ax, lay, pad=val("+pad") if case["flags"] else 1, **fl)
    if out is not ax:
        yield "plot does not return the axes", True
    qs = lay.get_qubits()
    co = {q: [term(c) for c in lay.param("coords", q)] for q in qs}
    A = [q for q in qs if lay.param("role", q) == "anc"]

    def at(p, q):
        return z3.And(*[term(a) == b for a, b in zip(p, co[q])])

    circles = [a for a in ax.artists if isinstance(a, Circle)]
    polys = [a for a in ax.artists if isinstance(a, Polygon)]
    lines = [a for a in ax.artists if isinstance(a, Line2D)]
    texts = [a for a in ax.artists if isinstance(a, Text)]
    if len(circles) + len(polys) + len(lines) + len(texts) != len(ax.artists):
        yield "something else than circles, polygons, lines and labels is drawn", True
    if len(circles) != len(qs):
        yield f"{len(circles)} circles for {len(qs)} qubits", True
        return
    # a perfect matching exists iff every qubit is hit, as coordinates are distinct (assumed for free coordinates)
    for q in qs:
        yield f"no circle at {q}", z3.Not(z3.Or([at(c.center, q) for c in circles]))
        st, role = lay.param("stab_type", q), lay.param("role", q)
        want = rgba("white") if role == "data" else rgba(COLORS[KIND.get(st, "green")])
        if "facecolor" in custom(lay, q, "circle"):
            want = rgba("magenta")
        for c in circles:
            if tuple(np.round(c.get_facecolor(), 6)) != want:
                yield f"circle of {q} has the wrong colour", at(c.center, q)
    if len(texts) != (len(qs) if fl["add_labels"] else 0):
        yield f"{len(texts)} labels", True
    for q in qs if texts else []:
        pure = lambda t: t.replace("$", "").replace("_\\mathrm{", "").replace("}", "")
        yield f"no label at {q}", z3.Not(z3.Or([at(t.get_position(), q) for t in texts]))
        for t in texts:
            if pure(t.get_text()) != q:
                yield f"the label at {q} reads {t.get_text()}", at(t.get_position(), q)
    # connections
    want = [(a, n) for a in A for n in fam.nbrs(lay, a)] if fl["add_connections"] else []
    if len(lines) != len(want):
        yield f"{len(lines)} connections instead of {len(want)}", True
    elif want:
        ends = []
        for l in lines:
            x, y = l.get_xdata(orig=True), l.get_ydata(orig=True)
            if len(x) != 2 or len(y) != 2:
                yield "a connection does not have two ends", True
                return
            ends.append(((x[0], y[0]), (x[1], y[1]), l))
        for a, n in want:
            cond = {id(l): z3.Or(z3.And(at(p, a), at(r, n)), z3.And(at(p, n), at(r, a))) for p, r, l in ends}
            yield f"no connection between {a} and {n}", z3.Not(z3.Or(list(cond.values())))
            w = rgba(COLORS[KIND.get(lay.param("stab_type", a), "green")])
            if "color" in custom(lay, a, "line"):
                w = rgba("magenta")
            for p, r, l in ends:
                if tuple(np.round(rgba(l.get_color()), 6)) != w:
                    yield f"the connection between {a} and {n} has the wrong colour", cond[id(l)]
    # patches
    A = [a for a in A if fam.nbrs(lay, a)]
    if len(polys) != (len(A) if fl["add_patches"] else 0):
        yield f"{len(polys)} patches for {len(A)} ancillas", True
        return
    for a in A if polys else []:
        nb = fam.nbrs(lay, a)
        corner = nb + ([a] if len(nb) == 2 else [])
        cond = []
        for p in polys:
            v = [tuple(x) for x in p.get_xy()]
            if len(v) > 1 and v[0] == v[-1]:
                v = v[:-1]
            if len(v) != len(corner):
                continue
            w = rgba(COLORS[KIND.get(lay.param("stab_type", a), "green") + "_light"])
            if "facecolor" in custom(lay, a, "patch"):
                w = rgba("magenta")
            ok = z3.And(*[z3.Or([at(x, q) for x in v]) for q in corner])
            if tuple(np.round(p.get_facecolor(), 6)) != w:
                continue
            # the corners of every patch of a code are in convex position: all turns have one sense
            turns = []
            ts = [tuple(map(term, x)) for x in v]
            for k in range(len(ts)):
                (x0, y0), (x1, y1), (x2, y2) = ts[k], ts[(k + 1) % len(ts)], ts[(k + 2) % len(ts)]
                turns.append((x1 - x0) * (y2 - y1) - (y1 - y0) * (x2 - x1))
            cond.append(ok if len(v) == 3 else z3.And(ok, z3.Or(z3.And([t > 0 for t in turns]), z3.And([t < 0 for t in turns]))))
        yield f"no simple patch of the right colour on the data qubits of {a}", z3.Not(z3.Or(cond))
    if case.get("meta"):
        def true(c):
            return z3.is_true(z3.simplify(c))

        def exact(arts, pos):  # placements are the same term for the same qubit in this layout
            return lambda q: [(a, True) for a in arts if true(at(pos(a), q))]

        yield from strays(lay, circles, "circle", {"radius": lambda a: a.radius, "linewidth": lambda a: a.get_linewidth()},
                          exact(circles, lambda c: c.center), qs)
        yield from strays(lay, texts, "text", {"color": lambda a: a.get_color(), "fontsize": lambda a: a.get_fontsize(), "alpha": lambda a: a.get_alpha()},
                          exact(texts, lambda c: c.get_position()), qs)
        yield from strays(lay, lines, "line", {"linestyle": lambda a: a.get_linestyle(), "linewidth": lambda a: a.get_linewidth()},
                          lambda q: [(l, True) for p, r, l in ends if true(at(p, q)) or true(at(r, q))],
                          [q for q in qs if lay.param("role", q) == "anc"])
        yield from strays(lay, polys, "patch", {"linewidth": lambda a: a.get_linewidth()}, lambda q: [
            (p, True) for p in polys if {k for x in p.get_xy() for k in qs if true(at(x, k))} == set(fam.nbrs(lay, q)) | ({q} if len(fam.nbrs(lay, q)) == 2 else set())],
            [q for q in qs if lay.param("role", q) == "anc"])
    for k, axis in enumerate("xy"):
        if axis not in ax.lim:
            continue
        lo, hi = (term(v) for v in ax.lim[axis])
        lo, hi = z3.If(lo < hi, lo, hi), z3.If(lo < hi, hi, lo)
        for q in qs:
            yield f"{q} is outside the {axis} limits", z3.Or(co[q][k] < lo, co[q][k] > hi)
    if ax.inverted % 2 != fl["stim_orientation"]:
        yield "the y axis does not have the requested orientation", True


def replay(case):
    vals, it = case["values"], iter(case["choices"])
    sym.reset_tokens()
    try:
        for what, bad in claims(case, lambda n: float(vals.get(n, 1.0)), lambda o: o[next(it)]):
            # numbers are floats now: positions are compared up to rounding by exact inputs (quarters), so equality is exact
            if bad is True or (z3.is_expr(bad) and z3.is_true(z3.simplify(bad))):
                return what
    except Exception as ex:
        if not rel.from_repo(ex):
            raise
        return f"raised {type(ex).__name__}: {ex}"
    return None


def one(ck, case):
    ck.covers("layouts.plotter.*")
    ex = sym.Explorer()
    box = {}

    def val(n):
        box["names"].add(n)
        t = z3.Real(n)
        if n[0] == "+" and n not in box["pos"]:
            box["pos"].add(n)
            ex.assume(t > 0 if n != "+pad" else t >= 0)
        return sym.SymReal(n)

    def choice(options):
        k = sym.choose(range(len(options)))
        box["made"].append(k)
        return options[k]

    def body():
        sym.reset_tokens()
        box.update(names=set(), pos=set(), made=[])
        if case["kind"] == "free":
            pts = [(z3.Real(f"x{k}"), z3.Real(f"y{k}")) for k in range(case["n"])]
            ex.assume(z3.And([z3.Or(a[0] != b[0], a[1] != b[1]) for a, b in itertools.combinations(pts, 2)] or [z3.BoolVal(True)]))
        try:
            return list(claims(case, val, choice))
        except (sym.CheckError, sym.PathAbort):
            raise
        except Exception as e:
            if not rel.from_repo(e):
                raise
            return [(f"valid use raised {type(e).__name__}: {e}", True)]

    for cl in ex.run(body):
        cl = [(w, c) for w, c in cl if c is not False]
        ck.paths += 1
        ck.programs += 1
        ck.obligations += 1
        bad = z3.Or([z3.BoolVal(True) if c is True else c for _, c in cl])
        if ex.model(bad) is None:
            ck.discharged += 1
            continue
        # exact in floats: quarters
        q = [z3.And(z3.Real(n) * 4 == z3.ToReal(z3.ToInt(z3.Real(n) * 4)), z3.Real(n) < 50, z3.Real(n) > -50) for n in sorted(box["names"])]
        try:
            m = ex.model(bad, *q) or ex.model(bad)
        except sym.CheckError:
            m = ex.model(bad)
        w = next(w for w, c in cl if c is True or z3.is_expr(c) and z3.is_true(m.eval(c, model_completion=True)))
        ck.violation(dict(case, values={n: float(sym.model_value(m, z3.Real(n))) for n in box["names"]}, choices=box["made"]), w)
        if ck.violations:
            return


def configs(ck):
    th = ck.thorough
    out = []
    for code in ("rot", "unrot"):
        top = 5 if th else 3
        for dx in range(1, top + 1):
            for dz in range(1, top + 1):
                small = dx * dz <= 4
                out.append(dict(kind="generated", code=code, dx=dx, dz=dz, flags=small, scale=False))
                if dx * dz <= (9 if th else 6):
                    out.append(dict(kind="generated", code=code, dx=dx, dz=dz, flags=False, scale=True))
    out += [dict(kind="generated", code=c, dx=dx, dz=dz, flags=False, scale=False, meta=k) for k in range(1, 7) for c, dx, dz in (
        ("rot", 2, 2), ("unrot", 2, 2), ("rot", 3, 3))]
    out += [dict(kind="generated", code="rot", dx=4, dz=5, flags=False, scale=False)]
    out += [dict(kind="free", n=n, flags=n < 3) for n in (1, 2, 3) + ((4,) if th else ())]
    return sorted(out, key=lambda c: -c.get("dx", 9) * c.get("dz", 1))


def run(ck):
    it = configs(ck)
    ck.bounds = {"layouts": len(it), "codes": "1..3 in both directions and 4x5 (1..5 thorough)", "coordinates": "all real origins and positive scales; all distinct points for 1..3 qubits (4 thorough)",
                 "flags": "all combinations for small layouts"}
    ck.assumptions += ["what is drawn is what is handed to the axes as artists (matplotlib's own rendering is trusted)", "qubits have distinct coordinates",
                       "patches are only judged for layouts whose data qubits around an ancilla are in convex position"]
    ck.sample(it[0])
    ck.pmap(one, it, chunk=1)
