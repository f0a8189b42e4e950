"""C03: layout queries, matrices and serialisation agree with the layout definition."""
import copy
import importlib
import itertools
import os
import tempfile

import numpy as np
import z3

from vk import fam, rel, sym

LEVEL = "other"
EXPLANATION = (
    "The real Layout is built from symbolic definitions: indices are absent or unbounded symbolic integers, coordinates symbolic reals, "
    "attributes symbolic values, and neighbour relations symbolic choices. On every path of the code the answers of all queries, the "
    "matrices and the results of dictionary, copy and YAML round-trips (symbolic numbers travel as tokens) are compared with the "
    "definition: the solver shows for all values that a qubit is selected exactly when its attribute equals the condition, that every "
    "ancilla stands at the rank of its coordinates, that indices are accepted exactly when distinct, and that nothing is changed or shared."
)
QS = ["D1", "Z1", "X10", "D2", "anc-7"]
DIRS = ["north_east", "south", "Up"]


# ---------------------------------------------------------------- values and their concrete counterparts
class Values:
    """Named numbers: symbolic in an exploration, from the case in a replay."""

    def __init__(self, given=None):
        self.given, self.ints, self.reals = given, set(), set()

    def int(self, name):
        self.ints.add(name)
        return sym.SymInt(name) if self.given is None else int(self.given.get(name, 3))

    def real(self, name):
        self.reals.add(name)
        return sym.SymReal(name) if self.given is None else float(self.given.get(name, 0.5))

    def read(self, m):
        out = {n: m.eval(z3.Int(n), model_completion=True).as_long() for n in self.ints}
        out.update({n: float(sym.model_value(m, z3.Real(n))) for n in self.reals})
        return out


class Choices:
    """Choices of a path, so that a replay can make them again."""

    def __init__(self, given=None):
        self.given, self.made = given, []

    def __call__(self, options):
        options = list(options)
        k = self.given[len(self.made)] if self.given is not None else sym.choose(range(len(options)))
        self.made.append(k)
        return options[k]


_ints = {}


def int_token(v):
    key = str(v)
    if key not in _ints:
        _ints[key] = (9 * 10**14 + len(_ints), v)
    return _ints[key][0]


def num(v):
    """z3 term of a number, symbolic or a token that came back from a file."""
    if type(v) in (sym.SymReal, sym.SymInt):
        return v.term
    if type(v) is float and v in sym._tokens:
        return sym._tokens[v]
    if type(v) is int and v >= 9 * 10**14:
        for t, s in _ints.values():
            if t == v:
                return s.term
    if isinstance(v, (bool, np.bool_)) or not isinstance(v, (int, float, np.integer, np.floating)):
        return None
    return sym.toterm(v)


def prepare_yaml():
    import yaml

    for d in (yaml.Dumper, yaml.SafeDumper, getattr(yaml, "CDumper", None), getattr(yaml, "CSafeDumper", None)):
        if d is not None:
            d.add_representer(sym.SymReal, lambda dd, v: dd.represent_float(float(v)))
            d.add_representer(sym.SymInt, lambda dd, v: dd.represent_int(int_token(v)))


def differ(a, b, where):
    """Yields (what, condition) for differences between two structures."""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            yield f"{where}: keys {sorted(map(str, b))} instead of {sorted(map(str, a))}", True
            return
        for k in a:
            yield from differ(a[k], b[k], f"{where}[{k}]")
        return
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            yield f"{where}: length {len(b)} instead of {len(a)}", True
            return
        for k, (x, y) in enumerate(zip(a, b)):
            yield from differ(x, y, f"{where}[{k}]")
        return
    s, t = num(a), num(b)
    if s is not None and t is not None:
        yield where, s != t
    elif type(a) is not type(b) or a != b:
        yield f"{where}: {b!r} instead of {a!r}", True


# ---------------------------------------------------------------- the definition's own answers
def relation(d):
    """[(from, direction, to)] of a definition."""
    return [(q["qubit"], k, n) for q in d["layout"] for k, n in q["neighbors"].items() if n is not None]


def index_of(d):
    inds = {q["qubit"]: q.get("ind") for q in d["layout"]}
    if all(v is None for v in inds.values()):
        inds = {q: k for k, q in enumerate(inds)}
    return inds


def queries(lay, d, order=True):
    """Differences between the answers of the layout and its definition."""
    qs = [q["qubit"] for q in d["layout"]]
    edges = relation(d)
    if sorted(lay.get_qubits()) != sorted(qs):
        yield f"get_qubits gives {lay.get_qubits()}", True
        return
    if lay.get_qubits() != qs:
        yield f"the order of the qubits is {lay.get_qubits()} instead of that of the definition", True
    want = index_of(d)
    yield from differ(want, lay.qubit_inds(), "qubit_inds")
    yield from differ([want[q] for q in qs[::-1]], lay.get_inds(qs[::-1]), "get_inds")
    if order:  # (the numbers that stand for symbolic integers in a file are not ordered)
        lo, hi = num(lay.get_min_ind()), num(lay.get_max_ind())
        ts = [num(v) for v in want.values()]
        yield "get_min_ind", z3.Or(z3.And([lo != t for t in ts]), *[t < lo for t in ts])
        yield "get_max_ind", z3.Or(z3.And([hi != t for t in ts]), *[t > hi for t in ts])
    for q in d["layout"]:
        for k, v in q.items():
            if k not in ("qubit", "neighbors"):
                yield from differ(v, lay.param(k, q["qubit"]), f"param({k}, {q['qubit']})")
        if lay.param("no such attribute", q["qubit"]) is not None:
            yield "param of an undefined attribute is not None", True
        nb = {k: n for k, n in (lay.param("neighbors", q["qubit"]) or {}).items() if n is not None}
        if nb != {k: n for k, n in q["neighbors"].items() if n is not None}:
            yield f"param(neighbors, {q['qubit']}) is {nb}", True
    dirs = sorted({k for _, k, _ in edges} | {"nowhere"})
    for sub in [[q] for q in qs] + [qs, qs[::-1], qs[1:], []]:
        for k in [None, *dirs]:
            w = sorted((a, b) for a, e, b in edges if a in sub and k in (None, e))
            got = lay.get_neighbors(sub, direction=k, as_pairs=True)
            if sorted(map(tuple, got)) != w:
                yield f"get_neighbors({sub}, {k}, as_pairs) gives {got} instead of {w}", True
            flat = lay.get_neighbors(sub, direction=k)
            if list(flat) != [b for _, b in got]:
                yield f"get_neighbors({sub}, {k}) gives {flat}, but as pairs {got}", True
    adj = lay.adjacency_matrix()
    for a in qs:
        for b in qs:
            v = adj.sel(from_qubit=a, to_qubit=b).values
            if v != ((a, b) in {(x, y) for x, _, y in edges}):
                yield f"adjacency matrix from {a} to {b} is {v}", True
    co = {q["qubit"]: q["coords"] for q in d["layout"] if "coords" in q}
    yield from differ(co, lay.qubit_coords(), "qubit_coords")
    if len(co) == len(qs):
        yield from differ([co[q] for q in qs[::-1]], lay.get_coords(qs[::-1]), "get_coords")
        if all("role" in q for q in d["layout"]):
            yield from differ({q["qubit"]: co[q["qubit"]] for q in d["layout"] if q["role"] == "anc"}, lay.anc_coords(), "anc_coords")
    else:
        try:
            lay.get_coords(qs)
            yield "coordinates are returned for a qubit without any", True
        except (sym.CheckError, sym.PathAbort):
            raise
        except Exception:
            pass
    if all("role" in q and "stab_type" in q for q in d["layout"]):
        for st in ("x_type", "z_type"):
            D = [q["qubit"] for q in d["layout"] if q["role"] == "data"]
            A = [q["qubit"] for q in d["layout"] if q["role"] == "anc" and q["stab_type"] == st]
            p = lay.projection_matrix(st)
            if sorted(map(str, p.data_qubit.values)) != sorted(D) or sorted(map(str, p.anc_qubit.values)) != sorted(A):
                yield f"projection matrix of {st} is for {p.data_qubit.values}, {p.anc_qubit.values}", True
                continue
            for a in D:
                for b in A:
                    v = p.sel(data_qubit=a, anc_qubit=b).values
                    if v != ((a, b) in {(x, y) for x, _, y in edges}):
                        yield f"projection matrix of {st} from {a} to {b} is {v}", True
    labels = d.get("logical_qubit_labels", [])
    if list(lay.get_logical_qubits()) != list(labels):
        yield f"get_logical_qubits gives {lay.get_logical_qubits()}", True
    for k, dflt in (("name", ""), ("code", ""), ("description", None), ("log_x", {}), ("log_z", {}), ("interaction_order", {}), ("distance", -1),
                    ("distance_x", -1), ("distance_z", -1)):
        yield from differ(d.get(k, dflt), getattr(lay, k), k)


# ---------------------------------------------------------------- scenarios: yield (what, True | condition)
def base(n=4):
    """A small valid definition."""
    r = [dict(qubit="D1", role="data", stab_type=None), dict(qubit="Z1", role="anc", stab_type="z_type"), dict(qubit="X10", role="anc", stab_type="x_type"),
         dict(qubit="D2", role="data", stab_type=None), dict(qubit="anc-7", role="anc", stab_type="z_type")][:n]
    for q in r:
        q["neighbors"] = {}

    def link(a, k, b, back):
        a, b = (next((q for q in r if q["qubit"] == x), None) for x in (a, b))
        if a and b:
            a["neighbors"][k], b["neighbors"][back] = b["qubit"], a["qubit"]

    link("D1", "north_east", "Z1", "south_west")
    link("D1", "south", "X10", "north")
    link("D2", "north", "X10", "south")
    link("D2", "south_west", "anc-7", "north_east")
    for q in r:
        q["neighbors"].setdefault("north_west", None)
    return dict(name="a name", code="some_code", description="text: with #, 'quotes' and\n lines", logical_qubit_labels=["L0"], log_x={"L0": ["D1"]},
                log_z={"L0": ["D1", "D2"][:max(1, n - 2)]}, interaction_order={"x_type": ["north", "south"], "z_type": [["a"], ["b"]]}, distance_x=1, distance_z=2, layout=r)


def inds(case, V, choice):
    from surface_sim import Layout

    d = base(case["n"])
    ok, terms = True, []
    for k, q in enumerate(d["layout"]):
        how = choice(["value", "none", "absent"])
        if how == "value":
            q["ind"] = V.int(f"i{k}")
            terms.append(num(q["ind"]))
        elif how == "none":
            q["ind"] = None
    valid = z3.BoolVal(len(terms) in (0, len(d["layout"])))
    if len(terms) > 1:
        valid = z3.And(valid, z3.Distinct(*terms))
    try:
        lay = Layout(d)
    except (sym.CheckError, sym.PathAbort):
        raise
    except Exception as e:
        yield f"valid indices are refused: {type(e).__name__}: {e}", valid
        return
    yield "repeated or partly missing indices are accepted", z3.Not(valid)
    if len(terms) in (0, len(d["layout"])):
        yield from queries(lay, d)
        yield from queries(through(lay, case["how"]), d, order="yaml" not in case["how"])


def structure(case, V, choice):
    from surface_sim import Layout

    d = base(case["n"])
    qs = [q["qubit"] for q in d["layout"]]
    for q in d["layout"]:
        q["neighbors"] = {}
        for k in DIRS[:case["dirs"]]:
            n = choice([None, "absent", *[x for x in qs if x != q["qubit"] and x not in q["neighbors"].values()]])
            if n != "absent":
                q["neighbors"][k] = n
        q["ind"] = V.int("first") + 3 * qs.index(q["qubit"])
        q["coords"] = [V.real("x" + q["qubit"]), V.real("y" + q["qubit"])]
    lay = Layout(d)
    yield from queries(lay, d)
    yield from queries(through(lay, case["how"]), d, order="yaml" not in case["how"])


def select(case, V, choice):
    """Selection by attributes with symbolic values."""
    from surface_sim import Layout

    d = base(case["n"])
    for k, q in enumerate(d["layout"]):
        q["role"] = choice(["data", "anc"])
        how = choice(["value", "none"])
        q["w"] = V.int(f"w{k}") if how == "value" else None
        q["u"] = V.real(f"u{k}")
        q["t"] = choice(["a", "b"]) if k < 2 else "a"
    lay = Layout(d)
    w, u = V.int("w"), V.real("u")
    for conds in (dict(w=w), dict(u=u), dict(role="anc", w=w), dict(u=u, t="b"), dict(w=w, u=u), dict(role="data", t="a"), dict(t="c")):
        got = lay.get_qubits(**conds)
        order = [q for q in lay.get_qubits() if q in got]
        if got != order:
            yield f"get_qubits({list(conds)}) gives {got}, not in the order of the layout", True
        for q in d["layout"]:
            hold = z3.BoolVal(True)
            for k, v in conds.items():
                a, b = num(q[k]), num(v)
                hold = z3.And(hold, a == b if a is not None and b is not None else z3.BoolVal(q[k] == v))
            sel = q["qubit"] in got
            yield f"get_qubits({list(conds)}) {'contains' if sel else 'lacks'} {q['qubit']}", z3.Not(hold) if sel else hold


def expansion(case, V, choice):
    """Grid positions are the ranks of the coordinates (rows from the largest first coordinate down)."""
    from surface_sim import Layout

    names = ["Z1", "X2", "Z10", "X1"][:case["n"]]
    d = dict(layout=[])
    mk = V.real if case["type"] == "real" else V.int
    for k, q in enumerate(names):
        d["layout"].append(dict(qubit=f"D{k}", role="data", neighbors={}, coords=[V.real(f"dx{k}"), 2]))
        c = [mk(f"x{k}") if case["sym"] != "col" else k * 7 % 3 - 1, mk(f"y{k}") if case["sym"] != "row" else (k * 5 % 3 - 1) / 4]
        d["layout"].append(dict(qubit=q, role="anc", neighbors={}, coords=c))
    lay = Layout(d)
    m = lay.expansion_matrix()
    if m.dims != ("anc_qubit", "channel", "row", "col") or [str(x) for x in m.anc_qubit.values] != names or m.shape[1] != 1:
        yield f"expansion matrix has dimensions {m.dims} and ancillas {m.anc_qubit.values}", True
        return
    pos = {}
    for q in names:
        at = np.argwhere(m.sel(anc_qubit=q).values)
        if len(at) != 1:
            yield f"{q} stands at {len(at)} places of the grid", True
            return
        pos[q] = tuple(int(x) for x in at[0][1:])
    co = {q["qubit"]: [num(c) for c in q["coords"]] for q in d["layout"]}
    for axis, size, sign in ((0, m.shape[2], -1), (1, m.shape[3], 1)):
        used = {pos[q][axis] for q in names}
        if used != set(range(size)):
            yield f"axis {axis} has {size} places, of which {sorted(used)} are used", True
        for a, b in itertools.combinations(names, 2):
            x, y = co[a][axis], co[b][axis]
            s = (pos[a][axis] > pos[b][axis]) - (pos[a][axis] < pos[b][axis])
            hold = x == y if s == 0 else (x > y if s * sign > 0 else x < y)
            yield f"{a} and {b} are at {pos[a]} and {pos[b]} of the grid, not in the order of coordinate {axis}", z3.Not(hold)


def through(lay, how):
    from surface_sim import Layout

    for h in how.split("+"):
        if h == "dict":
            lay = Layout(lay.to_dict())
        elif h == "copy":
            lay = copy.copy(lay)
        elif h == "yaml":
            fd, path = tempfile.mkstemp(suffix=".yaml")
            os.close(fd)
            try:
                lay.to_yaml(path)
                lay = Layout.from_yaml(path)
            finally:
                os.unlink(path)
    return lay


def overwrite(x):
    """Destroys every entry of a dictionary in place."""
    if isinstance(x, dict):
        for k in list(x):
            if isinstance(x[k], (dict, list)):
                overwrite(x[k])
            else:
                x[k] = "junk"
        x["junk"] = "junk"
    elif isinstance(x, list):
        for k, v in enumerate(x):
            if isinstance(v, (dict, list)):
                overwrite(v)
            else:
                x[k] = "junk"
        x.append("junk")


def snapshot(x):
    if isinstance(x, dict):
        return {k: snapshot(v) for k, v in x.items()}
    if isinstance(x, list):
        return [snapshot(v) for v in x]
    return x


def trips(case, V, choice):
    """Round trips, changes and aliasing."""
    from surface_sim import Layout

    if case.get("fam"):
        a = fam.code(*case["fam"], init_point=(1.5, -2) if case["gate"] else (V.real("px"), V.real("py")), init_ind=V.int("first"), init_data_qubit_id=4)
        if case.get("gate"):
            g = importlib.import_module(f"surface_sim.log_gates.{case['fam'][0]}_surface_code_css")
            other = fam.second(*case["fam"], first=a)
            {"s": lambda: g.set_trans_s(a, fam.data(a)[0]), "h": lambda: g.set_trans_h(a, fam.data(a)[0]), "cnot": lambda: g.set_trans_cnot(a, other)}[case["gate"]]()
        d = snapshot(a.to_dict())
    else:
        d = base(5)
        for k, q in enumerate(d["layout"]):
            q["coords"] = [V.real(f"x{k}"), V.int(f"y{k}")]
            q["ind"] = V.int("first") - 2 * k * k
            q["extra"] = {"cz": "D2", "list": [1, "a", None, V.real(f"e{k}")], "none": None}
            q["flag"] = k % 2 == 0
        if choice([True, False]):
            d["layout"][1].pop("coords")
        if choice([True, False]):
            for k in ("name", "code", "description", "logical_qubit_labels", "log_x", "log_z", "interaction_order", "distance_x", "distance_z"):
                d.pop(k)
    src = snapshot(d)
    lay = Layout(src)
    for w, c in differ(d, src, "the given definition after building the layout"):
        yield w, c
    overwrite(src)
    yield from tag("after editing the given definition", queries(lay, d))
    new = V.real("new")
    if case["set"]:
        q = d["layout"][2]
        lay.set_param("custom", q["qubit"], {"deep": [new, "x"]})
        q["custom"] = {"deep": [new, "x"]}
        lay.set_param("stab_type", q["qubit"], "y_type")
        q["stab_type"] = "y_type"
        yield from tag("after set_param", queries(lay, d))
    t = through(lay, case["how"])
    yield from tag(f"after {case['how']}", queries(t, d, order="yaml" not in case["how"]))
    yield from tag(f"original after {case['how']}", queries(lay, d))
    # nothing shared
    e = lay.to_dict()
    e2 = snapshot(lay.to_dict())
    overwrite(e)
    yield from tag("after editing an exported dictionary", queries(lay, d))
    yield from tag("second export", differ(e2, lay.to_dict(), "to_dict"))
    e3 = snapshot(e2)
    u = Layout(e3)
    overwrite(e3)
    yield from tag("after editing the dictionary it was loaded from", queries(u, d))
    c = copy.copy(lay)
    for q in c.get_qubits():
        c.set_param("role", q, "junk")
        v = c.param("extra", q)
        if isinstance(v, dict):
            overwrite(v)
    for k in ("log_x", "log_z", "interaction_order"):
        overwrite(getattr(c, k))
    c.get_logical_qubits().append("junk")
    yield from tag("after editing a copy", queries(lay, d))
    lay.get_logical_qubits().append("junk")
    lay.qubit_inds()["junk"] = 0
    lay.get_qubits().append("junk")
    lay.qubit_coords().clear()
    lay.adjacency_matrix()[:] = 5
    yield from tag("after editing returned lists", queries(lay, d))


def tag(where, it):
    for w, c in it:
        yield f"{where}: {w}", c


BAD = ("unlabelled", "label None", "repeated label", "no neighbors", "neighbors None", "unknown neighbor", "no layout", "layout None", "log_x label",
       "log_z label", "log label missing", "extra log label", "not a dict", "list", "none", "str")


def malformed(case, V, choice):
    from surface_sim import Layout

    d = base(4)
    at = choice(range(4))
    how = choice(BAD)
    q = d["layout"][at]
    if how == "unlabelled":
        q.pop("qubit")
    elif how == "label None":
        q["qubit"] = None
    elif how == "repeated label":
        q["qubit"] = d["layout"][(at + choice([1, 2, 3])) % 4]["qubit"]
    elif how == "no neighbors":
        q.pop("neighbors")
    elif how == "neighbors None":
        q["neighbors"] = None
    elif how == "unknown neighbor":
        q["neighbors"]["west"] = "D9"
    elif how == "no layout":
        d.pop("layout")
    elif how == "layout None":
        d["layout"] = None
    elif how in ("log_x label", "log_z label"):
        d[how[:5]] = {"L1": ["D1"]}
    elif how == "log label missing":
        d["logical_qubit_labels"] = []
    elif how == "extra log label":
        d["logical_qubit_labels"] = ["L0", "L1"]
    else:
        d = {"not a dict": [("layout", [])], "list": [d], "none": None, "str": "layout"}[how]
    try:
        Layout(d)
    except (sym.CheckError, sym.PathAbort):
        raise
    except Exception:
        return
    yield f"malformed definition accepted: {how}", True


def grid(case, V, choice):
    """set_coords on connected pieces of a grid gives coordinates that match the directions."""
    from surface_sim import Layout
    from surface_sim.layouts import set_coords

    cells = {}
    step = {"diag": {"north_east": (1, 1), "north_west": (1, -1), "south_east": (-1, 1), "south_west": (-1, -1)},
            "straight": {"north": (1, 0), "south": (-1, 0), "east": (0, 1), "west": (0, -1)}}[case["dirs"]]
    inside = [(r, c) for r in range(3) for c in range(case["cols"]) if case["dirs"] == "straight" or (r + c) % 2 == 0]
    for k, rc in enumerate(inside):
        if choice([True, False]):
            cells[rc] = f"q{(k * 5) % 11}"
    if not cells:
        return
    # connected only
    todo, seen = [min(cells)], {min(cells)}
    while todo:
        r, c = todo.pop()
        for a, b in step.values():
            n = (r + a, c + b)
            if n in cells and n not in seen:
                seen.add(n)
                todo.append(n)
    if len(seen) < len(cells):
        return
    d = dict(layout=[dict(qubit=q, role="data", neighbors={k: cells.get((r + a, c + b)) for k, (a, b) in step.items()}) for (r, c), q in cells.items()])
    if case["old"]:
        for k, q in enumerate(d["layout"]):
            q["coords"] = [V.real(f"x{k}"), V.real(f"y{k}")]
    lay = Layout(d)
    if case["old"]:
        try:
            set_coords(lay)
            yield "existing coordinates are replaced without 'override'", True
        except ValueError:
            yield from differ({q["qubit"]: q["coords"] for q in d["layout"]}, lay.qubit_coords(), "coordinates after the refusal")
    set_coords(lay, override=True) if case["old"] else set_coords(lay)
    got = lay.qubit_coords()
    if set(got) != set(cells.values()) or any(len(v) != 2 for v in got.values()):
        yield f"set_coords gives {got}", True
        return
    dirs = {}
    for (r, c), q in cells.items():
        for k, (a, b) in step.items():
            n = cells.get((r + a, c + b))
            if n:
                v = tuple(num(y) - num(x) for x, y in zip(got[q], got[n]))
                dirs.setdefault(k, []).append(v)
    for k, vs in dirs.items():
        for v in vs[1:]:
            yield f"set_coords: neighbours in direction {k} are at different offsets", z3.Or(v[0] != vs[0][0], v[1] != vs[0][1])
    xs = [tuple(num(x) for x in v) for v in got.values()]
    for a, b in itertools.combinations(xs, 2):
        yield "set_coords gives the same coordinates to two qubits", z3.And(a[0] == b[0], a[1] == b[1])
    opp = {"north": "south", "east": "west", "north_east": "south_west", "north_west": "south_east"}
    for k, o in opp.items():
        if k in dirs and o in dirs:
            v, w = dirs[k][0], dirs[o][0]
            yield f"set_coords: {k} and {o} are not opposite", z3.Or(v[0] + w[0] != 0, v[1] + w[1] != 0)


def chain(case, V, choice):
    """index_chain numbers a chain from one of its ends."""
    from surface_sim import Layout
    from surface_sim.layouts.util import index_chain

    n = case["n"]
    rest, order = list(range(n)), []
    while rest:
        order.append(rest.pop(rest.index(choice(rest))))
    names = [f"q{k}" for k in order]  # names along the chain; the definition lists q0, q1, ...
    nb = {q: {} for q in names}
    for a, b in zip(names, names[1:]):
        nb[a]["east"], nb[b]["west"] = b, a
    lay = Layout(dict(layout=[dict(qubit=q, neighbors=nb[q], note=V.real("note")) for q in sorted(names)]))
    index_chain(lay, names[0])
    yield from differ(list(range(n)), [lay.param("chain_ind", q) for q in names], f"chain_ind along {names}")
    try:
        index_chain(lay, "q99")
        yield "index_chain accepts an unknown first qubit", True
    except ValueError:
        pass


KINDS = dict(inds=inds, structure=structure, select=select, expansion=expansion, trips=trips, malformed=malformed, grid=grid, chain=chain)


def replay(case):
    prepare_yaml()
    sym.reset_tokens()
    _ints.clear()
    try:
        for what, bad in KINDS[case["kind"]](case, Values(case["values"]), Choices(case["choices"])):
            if bad is True or (z3.is_expr(bad) and z3.is_true(z3.simplify(bad))):
                return what
    except Exception as ex:
        if not rel.from_repo(ex):
            raise
        return f"raised {type(ex).__name__}: {ex}"
    return None


def one(ck, case):
    ck.covers("layouts.layout.*", "layouts.util.*")
    prepare_yaml()
    ex = sym.Explorer()
    box = {}

    def body():
        sym.reset_tokens()
        _ints.clear()
        box["V"], box["C"] = Values(), Choices()
        try:
            return list(KINDS[case["kind"]](case, box["V"], box["C"]))
        except (sym.CheckError, sym.PathAbort):
            raise
        except Exception as e:
            if not rel.from_repo(e):
                raise
            return [(f"valid use raised {type(e).__name__}: {e}", True)]

    for cl in ex.run(body):
        ck.paths += 1
        ck.programs += 1
        if not cl:
            continue
        ck.obligations += 1
        m = ex.model(z3.Or([z3.BoolVal(True) if c is True else c for _, c in cl]))
        if m is None:
            ck.discharged += 1
            continue
        bad = z3.Or([z3.BoolVal(True) if c is True else c for _, c in cl])
        names = sorted(box["V"].reals)
        n0 = len(ck.violations)
        for extra in ([], [z3.Real(n) < -1 for n in names], [z3.Real(n) * 4 == z3.ToReal(z3.ToInt(z3.Real(n) * 4)) for n in names] + [z3.Real(n) > 20 for n in names]):
            m = ex.model(bad, *extra)
            if m is not None and len(ck.violations) == n0:
                w = next(w for w, c in cl if c is True or z3.is_true(m.eval(c, model_completion=True)))
                ck.violation(dict(case, values=box["V"].read(m), choices=box["C"].made), w)
        if len(ck.violations) >= 2:
            return


def configs(ck):
    th = ck.thorough
    out = []
    hows = ["dict", "copy", "yaml", "yaml+dict", "dict+yaml+copy"]
    for n in (1, 2, 3) + ((4,) if th else ()):
        out += [dict(kind="inds", n=n, how=h) for h in hows]
    out += [dict(kind="structure", n=n, dirs=k, how=h) for n, k in ((2, 2), (3, 1), (2, 3)) + (((3, 2), (4, 1)) if th else ()) for h in hows]
    if not th:
        out += [dict(kind="structure", n=3, dirs=2, how="copy"), dict(kind="structure", n=4, dirs=1, how="dict")]
    out += [dict(kind="select", n=n) for n in (2, 3) + ((4,) if th else ())]
    for t in ("real", "int"):
        for n in (1, 2, 3):
            out.append(dict(kind="expansion", n=n, sym="both" if n < 3 or th else "row", type=t))
        out += [dict(kind="expansion", n=n, sym=s, type=t) for n in (3, 4) for s in ("row", "col")]
    for how in hows:
        for st in (False, True):
            out.append(dict(kind="trips", how=how, set=st))
            for f, g in ((("rot", 2, 2), None), (("rot", 2, 3), "s"), (("unrot", 2, 2), "h"), (("unrot", 2, 2), "cnot"), (("rot", 3, 2), "cnot"), (("unrot", 3, 2), None),
                         (("unrot", 2, 2), "s")):
                out.append(dict(kind="trips", how=how, set=st, fam=f, gate=g))
    out.append(dict(kind="malformed"))
    for dirs in ("diag", "straight"):
        for old in (False, True):
            out.append(dict(kind="grid", dirs=dirs, old=old, cols=(5 if th else 4) if dirs == "diag" else 3 if th else 2))
    out += [dict(kind="chain", n=n) for n in (2, 3, 4) + ((5,) if th else ())]
    return out


def run(ck):
    it = configs(ck)
    ck.bounds = {"definitions": len(it), "qubits": "1..4 with free structure (all relations over two directions), generated codes up to 3x2", "values": "all integers and reals",
                 "expansion": "3 ancillas with both coordinates free (thorough), 4 with one free", "set_coords": "all connected pieces of small grids"}
    ck.assumptions += ["a qubit lists each neighbour in one direction only", "missing or None attributes are never asked for in selections",
                       "labels named in logical operators are not validated (not stated by the documentation)"]
    ck.sample(it[0])
    ck.pmap(one, it, chunk=1)
