"""C15: setups survive serialisation and never alias their source."""
import copy
import importlib
import os
import tempfile

import z3

from vk import rel, sym

c14 = importlib.import_module("c14_setup_lookup")
LEVEL = "other"
EXPLANATION = (
    "The real Setup is built from a definition whose entries, by symbolic choice, are absent, arbitrary symbolic reals, names of free "
    "parameters or booleans, with symbolic gate durations, name and description, optionally changed by set_param. It is exported and "
    "reloaded through to_dict and through a real YAML file (symbolic values travel as tokens), several times; free parameters are "
    "then given the same symbolic values. On every path the solver shows that original and reloaded setup agree on every lookup, "
    "duration and field for all values. The source dictionary and every export are compared with a snapshot, then overwritten with "
    "fresh symbols, and no lookup may change. Repeated definitions (labels chosen symbolically) are rejected exactly when equal."
)

GATES = ["X", "CZ", "M", "idle"]


def prepare_yaml():
    import yaml

    for d in (yaml.Dumper, yaml.SafeDumper, getattr(yaml, "CDumper", None), getattr(yaml, "CSafeDumper", None)):
        if d is not None:
            d.add_representer(sym.SymReal, lambda dd, v: dd.represent_float(float(v)))


def canon(x):
    """Structure for comparisons: containers by content, symbolic numbers and tokens as terms."""
    if isinstance(x, dict):
        return ("d", tuple(sorted(((str(type(k)), str(k)), canon(v)) for k, v in x.items())))
    if isinstance(x, (list, tuple)):
        return ("l", tuple(canon(v) for v in x))
    return leaf(x)


def leaf(x):
    if type(x) is sym.SymReal:
        return ("t", x.term.sexpr())
    if type(x) is float and x in sym._tokens:
        return ("t", sym._tokens[x].sexpr())
    return (type(x).__name__, repr(x))


def definition(case, value):
    d, ref = c14.entries(case, value)
    out = {"setup": d}
    if case["name"] is not None:
        out["name"] = case["name"]
        out["description"] = "text: with #, 'quotes' and\n lines"
    if case["durations"]:
        out["gate_durations"] = {g: value("dur/" + g) for g in GATES}
    return out, ref


def overwrite(x, value):
    """Destroys every entry of an exported or source dictionary in place."""
    if isinstance(x, dict):
        for k in list(x):
            if isinstance(x[k], (dict, list)):
                overwrite(x[k], value)
            else:
                x[k] = value("junk")
        x["junk_error_prob"] = value("junk")
        x["h_error_prob"] = value("junk")
    elif isinstance(x, list):
        for v in x:
            overwrite(v, value)
        x.append({"qubit": "D1", "z_error_prob": value("junk")})


def answers(s, params):
    out = {}
    for loc, qs in c14.LOCS.items():
        for p in [*params, "junk_error_prob", "h_error_prob", "z_error_prob"]:
            try:
                v = ("v", s.param(p, *qs))
            except (sym.CheckError, sym.PathAbort):
                raise
            except Exception as e:
                v = ("e", type(e).__name__)
            out[f"param({p}, {', '.join(qs)})"] = v
    for g in [*GATES, "Y"]:
        try:
            v = ("v", s.gate_duration(g))
        except (sym.CheckError, sym.PathAbort):
            raise
        except Exception as e:
            v = ("e", type(e).__name__)
        out[f"gate_duration({g})"] = v
    out["name"] = ("v", s.name)
    out["description"] = ("v", s.description)
    return out


def compare(what, a, b):
    for k in a:
        (ka, va), (kb, vb) = a[k], b[k]
        if ka != kb:
            yield f"{what}: {k} is {vb} instead of {va}", True
        elif ka == "v":
            na, nb = not isinstance(va, (str, bool, type(None))), not isinstance(vb, (str, bool, type(None)))
            if na and nb:
                ta = va.term if type(va) is sym.SymReal else sym.untoken(va)
                tb = vb.term if type(vb) is sym.SymReal else sym.untoken(vb)
                yield f"{what}: {k}", ta != tb
            elif type(va) is not type(vb) or va != vb:
                yield f"{what}: {k} is {vb!r} instead of {va!r}", True


def through(setup, how):
    from surface_sim import Setup

    if how == "dict":
        d = setup.to_dict()
        return Setup(d), d
    fd, path = tempfile.mkstemp(suffix=".yaml")
    os.close(fd)
    try:
        setup.to_yaml(path)
        return Setup.from_yaml(path), None
    finally:
        os.unlink(path)


def scenario(case, value):
    """Yields (what, True | z3 condition) for differences."""
    from surface_sim import Setup

    src, ref = definition(case, value)
    params = [case["param"], c14.second(case["param"]), c14.OTHER]
    before = canon(src)
    s = Setup(src)
    if canon(src) != before:
        yield "building the setup modified the given dictionary", True
    keep = answers(s, params)
    overwrite(src, value)
    yield from compare("after editing the source dictionary", keep, answers(s, params))
    for k, op in enumerate(case["ops"]):
        c14.apply(s, ref, op, value, k)
    t, exported = through(s, case["how"])
    if case["twice"]:
        t, _ = through(t, "dict" if case["how"] == "yaml" else "yaml")
    names = sorted(ref.names())
    for f in names:
        if list(t.free_params).count(f) != 1:
            yield f"the reloaded setup reports free parameters {t.free_params}, expected {names}", True
    if exported is not None:
        a, b = answers(s, params), answers(t, params)
        again = s.to_dict()
        snap = canon(again)
        overwrite(exported, value)
        yield from compare("after editing an export", a, answers(s, params))
        yield from compare("after editing the dictionary it was loaded from", b, answers(t, params))
        if canon(again) != snap:
            yield "two exports share data", True
    for f in names:
        v = value("free/" + f)
        s.set_var_param(f, v)
        t.set_var_param(f, v)
    yield from compare(f"reloaded through {case['how']}", answers(s, params), answers(t, params))
    a = answers(s, params)
    t.set_param("h_error_prob", value("junk"))
    t.set_param(case["param"], value("junk"), "D1")
    t.set_param(case["param"], value("junk"), "D1", "Z1")
    yield from compare("after changing the reloaded setup", a, answers(s, params))


def rejects(case):
    from surface_sim import Setup

    try:
        Setup(copy.deepcopy(case["definition"]))
    except Exception:
        return True
    return False


def replay(case):
    if "definition" in case:
        r = rejects(case)
        return None if r == case["bad"] else f"definition {case['definition']} is {'rejected' if r else 'accepted'}"
    vals = case.get("values", {})
    sym.reset_tokens()
    try:
        for what, bad in scenario(case, lambda n: vals.get(n, {"junk": 0.0625}.get(n, 0.25))):
            if bad is True or (z3.is_expr(bad) and z3.is_true(z3.simplify(bad))):
                return what
    except Exception as ex:
        if not rel.from_repo(ex):
            raise
        return f"raised {type(ex).__name__}: {ex}"
    return None


def one(ck, item):
    param, locs, kinds, names, hows, opsets = item
    ck.covers("setup.setup.Setup.__init__", "setup.setup.Setup._load_setup", "setup.setup.Setup.to_dict", "setup.setup.Setup.to_yaml",
              "setup.setup.Setup.from_yaml", "setup.setup.Setup.param", "setup.setup.Setup.gate_duration", "setup.setup.Setup.free_params")
    prepare_yaml()
    ex = sym.Explorer()
    box, pend = {}, []

    def body():
        sym.reset_tokens()
        slots = {f"{loc}/{w}": sym.choose(kinds) for loc in locs for w in "ab"}
        name, how, ops = sym.choose(names), sym.choose(hows), sym.choose(opsets)
        used = {k for k in slots.values() if k in c14.FREE}
        if any(o[0] == "set" and o[3] in c14.FREE and o[3] not in used for o in ops):
            raise sym.PathAbort
        case = dict(param=param, slots=slots, name=name, durations=name is not None or how == "yaml", how=how, twice=how != "dict" and bool(ops),
                    ops=ops)
        seen = []

        def value(n):
            if n not in seen:
                seen.append(n)
            return sym.SymReal(n)

        box.update(case=case, names=seen)
        try:
            return [(w, b) for w, b in scenario(case, value)], None
        except Exception as e:
            if not rel.from_repo(e):
                raise
            return None, e

    for res, exc in ex.run(body):
        ck.programs += 1
        case = box["case"]
        if exc is not None:
            ck.violation(case, f"valid definition raised {type(exc).__name__}: {exc}")
            continue
        sure = [w for w, b in res if b is True]
        if sure:
            m = ex.model()
            ck.violation({**case, "values": {n: float(sym.model_value(m, z3.Real(n))) for n in box["names"] if n != "junk"}}, sure[0])
            continue
        conds = [b for _, b in res]
        pend.append((z3.And(*ex.solver.assertions(), z3.Or(conds)), case, [n for n in box["names"] if n != "junk"]))
        if len(pend) >= 60:
            c14.flush(ck, pend)
    c14.flush(ck, pend)
    ck.paths += ex.paths


def repeated(ck, _):
    """Two or three entries with chosen labels: rejected exactly when two name the same qubit or the same pair."""
    opts = [("qubit", "D1"), ("qubit", "Z1"), ("qubit", 5), ("qubit", "5"), ("qubits", ["D1", "Z1"]), ("qubits", ["Z1", "D1"]), (None, None)]
    ex = sym.Explorer()

    def body():
        n = sym.choose([1, 2, 3])
        return [sym.choose(opts) for _ in range(n)]

    for es in ex.run(body):
        ck.paths += 1
        ck.programs += 1
        keys = [(k, str(v) if k == "qubit" else tuple(v)) for k, v in es if k]
        # the number of definitions per key, as an integer constraint on the chosen entries
        bad = z3.Or([z3.IntVal(keys.count(k)) > 1 for k in set(keys)] or [z3.BoolVal(False)])
        d = {"setup": [{**({k: v} if k else {}), p: 0.1} for (k, v), p in zip(es, ("h_error_prob", "x_error_prob", "h_error_prob"))]}
        case = dict(definition=d, bad=len(set(keys)) < len(keys))
        got = rejects(case)
        if ck.refute(bad != z3.BoolVal(got)) is not None:
            ck.violation(case, f"definition with entries {es} is {'rejected' if got else 'accepted'}")
    for d in ({}, {"name": "x"}, {"setup": None}, {"setup": []}):
        ck.programs += 1
        ck.obligations += 1
        if rejects({"definition": d}):
            ck.discharged += 1
        else:
            ck.violation(dict(definition=d, bad=True), f"definition {d} without setup block accepted")


def configs(ck):
    out = []
    kinds = ["absent", "real", "f"] + (["sq_error_prob"] if ck.thorough else [])
    for param in (list(c14.PARENT) + c14.ORPHANS) if ck.thorough else ["cz_error_prob", "h_error_prob", "T1", "sq_error_prob"]:
        for loc in ("D1", "pair", "riap"):
            ops = [[], [["set", param, loc, "real"]], [["set", param, "far", "real"], ["set", param, "global", "f"]]]
            out.append((param, ["global", loc], kinds, [None, "a setup"], ["dict"], ops))
            out.append((param, ["global", loc], kinds if ck.thorough or loc != "riap" else ["absent", "real"], ["null"], ["yaml"], ops))
        out.append((param, ["D1", "Z1", "pair"], ["absent", "real"], [None], ["dict", "yaml"] if ck.thorough else ["dict"], [[]]))
    return out


def run(ck):
    it = configs(ck)
    ck.bounds = {"scenario families": len(it), "entries": "global, qubits and ordered pairs, parameter and parent each", "values": "all reals",
                 "round trips": "dictionary, YAML file, both in sequence", "repeated definitions": "up to three entries over seven labels"}
    ck.assumptions.append("YAML tokens stand for arbitrary floats (PyYAML's own float formatting is trusted); qubit labels are strings or, "
                          "for single qubits, integers")
    ck.sample(it[0])
    ck.pmap(one, it, chunk=1)
    repeated(ck, None)
