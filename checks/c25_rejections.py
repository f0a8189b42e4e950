"""C25: invalid experiment requests are rejected instead of silently mis-built."""
import importlib

import numpy as np
import z3

from vk import fam, params, rel, sym
from vk.fam import FAMS

LEVEL = "other"
EXPLANATION = (
    "The real experiments, circuit blocks and model operations run on symbolic requests: every count an unbounded symbolic integer or "
    "real, every ancilla request a symbolic subset of valid, foreign, data and unknown labels, qubit lists of symbolic length, code "
    "names, types and options chosen symbolically. Each path of the code ends in a circuit or an exception; the solver shows that on no "
    "path with a circuit the request can be invalid, and on no path with an exception it can be valid."
)
MOD = {"rot": "rot_surface_code_css", "rotp": "rot_surface_code_css_pipelined", "unrot": "unrot_surface_code_css"}
BAD_LAYOUT = ("none", "str", "dict", "list", "class", "inds")
BAD_INIT = ("none", "list", "tuple", "str", "int", "set")
BAD_COUNT = ("none", "str", "list", "float", "npfloat", "complex")
CODES = {"rot": "rotated_surface_code", "unrot": "unrotated_surface_code"}
_cache = {}


def lays(kind, gate):
    key = (kind, gate)
    if key not in _cache:
        dx, dz = (2, 3) if kind == "rot" and gate == "s" else (2, 2)
        a = fam.code(kind, dx, dz)
        out = [a, fam.second(kind, dx, dz, first=a)]
        g = importlib.import_module(f"surface_sim.log_gates.{kind}_surface_code_css")
        if gate == "s":
            g.set_trans_s(a, fam.data(a)[0])
        elif gate == "h":
            g.set_trans_h(a, fam.data(a)[0])
        elif gate == "cnot":
            g.set_trans_cnot(*out)
            g.set_trans_cnot(*out[::-1])
        _cache[key] = out
    return _cache[key]


def third(kind):
    """A block that the tracker knows and that takes no part in the request."""
    key = (kind, "third")
    if key not in _cache:
        n = sum(len(l.get_qubits()) for l in lays(kind, "none"))
        _cache[key] = fam.code(kind, 2, 2, logical_qubit_label="L2", init_point=(300, 700), init_data_qubit_id=2000, init_zanc_qubit_id=2000,
                               init_xanc_qubit_id=2000, init_ind=n)
    return _cache[key]


def bad_layout(how, l):
    from surface_sim import Layout

    return {"none": None, "str": "layout", "dict": l.to_dict(), "list": [l], "class": Layout, "inds": l.qubit_inds()}[how]


def bad_init(how, D):
    return {"none": None, "list": [0] * len(D), "tuple": (0,) * len(D), "str": "0" * len(D), "int": 0, "set": set(D)}[how]


def bad_count(how, n):
    return {"none": None, "str": "1", "list": [1], "float": 1.0, "npfloat": np.float64(2), "complex": 1 + 0j}[how]


def kind_of(fm):
    return FAMS[fm].kind if fm in FAMS else ("unrot" if fm == "unrot" else "rot")


# ---------------------------------------------------------------- requests: run(case) builds; valid(case) is the oracle
def experiment(case):
    kind = kind_of(case["fam"])
    ls = lays(kind, case["what"])
    if case.get("unprepared"):
        ls = lays(kind, "none")
    both = case["what"] == "cnot"
    mine = ls if both else ls[:1]
    D = [q for l in mine for q in fam.data(l)]
    init = {q: 0 for q in D}
    a = {"layout": mine[0], "layout_t": mine[-1]}
    bad = case.get("bad") or {}
    if "layout" in bad:
        a["layout"] = bad_layout(bad["layout"], mine[0])
    if "layout_t" in bad:
        a["layout_t"] = bad_layout(bad["layout_t"], mine[-1])
    if "init" in bad:
        init = bad_init(bad["init"], D)
    n, r = case["n"], case["rounds"]
    if "n" in bad:
        n = bad_count(bad["n"], n)
    if "rounds" in bad:
        r = bad_count(bad["rounds"], r)
    keep = [l.code for l in mine]
    inds = {q: i for l in ls for q, i in l.qubit_inds().items()}
    m, d = fam.model_for(*ls), fam.detectors_for(*ls, frame=case["frame"])
    kw = dict(model=m, detectors=d, data_init=init, rot_basis=case["rot"], anc_detectors=case.get("ancs"), gauge_detectors=case["gauge"])
    if case.get("as"):
        kw["anc_detectors"] = {"tuple": tuple, "set": set, "list": list}[case["as"]](case["ancs"])
    if "code" in bad:
        mine[0].code = bad["code"]
    try:
        if case["what"] == "memory":
            f = FAMS[case["fam"]]
            if not f.google:
                kw["anc_reset"] = case["reset"]
            return f.exps.memory_experiment(layout=a["layout"], num_rounds=r, **kw)
        e = importlib.import_module("surface_sim.experiments." + MOD[case["fam"]])
        kw.update(num_rounds_per_gate=r, anc_reset=case["reset"])
        if both:
            kw.update(layout_c=a["layout"], layout_t=a["layout_t"], num_cnot_gates=n, cnot_orientation=case.get("ori", "alternating"))
        else:
            kw["layout"] = a["layout"]
            kw[f"num_{case['what']}_gates"] = n
        return getattr(e, f"repeated_{case['what']}_experiment")(**kw)
    finally:
        for l, c in zip(mine, keep):
            l.code = c


def experiment_valid(case):
    """z3 condition."""
    if case.get("bad") or case.get("unprepared"):
        code = (case.get("bad") or {}).get("code")
        if set(case.get("bad") or {}) != {"code"} or code != CODES[kind_of(case["fam"])]:
            return z3.BoolVal(False)
    out = []
    for k in ("n", "rounds"):
        v = case[k]
        out.append(z3.BoolVal(isinstance(v, int)))
        t = v.iterm if type(v) is sym.SymInt else z3.IntVal(int(v)) if isinstance(v, int) else None
        if t is None:
            continue
        least = 1 if k == "rounds" and case["fam"] in FAMS and FAMS[case["fam"]].google else 0
        if k == "rounds" or case["what"] != "memory":
            out.append(t >= least)
        if k == "n" and case["what"] == "s":
            out.append(t % 2 == 0)
    ls = lays(kind_of(case["fam"]), case["what"])
    mine = ls if case["what"] == "cnot" else ls[:1]
    if case.get("ancs") is not None:
        out.append(z3.BoolVal(set(case["ancs"]) <= {a for l in mine for a in fam.ancs(l)}))
    if case.get("ori", "constant") not in ("constant", "alternating"):
        out.append(z3.BoolVal(False))
    return z3.And(out)


def block(case):
    kind = kind_of(case["fam"])
    f = FAMS[case["fam"]]
    ls = lays(kind, case["gate"])
    b, u = f.blocks, importlib.import_module("surface_sim.circuit_blocks.util")
    known = [*ls, third(f.kind)] if case["op"] in ("rounds", "meass") else ls
    m, d = fam.model_for(*known), fam.detectors_for(*known)
    if case["op"] != "init":
        d.activate_detectors([a for l in (ls if case["op"] in ("rounds", "meass", "cnot") else ls[:1]) for a in fam.ancs(l)])
    x = "_xzzx" if f.frame == "xzzx" else ""
    ancs = case.get("ancs")
    if case.get("as") and ancs is not None:
        ancs = {"tuple": tuple, "set": set, "list": list}[case["as"]](ancs)
    keep = [l.code for l in ls]
    l = ls[0]
    if case.get("code") is not None:
        ls[case.get("on", 0)].code = case["code"]
    try:
        op, reset, rot = case["op"], case["reset"], case["rot"]
        if op == "round":
            return f.round(m, l, d, reset, ancs)
        if op == "round_meas":
            return b.qec_round_with_log_meas(m, l, d, ancs, rot)
        if op == "meas":
            return getattr(u, "log_meas" + x)(m, l, d, rot, reset, ancs)
        if op == "init":
            return getattr(u, "init_qubits" + x)(m, l, d, {q: 1 for q in fam.data(l)}, rot)
        if op in ("log_x", "log_z"):
            return getattr(u, op + x)(m, l, d)
        if op in ("s", "h"):
            return getattr(u, "log_trans_" + op)(m, l, d)
        if op == "cnot":
            return u.log_trans_cnot(m, ls[0], ls[1], d)
        if op == "rounds":
            from surface_sim.util import merge_qec_rounds

            return merge_qec_rounds(b.qec_round_iterator, m, ls, d, anc_reset=reset, anc_detectors=ancs)
        if op == "meass":
            from surface_sim.util import merge_log_meas

            return merge_log_meas(getattr(u, f"log_meas{x}_iterator"), m, ls, d, rot_bases=[rot, not rot][:case.get("bases", 2)] if case.get("bases", 2) < 3
                                  else [rot] * 3, anc_reset=reset, anc_detectors=ancs)
        raise KeyError(op)
    finally:
        for y, c in zip(ls, keep):
            y.code = c


def block_valid(case):
    f = FAMS[case["fam"]]
    ls = lays(f.kind, case["gate"])
    ok = True
    code = case.get("code")
    if code is not None:
        if case["op"] in ("round", "round_meas", "rounds") or f.frame == "xzzx":
            ok = code == CODES[f.kind]
        elif case["op"] == "h":
            ok = code == CODES["unrot"]
        elif case["op"] in ("s", "cnot"):
            ok = code in CODES.values()
        else:
            return None  # blocks that support every code
    if case.get("ancs") is not None:
        mine = ls if case["op"] in ("rounds", "meass") else ls[:1]
        ok = ok and set(case["ancs"]) <= {a for l in mine for a in fam.ancs(l)}
    if case["op"] in ("s", "h", "cnot") and case["gate"] != case["op"]:
        ok = False
    if case["op"] == "meass" and case.get("bases", 2) != 2:
        ok = False
    return z3.BoolVal(ok)


def operation(case):
    inds = {"D1": 3, "Z2": 0, "X10": 7, "D12": 5, "D3": 9}
    src = params.Source(False)
    return getattr(params.model(case["model"], src, inds), case["op"])(list(inds)[:case["len"]])


def operation_valid(case):
    return z3.BoolVal(case["len"] % 2 == 0)


KINDS = {"experiment": (experiment, experiment_valid), "block": (block, block_valid), "operation": (operation, operation_valid)}


def outcome(case):
    try:
        KINDS[case["kind"]][0](case)
    except (sym.CheckError, sym.PathAbort):
        raise
    except Exception as e:
        return f"{type(e).__name__}: {e}"
    return None


def replay(case):
    err = outcome(case)
    ok = KINDS[case["kind"]][1](case)
    if ok is None:
        return None
    ok = z3.is_true(z3.simplify(ok))
    if ok and err:
        return f"valid request rejected: {err}"
    if not ok and not err:
        return "invalid request accepted"
    return None


# ---------------------------------------------------------------- symbolic requests
def request(item, ex):
    """A case whose open entries are symbolic or chosen."""
    c = dict(item)
    free = c.pop("free")
    for k in free:
        if k in ("n", "rounds"):
            c[k] = sym.SymInt(k)
            ex.assume(z3.Int(k) <= item["max"])  # negative without bound
        elif k in ("n:real", "rounds:real"):
            c[k[:-5]] = sym.SymReal(k)
        elif k in ("rot", "reset", "gauge"):
            c[k] = bool(sym.SymBool(z3.Bool(k)))
        elif k == "ancs":
            c["ancs"] = [q for i, q in enumerate(item["pool"]) if bool(sym.SymBool(z3.Bool(f"in{i}")))]
            c["as"] = sym.choose(["list", "tuple", "set"]) if len(c["ancs"]) < 3 else "list"
        elif k == "code":
            v = sym.choose(["", "rotated_surface_code", "unrotated_surface_code", "surface_code", "Rotated_surface_code", "repetition_code",
                            "unrotated_surface_code_css", None])
            if c["kind"] == "block":
                c["code"] = v if v is not None else "none"
            else:
                c["bad"] = {"code": v}
        elif k == "len":
            c["len"] = sym.choose([0, 1, 2, 3, 4, 5])
        elif k == "ori":
            c["ori"] = sym.choose(["constant", "alternating", "", "Constant", "alternate", None, 1])
        elif k == "bases":
            c["bases"] = sym.choose([0, 1, 2, 3])
        else:  # a wrong type
            pool = {"layout": BAD_LAYOUT, "layout_t": BAD_LAYOUT, "init": BAD_INIT, "bad:n": BAD_COUNT, "bad:rounds": BAD_COUNT}[k]
            c["bad"] = dict(c.get("bad") or {}, **{k.split(":")[-1]: sym.choose(pool)})
    c.pop("pool", None)
    return c


def concretise(case, m):
    out = {}
    for k, v in case.items():
        if type(v) is sym.SymInt:
            v = m.eval(v.iterm, model_completion=True).as_long()
        elif type(v) is sym.SymReal:
            v = float(sym.model_value(m, v.term))
        out[k] = v
    return out


def one(ck, item):
    if item["kind"] == "experiment":
        ck.covers(f"experiments.{MOD.get(item['fam']) or FAMS[item['fam']].mod}.*")
    elif item["kind"] == "block":
        ck.covers(f"circuit_blocks.{FAMS[item['fam']].mod}.*", "circuit_blocks.util.*", "util.circuit_operations.merge_*")
    else:
        ck.covers(f"models.library.{item['model']}.{item['op']}", "models.util.grouper")
    ex = sym.Explorer()
    box = {}

    def body():
        c = box["case"] = request(item, ex)
        return outcome(c)

    bad = 0
    for err in ex.run(body):
        case = box["case"]
        ok = KINDS[case["kind"]][1](case)
        if ok is None:
            continue
        ck.programs += 1
        ck.obligations += 1
        m = ex.model(ok if err else z3.Not(ok))
        if m is None:
            ck.discharged += 1
            continue
        ck.violation(concretise(case, m), f"valid request rejected: {err}" if err else "invalid request accepted")
        bad += 1
        if bad >= 2:
            break
    ck.paths += ex.paths


def configs(ck):
    th = ck.thorough
    out = []
    base = dict(kind="experiment", n=2, rounds=1, rot=False, reset=True, gauge=True, frame="post-gate", max=5 if th else 3)
    exps = [("memory", f) for f in FAMS]
    for fm, mod in MOD.items():
        e = importlib.import_module("surface_sim.experiments." + mod)
        exps += [(w, fm) for w in ("s", "h", "cnot") if hasattr(e, f"repeated_{w}_experiment")]
    for what, fm in exps:
        kind = kind_of(fm)
        b = dict(base, what=what, fam=fm, frame="pre-gate" if what == "memory" else "post-gate")
        opt = ["rot", "reset", "gauge"]
        if what == "memory":
            out += [dict(b, n=0, free=["rounds", *opt]), dict(b, n=0, free=["rounds:real", "rot"]), dict(b, n=0, free=["bad:rounds", *opt])]
        else:
            out += [dict(b, free=["n", "rounds", *(opt if th else ["rot"])], max=4 if th else 2), dict(b, free=["n:real", "rot"]), dict(b, free=["rounds:real", "rot"]),
                    dict(b, free=["n:real", "rounds"]), dict(b, free=["bad:n", *opt]), dict(b, free=["bad:rounds", *opt])]
            out.append(dict(b, unprepared=True, free=opt))
        out += [dict(b, free=["layout", *opt]), dict(b, free=["init", *opt]), dict(b, free=["layout", "init"]), dict(b, free=["code", *opt])]
        if what == "cnot":
            out += [dict(b, free=["layout_t", *opt]), dict(b, free=["layout", "layout_t"]), dict(b, free=["ori", "rot"])]
        ls = lays(kind, what)
        A = fam.ancs(ls[0])
        foreign = [fam.ancs(ls[1])[0]] if what != "cnot" else []
        pool = [A[0], A[-1], fam.data(ls[0])[0], "Z999", *foreign]
        out += [dict(b, pool=pool, free=["ancs", "gauge"]), dict(b, pool=pool[1:], free=["ancs", "rot", "reset"])]
        # every proper ancilla together with foreign ones
        out.append(dict(b, pool=[*A[:3], *foreign, "q"], free=["ancs", "gauge"]))
        if what == "memory":
            out.append(dict(b, rounds=FAMS[fm].min_rounds(), n=0, pool=pool, free=["ancs", "gauge", "rot"]))
    for fm, f in FAMS.items():
        b = dict(kind="block", fam=fm, rot=False, reset=True, gate="none")
        ops = ["round", "meas"] if not f.google else ["round", "round_meas"]
        if f.google:
            more = ["init"]
        else:
            more = ["init", "log_x", "log_z"]
            if f.frame == "css":
                more += ["s", "cnot"] + (["h"] if f.kind == "unrot" else [])
        ls = lays(f.kind, "none")
        A = fam.ancs(ls[0])
        for op in ops:
            out.append(dict(b, op=op, free=["code", "rot", "reset"]))
            pool = [A[0], A[-1], fam.data(ls[0])[0], "Z999", fam.ancs(ls[1])[0]]
            out.append(dict(b, op=op, pool=pool, free=["ancs", "rot", "reset"]))
            out.append(dict(b, op=op, pool=[*A[:3], fam.ancs(ls[1])[0], "q"], free=["ancs", "rot"]))
        if not f.google:
            for op in ("rounds", "meass"):
                out.append(dict(b, op=op, pool=[A[0], fam.ancs(ls[1])[-1], fam.data(ls[0])[0], "Z999", fam.ancs(third(f.kind))[0]],
                                free=["ancs", "rot", "reset"]))
                out.append(dict(b, op=op, free=["code", "rot", "reset"]))
                out.append(dict(b, op=op, on=1, free=["code", "rot", "reset"]))
            out.append(dict(b, op="meass", free=["bases", "rot", "reset"]))
        for op in more:
            g = op if op in ("s", "h", "cnot") else "none"
            out.append(dict(b, op=op, gate=g, free=["code", "rot"]))
            if g != "none":
                out.append(dict(b, op=op, free=["rot"]))
                if op == "cnot":
                    out.append(dict(b, op=op, gate=g, on=1, free=["code"]))
    from vk.noise import MODELS

    for model in ("CircuitNoiseModel", "BiasedCircuitNoiseModel", "PhenomenologicalNoiseModel", "IncomingNoiseModel", "NoiselessModel",
                  "DecoherenceNoiseModel", "ExperimentalNoiseModel"):
        for op in ("cnot", "cphase", "swap"):
            out.append(dict(kind="operation", model=model, op=op, free=["len"]))
    return out


def run(ck):
    it = configs(ck)
    ck.bounds = {"requests": len(it), "counts": f"all integers up to {it[0]['max']} (negative without bound), all reals", "codes": "eight code names",
                 "ancilla requests": "all subsets of pools with valid, data, foreign and unknown labels", "lists": "0..5 qubits", "sizes": "2x2, 2x3"}
    ck.assumptions.append("rejection is any exception; blocks that work for every code (initialisation, logical Paulis and measurement of CSS codes) "
                          "have no unsupported code; an odd number of S gates counts as invalid")
    ck.sample(it[0])
    ck.pmap(one, it, chunk=1)
