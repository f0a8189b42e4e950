"""C16: derived error channels are valid probability distributions with the stated bias."""
from itertools import product

import z3

from vk import rel, sym

LEVEL = "other"
EXPLANATION = (
    "biased_prefactors and idle_error_probs run on symbolic reals (bias factor; T1, T2 and one or two durations), forking on every "
    "comparison. exp is an uninterpreted function with the axioms positivity, exp(0)=1, monotonicity, exp(x) >= 1+x and "
    "exp(a+b) = exp(a) exp(b), instantiated for the arguments the code uses; everything else is exact nonlinear real arithmetic. On "
    "every path the solver shows, for all values: sums, signs, the stated bias ratio, the twirl formulas, bounds that vanish with the "
    "duration, multiplicativity over consecutive periods, and acceptance exactly of the valid inputs."
)


def operators(n):
    return list(product("IXYZ", repeat=n))[1:]


def t(x):
    return x.term if type(x) in (sym.SymReal, sym.SymInt) else sym.untoken(x)


# ------------------------------------------------------------------ biased channels
def biased_claims(p, which, n, b, le, one):
    """Yields (what, violated)."""
    ops = operators(n)
    if len(p) != len(ops):
        yield f"{len(p)} factors for {len(ops)} operators", True
        return
    yield "a factor is negative", [x < 0 for x in p]
    yield "the factors do not sum to one", [le(sum(p[1:], p[0]), one)]
    ref = next(i for i, o in enumerate(ops) if which not in o)
    for i, o in enumerate(ops):
        yield f"{''.join(o)} is not {'bias times' if which in o else 'as'} likely as {''.join(ops[ref])}", [
            le(p[i], b * p[ref] if which in o else p[ref])]


def biased(ck, item):
    which, n = item
    from surface_sim.models.util import biased_prefactors

    ck.covers("models.util.biased_prefactors")
    ex = sym.Explorer()

    def body():
        b = sym.SymReal("b")
        ex.assume(b >= 0)
        try:
            return list(biased_prefactors(which, b, n)), None
        except Exception as e:
            if not rel.from_repo(e):
                raise
            return None, e

    for res, exc in ex.run(body):
        ck.programs += 1
        ck.paths += 1
        base = list(ex.solver.assertions())

        def bad(m, msg):
            ck.violation(dict(kind="biased", pauli=which, n=n, b=float(sym.model_value(m, z3.Real("b")))), msg)

        if exc is not None:
            bad(ex.model(), f"valid bias raised {type(exc).__name__}: {exc}")
            continue
        p = [t(x) for x in res]
        for what, viol in biased_claims(p, which, n, z3.Real("b"), lambda x, y: x != y, z3.RealVal(1)):
            m = ex.model() if viol is True else ck.refute(*base, z3.Or(viol))
            if m is not None:
                bad(m, f"biased channel ({which}, {n} qubits): {what}")
        m = ck.refute(*base, z3.Real("b") == 1, z3.Or([x != z3.Q(1, len(operators(n))) for x in p]))
        if m is not None:
            bad(m, "bias one is not depolarizing noise")


# ------------------------------------------------------------------ idling
D, T1, T2, D2 = z3.Reals("d T1 T2 dd")
E1, E2, S1, F1, F2, U1 = z3.Reals("E1 E2 S1 F1 F2 U1")  # exp(-d/T1), exp(-d/T2), exp(-d/2T1); the same for dd


def axioms():
    """Facts about the named exponentials (instances of the axioms of exp)."""
    out = []
    for d, a, b, s in ((D, E1, E2, S1), (D2, F1, F2, U1)):
        for v, x in ((a, -d / T1), (b, -d / T2), (s, -d / (2 * T1))):
            out += [v > 0, v >= 1 + x, z3.Implies(x < 0, v < 1), z3.Implies(x == 0, v == 1), z3.Implies(x > 0, v > 1)]
        out += [s * s == a, z3.Implies(-d / T2 <= -d / (2 * T1), b <= s), z3.Implies(-d / T2 >= -d / (2 * T1), b >= s)]
    return out


def name_exps(terms, base):
    """Replaces Exp(x) by the product of named exponentials that the solver shows to be equal to it."""
    sub = []
    for a in sym.exp_apps(*terms):
        for c in sorted(product((0, 1, 2, -1, -2), (0, 1, -1, 2, -2), (0, 1, -1, 2), (0, 1, -1, 2)), key=lambda c: sum(map(abs, c))):
            x = -(c[0] * D + c[2] * D2) / (2 * T1) - (c[1] * D + c[3] * D2) / T2
            s = z3.Solver()
            s.set("timeout", 5000)
            s.add(*base, a.arg(0) != x)
            sym.Stats.queries += 1
            if s.check() == z3.unsat:
                v = z3.RealVal(1)
                for k, sy in zip(c, (S1, E2, U1, F2)):
                    for _ in range(abs(k)):
                        v = v * sy if k > 0 else v / sy
                sub.append((a, v))
                break
        else:
            return None
    return [z3.substitute(x, *sub) if sub else x for x in terms]


def idle_claims(p, pp=None, both=None):
    x, y, z = p
    yield "X or Y is not (1 - exp(-t/T1))/4", [x != (1 - E1) / 4, y != (1 - E1) / 4]
    yield "Z is not (1 - exp(-t/T2))/2 - (1 - exp(-t/T1))/4", [z != (1 - E2) / 2 - (1 - E1) / 4]
    yield "a probability is negative", [x < 0, y < 0, z < 0]
    yield "the probabilities sum to one or more", [x + y + z >= 1]
    yield "the probabilities do not vanish with the duration", [x > D / (4 * T1), y > D / (4 * T1), z > D / (2 * T2)]
    if both:
        lam = lambda q: (1 - 2 * (q[1] + q[2]), 1 - 2 * (q[0] + q[2]), 1 - 2 * (q[0] + q[1]))
        yield "two consecutive periods do not compose", [a * b != c for a, b, c in zip(lam(p), lam(pp), lam(both))]


def idle(ck, two):
    from surface_sim.models.util import idle_error_probs

    ck.covers("models.util.idle_error_probs")
    ex = sym.Explorer()
    names = ["T1", "T2", "d"] + (["dd"] if two else [])

    def body():
        a, b, d, e = (sym.SymReal(n) for n in ("T1", "T2", "d", "dd"))
        if two:
            for v in (a, b, d, e):
                ex.assume(v > 0)
            ex.assume(b < 2 * a)
        try:
            if two:
                return [tuple(idle_error_probs(a, b, x)) for x in (d, e, d + e)], None
            return [tuple(idle_error_probs(a, b, d))], None
        except Exception as exc:
            if not rel.from_repo(exc):
                raise
            return None, exc

    pos = z3.And(D > 0, T1 > 0, T2 > 0)
    for res, exc in ex.run(body):
        ck.programs += 1
        ck.paths += 1
        base = list(ex.solver.assertions())

        def bad(m, msg):
            ck.violation(dict(kind="idle", **{n: float(sym.model_value(m, z3.Real(n))) for n in names}), msg)

        if exc is not None:
            m = ck.refute(*base, pos, T2 < 2 * T1)
            if m is not None:
                bad(m, f"valid times raised {type(exc).__name__}: {exc}")
            continue
        m = ck.refute(*base, z3.Not(pos))
        if m is not None:
            bad(m, "a non-positive time is accepted")
            continue
        ts = [t(x) for p in res for x in p]
        base += [pos, T2 < 2 * T1] + ([D2 > 0] if two else [D2 == D, U1 == S1, F1 == E1, F2 == E2])
        if ex.model(pos, T2 < 2 * T1) is None:
            continue
        ck.witness += 1
        ts = name_exps(ts, base)
        if ts is None or any(len(p) != 3 for p in res):
            # not a combination of the exponentials of the stated channel: look for a difference with exp left free
            bad(ex.model(pos, T2 < 2 * T1), "the channel is not built from exp(-t/T1) and exp(-t/T2)")
            continue
        p = ts[:3], ts[3:6], ts[6:9]
        for what, viol in (idle_claims(p[0], p[1], p[2]) if two else idle_claims(p[0])):
            m = ck.refute(*base, *axioms(), z3.Or(viol))
            if m is not None:
                bad(m, f"idling channel: {what}")


# ------------------------------------------------------------------ replay
def replay(case):
    from surface_sim.models.util import biased_prefactors, idle_error_probs
    from math import exp

    tries = [case]
    if case["kind"] == "biased":
        tries += [{**case, "b": b} for b in (0.3, 1.0, 2.5, 40.0)]
        for c in tries:
            try:
                p = [float(x) for x in biased_prefactors(c["pauli"], c["b"], c["n"])]
            except Exception as ex:
                return f"bias {c['b']} raised {type(ex).__name__}: {ex}"
            for what, viol in biased_claims(p, c["pauli"], c["n"], c["b"], lambda x, y: abs(x - y) > 1e-9, 1):
                if viol is True or any(viol):
                    return f"bias {c['b']}: {what}"
        return None
    base = {"dd": case.get("d", 1), **case}
    tries = [base] + [dict(T1=a, T2=b, d=d, dd=e) for a in (0.7, 3.0, 30.0) for b in (0.5, 1.3, 4.0) for d, e in ((0.2, 0.9), (2.0, 1.0))]
    for c in tries:
        valid = c["T1"] > 0 and c["T2"] > 0 and c["d"] > 0
        try:
            p = idle_error_probs(c["T1"], c["T2"], c["d"])
        except Exception as ex:
            if valid and c["T2"] < 2 * c["T1"]:
                return f"idle_error_probs({c}) raised {type(ex).__name__}: {ex}"
            continue
        if not valid:
            return f"idle_error_probs accepts {c}"
        if not c["T2"] < 2 * c["T1"] or max(c["d"] / c["T1"], c["d"] / c["T2"]) > 600:
            continue
        w = (1 - exp(-c["d"] / c["T1"])) / 4
        z = (1 - exp(-c["d"] / c["T2"])) / 2 - w
        if len(p) != 3 or any(abs(a - b) > 1e-9 for a, b in zip(p, (w, w, z))):
            return f"idle_error_probs({c}) = {p} instead of {(w, w, z)}"
    return None


def one(ck, item):
    if item[0] == "biased":
        biased(ck, item[1:])
    else:
        idle(ck, item[1])


def run(ck):
    ns = (1, 2, 3, 4) if ck.thorough else (1, 2, 3)
    it = [("biased", p, n) for p in "XYZ" for n in ns] + [("idle", False), ("idle", True)]
    ck.bounds = {"channels": len(it), "qubits": f"1..{ns[-1]}", "values": "all reals (bias >= 0)", "durations": "one or two consecutive"}
    ck.assumptions.append("exact real arithmetic; exp through instances of its axioms; validity of the channel claimed for T2 < 2 T1")
    ck.sample(str(it[0]))
    ck.reach(z3.And(D > 0, T1 > 0, T2 > 0, T2 < 2 * T1, D2 == D, *axioms(), E1 == z3.Q(1, 4), S1 == z3.Q(1, 2), E2 == z3.Q(1, 3)))
    ck.pmap(one, it, chunk=1)
