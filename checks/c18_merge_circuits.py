"""C18: merging circuits in parallel preserves what each circuit does."""
import stim
import z3

from vk import cliff, events, rel, sym

LEVEL = "other"
EXPLANATION = (
    "The contents of two or three circuits on disjoint qubits are chosen nondeterministically (gates, noise before and after, "
    "measurements in several bases with classical noise, resets, idles, repeated and empty steps) with one symbolic probability per "
    "noise argument; the real merge_circuits runs on them. On every path the solver decides that in every time step every qubit "
    "undergoes the same operations with the same probability terms in the same order as in its own circuit, for all probabilities; "
    "record order and rejections are checked on every path."
)

# instruction templates of one time step of one circuit; {0},{1} are its qubits, each '@' becomes a symbolic probability
STEPS = {
    "": [],
    "gate": ["H {0}", "DEPOLARIZE1(@) {0}", "X {1}", "DEPOLARIZE1(@) {1}"],
    "gate2": ["CX {0} {1}", "DEPOLARIZE2(@) {0} {1}"],
    "idle": ["DEPOLARIZE1(@) {0}", "DEPOLARIZE1(@) {1}"],
    "biased": ["S {0} {1}", "PAULI_CHANNEL_1(@,@,@) {0}", "PAULI_CHANNEL_1(@,@,@) {1}"],
    "pre": ["PAULI_CHANNEL_1(@,@,@) {0}", "H {0}", "PAULI_CHANNEL_1(@,@,@) {0}", "I {1}"],
    "in": ["X_ERROR(@) {0}", "Z_ERROR(@) {0}", "H {0}"],
    "reset": ["R {0}", "X_ERROR(@) {0}", "RX {1}", "Z_ERROR(@) {1}"],
    "meas": ["X_ERROR(@) {0}", "M(@) {0}", "X_ERROR(@) {1}", "M(@) {1}"],
    "measx": ["Z_ERROR(@) {0}", "MX {0}", "I {1}"],
    "measmix": ["X_ERROR(@) {0}", "Z_ERROR(@) {1}", "M {0}", "MX(@) {1}"],
    "measone": ["M {1}"],
    "measrev": ["M {1}", "M {0}"],
    "measy": ["MY {0}", "MR(@) {1}"],
    "measpair": ["DEPOLARIZE2(@) {0} {1}", "MZZ(@) {0} {1}"],
    "measpairx": ["MXX(@) {1} {0}"],
    "measpairy": ["MYY {0} {1}", "Z_ERROR(@) {1}"],
    "measprod": ["DEPOLARIZE1(@) {0}", "MPP(@) X{0}*Z{1}"],
    "measreset": ["MRX(@) {0}", "MRY {1}"],
}
MEASURING = {k for k, v in STEPS.items() if any(t.lstrip()[0] == "M" for t in v)}


def make(case, value):
    """The input circuits of a case; value(name) gives the probability."""
    out = []
    for c, contents in enumerate(case["circuits"]):
        circ = outer = stim.Circuit()
        loop = case.get("loops") and case["loops"][c]  # contents [a, b, .., b] as a, REPEAT n {TICK, b}
        for t, key in enumerate(contents[:2] if loop else contents):
            if t and loop:
                circ = stim.Circuit()
            if t:
                circ.append(stim.CircuitInstruction("TICK", []))
            for i, tmpl in enumerate(STEPS[key]):
                name, rest = tmpl.split(" ", 1)
                args = []
                if "(" in name:
                    name, a = name[:-1].split("(")
                    args = [value(f"p{c}_{t}_{i}_{j}") for j in range(a.count("@"))]
                rest = rest.format(case["qubits"][c][0], case["qubits"][c][1])
                if name == "MPP":
                    qs = stim.Circuit(f"MPP {rest}")[0].targets_copy()
                else:
                    qs = [int(x) for x in rest.split()]
                circ.append(stim.CircuitInstruction(name, qs, [float(a) for a in args]))
        if loop:
            outer.append(stim.CircuitRepeatBlock(len(contents) - 1, circ))
        out.append(outer)
    return out


def accepted(case):
    if len({len(c) for c in case["circuits"]}) != 1:
        return False
    if not case["check"]:
        return True
    where = [{t for t, k in enumerate(c) if k in MEASURING} for c in case["circuits"]]
    return all(len(w) <= 1 for w in where) and len(set().union(*where)) <= 1


def compare(case, circs, merged, differ):
    """Generator of (what, difference)."""
    S = [events.steps(c) for c in circs]
    m = events.steps(merged)
    n = len(case["circuits"][0])
    if len(m) != n:
        yield f"{len(m)} time steps instead of {n}", True
        return
    for t in range(n):
        mq = events.by_qubit(m[t])
        want = {}
        for s in S:
            want.update(events.by_qubit(s[t]))
        if set(mq) != set(want):
            yield f"step {t} acts on qubits {sorted(mq)} instead of {sorted(want)}", True
            continue
        for q in want:
            yield f"step {t}, qubit {q}: {mq[q]} instead of {want[q]}", differ(mq[q], want[q])
        rec = [e[:2] for e in m[t] if e.is_meas]
        exp = [e[:2] for s in S for e in s[t] if e.is_meas]
        yield f"step {t}: outcomes of qubits {rec} instead of {exp}", rec != exp


def replay(case):
    from surface_sim.util import merge_circuits

    n = [0]

    def value(_):
        n[0] += 1
        return 0.0123456789 + 0.0007654321 * n[0]

    circs = make(case, value)
    ok = accepted(case)
    try:
        merged = merge_circuits(*circs, check_meas=case["check"])
    except Exception as ex:
        return f"raised {type(ex).__name__}: {ex}" if ok else None
    if not ok:
        return "an invalid combination was merged"
    for what, d in compare(case, circs, merged, lambda a, b: [tuple(x) for x in a] != [tuple(x) for x in b]):
        if d:
            return what
    return None


def run_case(ck, case):
    from surface_sim.util import merge_circuits

    ck.programs += 1
    sym.reset_tokens()
    circs = make(case, lambda n: sym.SymReal(n))
    ok = accepted(case)
    try:
        merged = merge_circuits(*circs, check_meas=case["check"])
    except Exception as ex:
        if not rel.from_repo(ex):
            raise
        if ok:
            ck.violation(case, f"valid circuits rejected: {type(ex).__name__}: {ex}")
        elif not isinstance(ex, (ValueError, TypeError)):
            ck.violation(case, f"rejected with {type(ex).__name__}")
        return
    if not ok:
        ck.violation(case, "an invalid combination was merged")
        return
    conds = []
    for what, d in compare(case, circs, merged, events.differ):
        if d is True:
            ck.violation(case, what)
            return
        if d is not False:
            conds.append((what, d))
    m = ck.refute(z3.Or([c for _, c in conds]) if conds else z3.BoolVal(False))
    if m is not None:
        ck.violation(case, f"{case}: noise probabilities differ: {conds[0][0]}")


def one(ck, item):
    what, first = item
    ck.covers("util.circuit_operations.merge_circuits", "util.circuit_operations.merge_tick_blocks")
    th = ck.thorough
    keys = list(STEPS)
    ex = sym.Explorer(max_paths=10**7)

    def two():
        b = [sym.choose(keys)]
        if th:
            n1 = sym.choose((1, 2))
            k1 = sym.choose(keys) if n1 == 2 else None
            n2 = sym.choose((1, 2))
            k2 = sym.choose(keys) if n2 == 2 else None
        else:
            k1 = sym.choose([None, "", "biased", "measmix"])
            k2 = sym.choose([None, "idle", "measone", "reset"])
        c = [[first] + ([k1] if k1 is not None else []), b + ([k2] if k2 is not None else [])]
        if sym.choose((False, True)):
            c = [x[::-1] for x in c]
        return dict(circuits=c, qubits=[[0, 3], [2, 1]], check=sym.choose((True, False)))

    def three():
        c = [[first], [sym.choose(keys)], [sym.choose(keys if th else ["", "measmix", "gate", "reset"])]]
        if th and sym.choose((False, True)):
            c = [["idle"] + x for x in c]
        return dict(circuits=c, qubits=[[5, 0], [2, 4], [3, 1]], check=True)

    def loops():
        n = sym.choose((2, 3, 4)) if th else 3
        a = [first] + [sym.choose(keys)] * (n - 1)
        how = sym.choose(((True, False), (True, True), (False, True)))
        b = [sym.choose(["gate", "measone", ""])] + [sym.choose(["", "gate2", "pre", "measmix"])] * (n - 1)
        if sym.choose((False, True)):
            a, b, how = b, a, how[::-1]
        return dict(circuits=[a, b], qubits=[[0, 3], [2, 1]], check=sym.choose((True, False)), loops=list(how))

    for case in ex.run({"two": two, "three": three, "loops": loops}[what]):
        ck.paths += 1
        run_case(ck, case)


def run(ck):
    ck.bounds = {"circuits": "1..3 on disjoint qubits", "time steps": "1..3, also written as REPEAT blocks", "step contents": list(STEPS), "probabilities": "all"}
    ck.assumptions.append("detectors and observables inside the merged circuits are outside (they refer to records by position)")
    for c in STEPS:  # single circuits, longer
        for d in ("gate", "meas"):
            run_case(ck, dict(circuits=[[c, d, "idle"]], qubits=[[1, 0]], check=False))
    ck.sample(dict(circuits=[["meas", "gate"], ["measmix", "idle"]], qubits=[[0, 3], [2, 1]], check=True))
    ck.pmap(one, [(w, k) for w in ("two", "three", "loops") for k in STEPS], chunk=1)
