"""C17: detector lists are complete, ordered, placed and restricted as requested."""
import stim
import z3

from vk import rel, sym

LEVEL = "other"
EXPLANATION = (
    "The real Detectors class is driven through every history (up to the bound) of activations, deactivations, stabilizer updates, "
    "rounds, data-qubit measurements and new_circuit, with symbolic choices of ancilla subsets, requested subsets and update matrices, "
    "symbolic ancilla coordinates and one symbolic bit per measurement. After every round or measurement the solver shows, for all "
    "outcomes and coordinates, that there is exactly one detector per ancilla (or reconstructable stabilizer) in a fixed order with "
    "its own coordinates and the right time, that inactive or unrequested ones are empty, and that every other detector is, for all "
    "outcomes, the parity prescribed by an independent reference. Invalid requests must be rejected."
)

ANC = ["X1", "Z2", "X3"]
DATA = ["D1", "D2", "D3", "D4"]
SUPPORT = {"X1": ["D1", "D2"], "Z2": ["D2", "D3", "D4"], "X3": ["D4"]}
UPDATES = {
    "swap": {"X1": ["Z2"], "Z2": ["X1"]},
    "add": {"X1": ["X1", "X3"]},
    "add2": {"X3": ["Z2", "X3"], "Z2": ["Z2"]},
    "cycle": {"X1": ["Z2"], "Z2": ["X3"], "X3": ["X1"]},
    "singular": {"X1": ["Z2"]},
    "singular2": {"X1": ["Z2", "X3"], "Z2": ["X1", "X3"], "X3": ["X1", "Z2"]},
    "empty": {"Z2": []},
    "unknown": {"X9": ["X1"]},
    "unknown2": {"X1": ["X1", "X9"]},
}
BAD = ("singular", "singular2", "empty", "unknown", "unknown2")


class Reject(Exception):
    pass


def mul(a, b):
    return [[sum(a[i][k] & b[k][j] for k in range(3)) & 1 for j in range(3)] for i in range(3)]


def inv(m):
    """Inverse over GF(2) by elimination; None when singular."""
    n = len(m)
    a = [row[:] + [int(i == j) for j in range(n)] for i, row in enumerate(m)]
    for c in range(n):
        p = next((r for r in range(c, n) if a[r][c]), None)
        if p is None:
            return None
        a[c], a[p] = a[p], a[c]
        for r in range(n):
            if r != c and a[r][c]:
                a[r] = [x ^ y for x, y in zip(a[r], a[c])]
    return [row[n:] for row in a]


ID = [[int(i == j) for j in range(3)] for i in range(3)]


class World:
    """The reference: measurement log, activity, pending transformation of the generators since the last round."""

    def __init__(self, frame, reset):
        self.frame, self.reset = frame, reset
        self.clear()

    def clear(self):
        self.log, self.by = [], {}
        self.rounds = {a: 0 for a in ANC}
        self.active = {a: False for a in ANC}
        self.total, self.M, self.vague = 0, ID, False

    def measure(self, qubits):
        for q in qubits:
            self.log.append((q, len(self.by.setdefault(q, []))))
            self.by[q].append(len(self.log) - 1)

    def rec(self, q, k):
        i = self.by.get(q, [])
        return stim.target_rec(i[k] - len(self.log))

    def syndrome(self, a, r):
        """Measurements whose parity is the stabilizer of a in its r-th round since activation (1-based), as log positions."""
        if r < 1:
            return set()
        own = self.by[a][len(self.by[a]) - self.rounds[a]:]
        s = {own[r - 1]}
        if not self.reset and r >= 2:
            s ^= {own[r - 2]}
        return s

    def combine(self, row, back):
        out = set()
        for j, b in zip(ANC, row):
            if b:
                out ^= self.syndrome(j, self.rounds[j] - back) if self.rounds[j] else set()
        return out

    def expect_round(self):
        out = {}
        M = ID if self.frame == "gate-independent" else self.M
        for i, a in enumerate(ANC):
            if self.frame == "pre-gate":
                out[a] = self.combine(inv(M)[i], 0) ^ self.combine(ID[i], 1)
            else:
                out[a] = self.combine(ID[i], 0) ^ self.combine(M[i], 1)
        return out

    def expect_data(self, stabs):
        out = {}
        M = ID if self.frame == "gate-independent" else self.M
        for i, a in enumerate(ANC):
            if a in stabs:
                s = set()
                for d in SUPPORT[a]:
                    s ^= {self.by[d][-1]}
                out[a] = s ^ self.combine(M[i], 0)
        return out


def steps(case, coords):
    """Yields (what, True | z3 condition) for differences; raises Reject when an invalid request was rejected."""
    from surface_sim.detectors import Detectors

    cs = {a: [coords(f"{a}.{k}") for k in range(case["dim"])] for a in ANC}
    d = Detectors(list(ANC), case["frame"], None if case["nocoords"] else {a: cs[a] for a in ANC[::-1]})
    if case["nocoords"]:
        cs = {a: [] for a in ANC}
    w = World(case["frame"], case["reset"])
    order = []
    for k, op in enumerate(case["ops"]):
        what = f"step {k} {op}"
        kind = op[0]
        invalid = False
        if kind == "activate":
            invalid = any(a not in ANC or w.active[a] for a in op[1])
            call = lambda: d.activate_detectors(list(op[1]))
        elif kind == "deactivate":
            invalid = any(a not in ANC or not w.active[a] for a in op[1])
            call = lambda: d.deactivate_detectors(list(op[1]))
        elif kind == "update":
            invalid = op[1] in BAD
            call = lambda: d.update_from_dict({a: list(v) for a, v in UPDATES[op[1]].items()})
        elif kind == "new":
            call = d.new_circuit
        elif kind == "round":
            w.measure([a for a in ANC if w.active[a]])
            invalid = op[1] is not None and any(a not in ANC for a in op[1])
            call = lambda: d.build_from_anc(w.rec, case["reset"], None if op[1] is None else list(op[1]))
        else:
            w.measure(DATA)
            invalid = op[2] is not None and any(a not in ANC for a in op[2])
            call = lambda: d.build_from_data(w.rec, {a: list(s) for a, s in SUPPORT.items()}, case["reset"], list(op[1]),
                                             None if op[2] is None else list(op[2]))
        try:
            res = call()
        except (sym.CheckError, sym.PathAbort):
            raise
        except Exception as e:
            if invalid:
                raise Reject
            if not rel.from_repo(e):
                raise
            yield f"{what} raised {type(e).__name__}: {e}", True
            return
        if invalid:
            yield f"{what} is accepted", True
            return
        if kind == "activate":
            for a in op[1]:
                w.active[a], w.rounds[a] = True, 0
        elif kind == "deactivate":
            if w.M != ID:
                w.vague = True  # a gate without a round before its block is measured: content is decided by C10
            for a in op[1]:
                w.active[a] = False
        elif kind == "update":
            U = [row[:] for row in ID]
            for a, v in UPDATES[op[1]].items():
                U[ANC.index(a)] = [int(x in v) for x in ANC]
            w.M = mul(U, w.M)
        elif kind == "new":
            w.clear()
        else:
            if kind == "round":
                w.total += 1
                for a in ANC:
                    w.rounds[a] += w.active[a]
                want, time, asked = w.expect_round(), w.total - 1, op[1]
            else:
                want, time, asked = w.expect_data(op[1]), w.total - 0.5, op[2]
            yield from judge(what, res, want, time, ANC if asked is None else asked, w, cs, order)
            w.M = ID
            if kind == "round":
                w.vague = False


def judge(what, circ, want, time, asked, w, cs, order):
    dets = []
    for ins in circ:
        if ins.name != "DETECTOR":
            yield f"{what}: unexpected {ins}", True
            return
        dets.append((ins.gate_args_copy(), ins.targets_copy()))
    if len(dets) != len(want):
        yield f"{what}: {len(dets)} detectors instead of {len(want)}", True
        return
    dim = len(next(iter(cs.values())))
    labels = []
    for args, _ in dets:
        if len(args) != dim + 1:
            yield f"{what}: a detector has coordinates {args}", True
            return
        if dim:
            mine = [a for a in ANC if [leaf(x) for x in args[:-1]] == [leaf(x) for x in cs[a]]]
            if len(mine) != 1:
                yield f"{what}: coordinates {args} are not those of an ancilla", True
                return
            labels.append(mine[0])
    if not dim:
        labels = [a for a in ANC if a in want]
    if sorted(labels) != sorted(want):
        yield f"{what}: detectors of {labels} instead of {sorted(want)}", True
        return
    pos = {a: i for i, a in enumerate(order or labels)}
    if not order and len(labels) == len(ANC):
        order.extend(labels)
    if order and [a for a in order if a in labels] != labels:
        yield f"{what}: detectors in the order {labels}, before {order}", True
    for a, (args, ts) in zip(labels, dets):
        yield f"{what}: time of the detector of {a}", z3.Or(sym.untoken(args[-1]) != z3.RealVal(str(time)),
                                                          *[sym.untoken(x) != (c.term if type(c) is sym.SymReal else sym.untoken(c)) for x, c in zip(args, cs[a])])
        if not w.active[a] or a not in asked:
            if ts:
                yield f"{what}: the detector of {a} should be empty", True
            continue
        if w.vague:
            continue
        got = [t.value + len(w.log) for t in ts]
        if any(i < 0 or i >= len(w.log) for i in got):
            yield f"{what}: the detector of {a} refers to records {ts}", True
            continue
        x = z3.BoolVal(False)
        for i in got:
            x = z3.Xor(x, z3.Bool(f"m{i}"))
        y = z3.BoolVal(False)
        for i in sorted(want[a]):
            y = z3.Xor(y, z3.Bool(f"m{i}"))
        yield f"{what}: the detector of {a} consists of {sorted((w.log[i] for i in got))} instead of {sorted(w.log[i] for i in want[a])}", x != y


def leaf(x):
    if type(x) is sym.SymReal:
        return x.term.sexpr()
    return sym.untoken(x).sexpr()


def number(n):
    return {"X1": 1.5, "Z2": -2.25, "X3": 7.0}[n.split(".")[0]] + int(n.split(".")[1])


def replay(case):
    sym.reset_tokens()
    out = None
    try:
        for what, bad in steps(case, number):
            if bad is True:
                return what
            s = z3.Solver()
            s.add(bad)
            if s.check() == z3.sat:
                return what
    except Reject:
        pass
    return out


def one(ck, item):
    base, first, alphabet, depth, tail = item
    ck.covers("detectors.detectors.Detectors.__init__", "detectors.detectors.Detectors.new_circuit", "detectors.detectors.Detectors.activate_detectors",
              "detectors.detectors.Detectors.deactivate_detectors", "detectors.detectors.Detectors.update_from_dict",
              "detectors.detectors.Detectors.update", "detectors.detectors.Detectors.build_from_anc", "detectors.detectors.Detectors.build_from_data",
              "detectors.detectors._get_ancilla_meas_for_detectors", "detectors.detectors.remove_pairs")
    ex = sym.Explorer()
    box, pend = {}, []

    def body():
        sym.reset_tokens()
        ops = list(first)
        for _ in range(depth):
            ops.append(sym.choose(alphabet))
        ops += tail
        case = {**base, "ops": ops}
        box["case"] = case
        out, rejected = [], False
        try:
            for r in steps(case, lambda n: sym.SymReal(n)):
                out.append(r)
        except Reject:
            rejected = True
        return out, rejected

    for res, rejected in ex.run(body):
        ck.programs += 1
        case = box["case"]
        sure = [w for w, b in res if b is True]
        if sure:
            ck.violation(case, sure[0])
            continue
        if res:
            pend.append((z3.Or([b for _, b in res]), case, res))
        if len(pend) >= 40:
            flush(ck, pend)
    flush(ck, pend)
    ck.paths += ex.paths


def flush(ck, pend):
    if pend and ck.refute(z3.Or([c for c, _, _ in pend])) is not None:
        for c, case, res in pend:
            for w, b in res:
                if ck.refute(b) is not None:
                    ck.violation(case, w)
                    break
    pend.clear()


def configs(ck):
    out = []
    alph = [
        ["activate", ["X1"]], ["activate", ["X3", "Z2"]], ["deactivate", ["Z2"]], ["deactivate", ["X3", "X1"]],
        ["round", None], ["round", ["Z2"]], ["data", ["X1", "X3"], None], ["new"],
    ]
    gates = [["update", u] for u in UPDATES]
    rnd = [["round", None], ["round", []], ["round", ["X3", "X1"]]]
    data = [["data", ["X1", "X3"], None], ["data", ["Z2"], ["X1", "Z2"]], ["data", ["X1", "X3"], ["X3"]], ["data", [], None]]
    bad = [["activate", ["X9"]], ["activate", ["X1", "X9"]], ["deactivate", ["X9"]], ["deactivate", ["X1", "Z2", "X3", "X9"]],
           ["round", ["X9"]], ["round", ["X1", "X9", "Z2", "X3"]], ["data", ["X1"], ["X9"]]]
    every = ["activate", ["X1", "Z2", "X3"]]
    end = [["round", None], ["data", ["X1", "X3"], None]]
    frames = ("pre-gate", "post-gate", "gate-independent")
    for f in frames:
        for reset in (True, False):
            base = dict(frame=f, reset=reset, dim=2, nocoords=False)
            d = 1 if ck.thorough else 0
            # activity histories: split over the first step for parallelism
            for a in alph:
                out.append((base, [a], alph, 2 + d, end))
            for a in alph[2:4]:
                out.append((base, [every, ["round", None], ["round", None], a], alph, 2 + d, end))
            out.append((base, [every, ["round", None], ["update", "add"], ["round", None], ["new"]], alph + [every], 2 + d, end))
            # gate histories
            for g in gates[:4]:
                out.append((base, [every, g], gates[:4] + rnd[:1] + rnd[2:], 2 + d, end))
                out.append((base, [every, ["round", None], g], gates[:4] + rnd[:1] + rnd[2:] + [["new"]], 2 + d, end))
            out.append((base, [every, ["round", None]], rnd + data + gates[:2], 2 + d, end))
            out.append((base, [every], gates[4:] + bad + [every], 1, []))
            out.append((base, [every, ["round", None]], gates[4:] + bad + [every], 1, []))
            out.append((base, [["activate", ["X1"]]], bad + [["deactivate", ["Z2"]], ["deactivate", ["X1", "Z2"]], ["activate", ["Z2", "X1"]]], 1, end))
            out.append(({**base, "nocoords": True}, [every], rnd + data[:2], 1, end))
            out.append(({**base, "dim": 3 if reset else 1}, [every], rnd + data[:2], 1, end))
    return out


def run(ck):
    it = configs(ck)
    ck.bounds = {"history families": len(it), "steps": "up to 6 (quick), 7 (thorough)", "ancillas": 3, "data qubits": 4, "coordinates": "all reals",
                 "outcomes": "all"}
    ck.assumptions.append("every active ancilla is measured once per round; after a gate without a round a deactivation is judged by C10 only; "
                          "lists, not one-shot iterators")
    ck.sample(str(it[0]))
    ck.pmap(one, it, chunk=1)
