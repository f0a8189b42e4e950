"""C21: sampled memory data carries every outcome under the right label."""
import numpy as np
import stim
import z3

from vk import cliff, fam, params, rel, sym

LEVEL = "other"
EXPLANATION = (
    "sample_memory_experiment runs on the real circuits of every family with a stand-in sampler whose every outcome (per shot, record "
    "entry, seed and noisy/noise-free circuit) is its own symbolic bit. The solver shows for all outcomes that every cell of the "
    "returned dataset, addressed by its labels, equals the outcome which the circuit records for that ancilla in that round or for "
    "that data qubit, that the ideal cells are outcomes of the noise-free circuit, and that two runs with the same seed agree."
)


class Bits(np.ndarray):
    """Array of symbolic bits; casts between number types keep the symbols."""

    def astype(self, dtype, *a, **k):
        return self.copy()


class Cast(BaseException):
    """A symbolic bit was turned into a plain one."""


class Bit(sym.SymBool):
    def __bool__(self):
        if HOT is None:
            raise Cast
        return super().__bool__()


HOT = None  # fallback encoding: at most one outcome is 1, and which one is symbolic
SLOTS = {}


def term(tag, s, k):
    name = f"{tag}|{s}|{k}"
    if HOT is None:
        return z3.Bool(name)
    return HOT == SLOTS.setdefault(name, len(SLOTS))


class Numpy:
    """numpy for the code under test: arrays of numbers or booleans it builds can hold symbolic bits."""

    NUM = (bool, np.bool_, int, np.uint8, np.int8, np.int64, "bool", "uint8", "int")

    def __getattr__(self, name):
        f = getattr(np, name)
        if not callable(f) or isinstance(f, type) and name != "ndarray":
            return f

        def call(*a, **k):
            if any(k.get("dtype") is t for t in self.NUM):
                k["dtype"] = object
            a = [object if i and any(x is t for t in self.NUM) else x for i, x in enumerate(a)]
            return f(*a, **k)

        return call


class Sampler:
    def __init__(self, n, tag):
        self.n, self.tag = n, tag

    def sample(self, shots, *, bit_packed=False):
        if bit_packed:
            raise sym.CheckError("bit-packed samples are not modelled")
        a = np.empty((shots, self.n), dtype=object)
        for s in range(shots):
            for k in range(self.n):
                a[s, k] = Bit(term(self.tag, s, k))
        return a.view(Bits)


class Fake(stim.Circuit):
    """A circuit whose samplers return symbolic outcomes (a function of the seed, or of nothing when unseeded)."""

    made = 0

    def _tag(self):
        noisy = any(i.name in cliff.NOISE or (i.name in cliff.MEAS and i.gate_args_copy()) for i in cliff.flat(self))
        return "noisy" if noisy else "ideal"

    def compile_sampler(self, *, seed=None, **k):
        Fake.made += 1
        return Sampler(self.num_measurements, f"{self._tag()}|{seed if seed is not None else f'unseeded{Fake.made}'}")

    def without_noise(self):
        return Fake(str(super().without_noise()))


def layout(case):
    from surface_sim import Layout

    lay = fam.code(fam.FAMS[case["fam"]].kind, case["dx"], case["dz"], **case.get("kw", {}))
    if case["order"] != "default":
        d = lay.to_dict()
        qs = d["layout"]
        if case["order"] == "reversed":
            qs = qs[::-1]
        else:  # interleaved
            qs = qs[1::2] + qs[::2][::-1]
        lay = Layout({**d, "layout": qs})
    return lay


def circuit(case, lay):
    from surface_sim import Detectors

    f = fam.FAMS[case["fam"]]
    src = params.Source(False, params.FLAGS["mixed"])
    model = params.model(case["model"], src, lay.qubit_inds())
    dets = Detectors(lay.get_qubits(role="anc"), "pre-gate")
    init = {q: k % 2 for k, q in enumerate(lay.get_qubits(role="data"))}
    return f.memory(model, lay, dets, case["rounds"], init, case["rot"], case["reset"])


def reference(lay, circ):
    """label -> record positions of its measurements, in order."""
    inv = {i: q for q, i in lay.qubit_inds().items()}
    out = {}
    k = 0
    for ins in cliff.flat(circ):
        if ins.name in cliff.MEAS:
            for t in ins.targets_copy():
                out.setdefault(inv[t.value], []).append(k)
                k += 1
    return out


def sample(case, lay, circ, symbolic=False):
    from surface_sim.util import data_gen, sample_memory_experiment

    swapped = [n for n, v in vars(data_gen).items() if v is np] if symbolic else []
    try:
        for n in swapped:
            setattr(data_gen, n, Numpy())
        return sample_memory_experiment(lay, circ, case["shots"], case["rounds"], case["seed"])
    finally:
        for n in swapped:
            setattr(data_gen, n, np)


def cells(case, lay, ref):
    """(variable, selector, record position, shot)"""
    for a in lay.get_qubits(role="anc"):
        for r in range(case["rounds"]):
            for s in range(case["shots"]):
                yield "anc_meas", dict(shot=s, qec_round=r + 1, anc_qubit=a), ref[a][r], s
            yield "ideal_anc_meas", dict(qec_round=r + 1, anc_qubit=a), ref[a][r], None
    for d in lay.get_qubits(role="data"):
        for s in range(case["shots"]):
            yield "data_meas", dict(shot=s, data_qubit=d), ref[d][-1], s
        yield "ideal_data_meas", dict(data_qubit=d), ref[d][-1], None


def replay(case):
    """Concrete: the stand-in returns the given (or pseudo-random) outcomes as a plain boolean array."""
    import random

    for trial in range(40):
        rnd = random.Random(trial)
        table = {}

        def bit(tag, s, k):
            return table.setdefault((tag, s, k), bool(rnd.getrandbits(1)))

        class CS(Sampler):
            def sample(self, shots, *, bit_packed=False):
                return np.array([[bit(self.tag, s, k) for k in range(self.n)] for s in range(shots)], dtype=bool).reshape(shots, self.n)

        class CF(Fake):
            def compile_sampler(self, *, seed=None, **k):
                Fake.made += 1
                return CS(self.num_measurements, f"{self._tag()}|{seed if seed is not None else f'unseeded{Fake.made}'}")

            def without_noise(self):
                return CF(str(stim.Circuit.without_noise(self)))

        try:
            lay = layout(case)
            circ = circuit(case, lay)
            ref = reference(lay, circ)
            Fake.made = 0
            ds = sample(case, lay, CF(str(circ)))
            tags = sorted({t for t, _, _ in table})
            noisy = [t for t in tags if t.startswith(CF(str(circ))._tag()) and (case["seed"] is None or t.endswith(f"|{case['seed']}"))]
            for which, pool in (("ideal", [t for t in tags if t.startswith("ideal")]), ("", noisy)):
                mine = [c for c in cells(case, lay, ref) if c[0].startswith("ideal") == bool(which)]
                if not any(all(bool(ds[v].sel(**sel).values) == bit(t, x or 0, k) for v, sel, k, x in mine) for t in pool):
                    return f"the {which or 'sampled'} outcomes are not filed under their own labels"
            if case["seed"] is not None:
                again = sample(case, lay, CF(str(circ)))
                if not ds.equals(again):
                    return "the same seed gives different data"
        except Exception as ex:
            if not rel.from_repo(ex):
                raise
            return f"raised {type(ex).__name__}: {ex}"
    # and the real sampler is repeatable
    lay = layout(case)
    c = circuit(case, lay)
    if case["seed"] is not None and not sample(case, lay, c).equals(sample(case, lay, c)):
        return "the same seed gives different data"
    return None


def one(ck, case):
    ck.covers("util.data_gen.sample_memory_experiment", f"experiments.{fam.FAMS[case['fam']].mod}.memory_experiment")
    lay = layout(case)
    ok, circ = ck.guard(case, lambda: circuit(case, lay))
    if not ok:
        return
    ck.programs += 1
    ref = reference(lay, circ)
    na, nd = len(lay.get_qubits(role="anc")), len(lay.get_qubits(role="data"))
    if any(len(ref.get(a, [])) != case["rounds"] for a in lay.get_qubits(role="anc")) or any(len(ref.get(d, [])) != 1 for d in lay.get_qubits(role="data")):
        ck.degraded.append(f"{case}: the circuit does not measure every ancilla once per round")
        return
    global HOT
    SLOTS.clear()
    HOT = None
    try:
        decide(ck, case, lay, circ, ref)
    except Cast:
        n = (case["shots"] + 1) * circ.num_measurements
        if n > 60:
            ck.degraded.append(f"{case}: outcomes are cast to plain numbers and there are {n} of them")
            return
        HOT = z3.Int("hot")
        try:
            decide(ck, case, lay, circ, ref)
        finally:
            HOT = None


def decide(ck, case, lay, circ, ref):
    ex = sym.Explorer(max_paths=2000)

    def body():
        Fake.made = 0
        f = Fake(str(circ))
        try:
            a = sample(case, lay, f, True)
            b = sample(case, lay, f, True)
        except Exception as e:
            if not rel.from_repo(e):
                raise
            return None, None, None, None, e
        return a, b, f._tag(), Fake.made, None

    for a, b, tag, made, exc in ex.run(body):
        ck.paths += 1
        if exc is not None:
            ck.violation(case, f"valid request raised {type(exc).__name__}: {exc}")
            continue
        try:
            got = {(var, tuple(sel.values())): (sym.tobool(a[var].sel(**sel).values.item()), sym.tobool(b[var].sel(**sel).values.item()), k, s)
                   for var, sel, k, s in cells(case, lay, ref)}
        except Exception as e:
            ck.violation(case, f"the dataset lacks a label: {type(e).__name__}: {e}")
            continue
        seeds = [case["seed"]] if case["seed"] is not None else [f"unseeded{i}" for i in range(1, made + 1)]
        groups = []
        for part in (True, False):  # the ideal cells; the others
            mine = {key: v for key, v in got.items() if (v[3] is None) == part}
            kind = "ideal" if part else tag
            # the sampled shot of the noise-free circuit, and the unnamed seed of an unseeded run, are free
            groups.append((mine, [(f"{kind}|{sd}", x) for sd in seeds for x in (range(case["shots"]) if part else (None,))]))
        bad = [z3.And([z3.Or([x != term(t, sh if s is None else s, k) for x, _, k, s in mine.values()]) for t, sh in pool])
               for mine, pool in groups if mine]
        if case["seed"] is not None:
            bad.append(z3.Or([x != y for x, y, _, _ in got.values()]))
        m = ck.refute(*ex.solver.assertions(), z3.Or(bad))
        if m is not None:
            which = [i for i, c in enumerate(bad) if z3.is_true(m.eval(c, model_completion=True))]
            wrong = ""
            for i in which[:1]:
                if i < len(groups):
                    mine, pool = groups[i]
                    t, sh = pool[0]
                    wrong = next((str(key) for key, (x, _, k, s) in mine.items()
                                  if z3.is_true(m.eval(x != term(t, sh if s is None else s, k), model_completion=True))), "")
            ck.violation(case, f"{case['fam']}: {wrong or 'a cell'} does not carry its own outcome")


def configs(ck):
    out = []
    n = 0
    for f in fam.FAMS.values():
        for dx, dz in ((2, 2), (2, 3), (3, 3)) if not ck.thorough else ((2, 2), (2, 3), (3, 2), (3, 3), (4, 3)):
            for rounds in range(f.min_rounds(), 4):
                for reset in f.resets:
                    for order in ("default", "reversed", "interleaved"):
                        if dx * dz > 4 and order != "default" and not ck.thorough and rounds != 2:
                            continue
                        n += 1
                        for rot in ((False, True) if ck.thorough else (bool(n % 2),)):
                            for shots in ((1, 2, 3) if ck.thorough else ((1, 3)[n % 2],)):
                                out.append(dict(fam=f.name, dx=dx, dz=dz, rounds=rounds, reset=reset, order=order, rot=rot, shots=shots,
                                                model="CircuitNoiseModel" if n % 3 else "NoiselessModel", seed=(None, 7, 0)[n % 3 if n % 2 else 1],
                                                kw=dict(init_data_qubit_id=5, init_ind=3) if n % 4 == 0 else {}))
    return out


def run(ck):
    it = configs(ck)
    ck.bounds = {"requests": len(it), "rounds": "0..3", "shots": "1..3", "sizes": "2x2..3x3 (4x3 thorough)", "outcomes": "all",
                 "layout orders": "as generated, reversed, interleaved"}
    ck.assumptions.append("the sampler is replaced by a stand-in with one free bit per outcome; stim's own sampling is trusted")
    ck.sample(it[0])
    ck.pmap(one, it)
