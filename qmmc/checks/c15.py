import itertools

import numpy as np

from qmmc import world
from qmmc.core import Group

LEVEL = "exploration"
RULE = ("save-load / combine: one evaluation = one sequence of operations (save and load by either "
        "reader, combine with another table, decimate) on a small table, the whole state compared "
        "with a reference dictionary after every operation; serve: one evaluation = one "
        "availability subset in one order at one rate; interpolate: one evaluation = one cell "
        "point. Distinct by sequence / subset and rate / point.")
ASSUMPTIONS = ["pickle is trusted"]

ALL = ["A", "B2", "ZZ"]


def tt(salt):
    def f(s, phase, ijk):
        i, j, k = ijk
        return (0.37 + 0.011 * salt + 0.25 * s + 0.13 * (phase == "S")
                + 0.21 * i + 0.34 * j + 0.055 * k + 0.01 * i * j)
    return f


def make(stations, phases, salt=0, shape=(3, 2, 2), fraction=0.07, kind="lcc_km"):
    lut = world.make_lut(shape, (1.0, 0.5, 2.0), stations, phases, tt=tt(salt), kind=kind,
                         fraction_tt=fraction)
    return lut


def state(lut):
    return dict(
        fraction=lut.fraction_tt, phases=list(lut.phases), n=list(map(int, lut.node_count)),
        spacing=list(map(float, lut.node_spacing)), corners=np.asarray(lut.grid_corners).tolist(),
        proj=(lut.grid_proj.srs, lut.coord_proj.srs),
        stations=lut.station_data.to_dict("list"),
        tables={s: {p: t.tolist() for p, t in d.items()} for s, d in lut.traveltimes.items()},
        vm=str(lut.velocity_model))


OPS = ["save-read", "save-load", "save-init", "add-disjoint", "add-overlap", "add-phase",
       "add-other-grid", "add-nonlut", "max", "serve"]


def op_cases(tier):
    depth = 3 if tier == "quick" else 4
    for n in range(1, depth + 1):
        for seq in itertools.product(OPS, repeat=n):
            if seq.count("max") + seq.count("serve") > 1:
                continue
            yield [seq, len("".join(seq)) % 2]


def run_ops(case, ctx):
    from quakemigrate.io.core import read_lut
    from quakemigrate.lut import LUT

    seq, utm = case
    kind = "utm_m" if utm else "lcc_km"
    lut = make(["A", "B2"], ["P", "S"], kind=kind)
    lut.velocity_model = "model 1"
    want = state(lut)
    d = ctx.tmp()
    ctx.count(str(case), nontrivial=len(seq) > 1)
    for k, op in enumerate(seq):
        label = f"{seq[:k + 1]}"
        if op.startswith("save"):
            f = d / f"sub{k}" / "table.LUT"
            lut.save(str(f))
            if op == "save-read":
                new = read_lut(str(f))
            elif op == "save-load":
                new = LUT()
                new.load(str(f))
            else:
                new = LUT(lut_file=str(f))
            ctx.check(new == lut, "reloaded-not-equal", label)
            lut = new
        elif op in ("add-disjoint", "add-overlap", "add-phase"):
            st, ph, salt = {"add-disjoint": (["ZZ"], ["P", "S"], 1),
                            "add-overlap": (["B2", "ZZ"], ["P", "S"], 2),
                            "add-phase": (["B2"], ["S"], 3)}[op]
            other = make(st, ph, salt, kind=kind)
            ostate = state(other)
            ctx.check(lut == other, "same-grid-not-equal", label)
            res = lut + other
            for s in st:
                if s not in want["tables"]:
                    want["tables"][s] = ostate["tables"][s]
            ctx.check(state(other) == ostate, "addend-changed", label)
            lut = res
        elif op == "add-other-grid":
            other = make(["Q"], ["P", "S"], 4, shape=(3, 2, 3), kind=kind)
            ctx.check(not lut == other, "other-grid-equal", label)
            lut + other
        elif op == "add-nonlut":
            lut = lut + 5
        elif op == "max":
            top = max(np.max(want["tables"][s][p]) for s in want["stations"]["Name"]
                      for p in want["phases"])
            ctx.check(abs(lut.max_traveltime - top) < 1e-12, "max-traveltime", label)
        elif op == "serve":
            got = lut.serve_traveltimes(7)
            exp = np.stack([np.rint(np.array(want["tables"][s][p]) * 7) for p in want["phases"]
                            for s in want["stations"]["Name"]], -1)
            ctx.check(np.array_equal(got, exp), "served", label)
        have = state(lut)
        for key in want:
            if have[key] != want[key]:
                ctx.fail(f"state-{key}", f"{label}: {str(have[key])[:300]} instead of "
                                         f"{str(want[key])[:300]}")
    ctx.sample(sequence=seq)


def serve_cases(tier):
    keys = [(s, p) for p in ("P", "S") for s in ALL]
    for bits in itertools.product((0, 1), repeat=6):
        if any(bits):
            for order in range(4 if tier == "quick" else 24):
                yield [bits, order]
    _ = keys


def run_serve(case, ctx):
    bits, order = case
    keys = [(s, p) for p in ("P", "S") for s in ALL]
    perms = list(itertools.permutations(range(6)))
    perm = perms[(order * 157) % len(perms)]
    lut = make(ALL, ["P", "S"])
    avail = {f"{keys[k][0]}_{keys[k][1]}": bits[k] for k in perm}
    rows = [keys[k] for k in perm if bits[k]]
    for sr in (1, 3, 50, 100, 250, 0.5):
        got = lut.serve_traveltimes(sr, avail)
        ctx.count((bits, order, sr))
        exp = np.stack([np.asarray(lut.traveltimes[s][p]) for s, p in rows], -1) * sr
        ctx.check(got.shape == exp.shape and np.issubdtype(got.dtype, np.integer)
                  and got.dtype.itemsize == 4, "served-shape", lambda: f"{case}: {got.shape} {got.dtype}")
        ctx.check(bool(np.all(np.abs(got - exp) <= 0.5 + 1e-9)), "served-nearest-sample",
                  lambda: f"{case} rate {sr}: off by {np.abs(got - exp).max()} samples")
    full = lut.serve_traveltimes(50)
    exp = np.stack([np.asarray(lut.traveltimes[s][p]) for p in lut.phases for s in ALL], -1) * 50
    ctx.check(bool(np.all(np.abs(full - exp) <= 0.5 + 1e-9)), "served-all", str(case))


def interp_cases(tier):
    n = 3 if tier == "quick" else 4
    for shape in itertools.product(range(2, n + 1), repeat=3):
        for kind in (0, 1):
            yield [shape, kind]


def run_interp(case, ctx):
    shape, kind = case
    stations = ALL

    def table(s, phase, ijk):
        i, j, k = ijk
        if kind:
            return ((i * 7 + j * 13 + k * 29 + s * 5 + ord(phase)) % 11) * 0.37
        return tt(1)(s, phase, ijk)

    lut = world.make_lut(shape, (1.0, 0.5, 2.0), stations, ["P", "S"], tt=table)
    for base in itertools.product(*[range(n - 1) for n in shape]):
        for fr in itertools.product((0.0, 0.25, 0.5, 1.0), repeat=3):
            ijk = np.array(base, float) + fr
            ctx.count((shape, kind, tuple(ijk)))
            for phase in ("P", "S"):
                for st in (None, "B2", ["ZZ", "A"]):
                    got = np.atleast_1d(lut.traveltime_to(phase, [ijk], st))
                    names = stations if st is None else [st] if isinstance(st, str) else st
                    for name, g in zip(names, got):
                        t = np.asarray(lut.traveltimes[name][phase])
                        w = 0.0
                        corners = []
                        for c in itertools.product((0, 1), repeat=3):
                            wt = np.prod([f if b else 1 - f for f, b in zip(fr, c)])
                            v = t[tuple(np.array(base) + c)]
                            w += wt * v
                            if wt > 0:
                                corners.append(v)
                        ctx.check(min(corners) - 1e-9 <= g <= max(corners) + 1e-9,
                                  "interpolated-outside-neighbours",
                                  lambda: f"{case} {phase} {name} at {ijk}: {g} not in "
                                          f"[{min(corners)}, {max(corners)}]")
                        if all(f in (0.0, 1.0) for f in fr):
                            ctx.check(abs(g - w) < 1e-9, "interpolated-at-node",
                                      lambda: f"{case} {name} {ijk}: {g} != {w}")
                        ctx.check(len(got) == len(names), "stations-served", str(case))


def groups():
    return [Group("operations", op_cases, run_ops), Group("serve", serve_cases, run_serve),
            Group("interpolate", interp_cases, run_interp)]
