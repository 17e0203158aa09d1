import itertools

import numpy as np

from qmmc import refs
from qmmc.core import Group

LEVEL = "exploration"
RULE = ("one evaluation = one real migrate() call on one onset array compared, node by "
        "node and sample by sample, with the definition; every call's grid contains a "
        "node for every traveltime combination. Non-trivial: at least two different "
        "onset values, so that misplacing a sample is visible; distinct by onsets, "
        "pads, grid shape, threads and available count.")
ASSUMPTIONS = ["traveltimes never exceed the trailing pad (guaranteed by the callers' padding)",
               "compiled with the project's -Ofast -fopenmp flags; relative tolerance 1e-9"]

ALPHA = [0.0, 0.4, 2.5]


def call(onsets, tts, first, last, avail, threads):
    from quakemigrate.core.lib import migrate

    return migrate(onsets, tts, first, last, avail, threads)


def value_cases(tier):
    # (n_onsets, total samples, first, last): full enumeration of the onset arrays is
    # split over the prefix of the first row
    sizes = [(1, 1, 0, 0), (1, 3, 0, 0), (1, 4, 1, 1), (1, 5, 0, 3), (1, 6, 2, 1),
             (1, 6, 0, 2), (1, 6, 2, 0), (2, 3, 1, 1), (2, 3, 0, 1), (2, 4, 1, 1),
             (2, 4, 1, 2), (3, 3, 1, 1), (3, 2, 0, 1)]
    if tier == "thorough":
        sizes += [(1, 8, 2, 3), (1, 9, 1, 2), (2, 5, 1, 2), (2, 5, 1, 1), (3, 3, 0, 1),
                  (4, 2, 0, 1), (3, 4, 1, 2)]
    for k, t, first, last in sizes:
        total = len(ALPHA) ** (k * t)
        step = 400
        for lo in range(0, total, step):
            yield [k, t, first, last, lo, min(total, lo + step)]


def run_values(case, ctx):
    k, t, first, last, lo, hi = case
    tts = np.array(list(itertools.product(range(-1, last + 1), repeat=k)), dtype=np.int32)
    n_nodes = len(tts)
    shapes = [(n_nodes, 1, 1), (1, n_nodes, 1), (1, 1, n_nodes)]
    for a in range(2, n_nodes):
        if n_nodes % a == 0:
            shapes.append((a, n_nodes // a, 1))
            shapes.append((1, a, n_nodes // a))
    for idx in range(lo, hi):
        digits = []
        x = idx
        for _ in range(k * t):
            digits.append(ALPHA[x % len(ALPHA)])
            x //= len(ALPHA)
        onsets = np.array(digits).reshape(k, t)
        shape = shapes[idx % len(shapes)]
        threads = 1 + idx % 4
        avail = k if idx % 7 else k + 1
        grid = np.ascontiguousarray(tts.reshape(*shape, k))
        before, gbefore = onsets.copy(), grid.copy()
        got = call(onsets, grid, first, last, avail, threads)
        want = refs.migrate_ref(before, gbefore, first, last, avail)
        key = (k, t, first, last, idx, shape, threads, avail)
        ctx.count(key, nontrivial=len(set(digits)) > 1)
        ctx.add(nodes_compared=n_nodes, values_compared=int(want.size))
        ctx.check(np.shape(got) == want.shape, "map-shape",
                  lambda: f"{np.shape(got)} != {want.shape} for {key}")
        ctx.check(refs.close(got, want), "coalescence-value",
                  lambda: f"{key}\nonsets {before.tolist()}\ntt {gbefore.tolist()}\n"
                          f"got {np.asarray(got).tolist()}\nwant {want.tolist()}")
        ctx.check(np.array_equal(onsets, before), "onsets-modified", str(key))
        ctx.check(np.array_equal(grid, gbefore), "traveltimes-modified", str(key))
    ctx.sample(onsets=before.tolist(), first=first, last=last, threads=threads,
               nodes=n_nodes)


def large_cases(tier):
    # distinct values everywhere, realistic sizes, every thread count: any misrouted
    # row, node or sample changes the result
    for k in (1, 2, 3, 5, 8, 13):
        for first, last in ((0, 0), (0, 7), (5, 0), (3, 9), (20, 31)):
            for shape in ((1, 1, 1), (1, 1, 7), (7, 1, 1), (2, 3, 4), (4, 3, 5)):
                for n in (1, 2, 17):
                    yield [k, first, last, list(shape), n]
    if tier == "thorough":
        for k in (21, 40):
            for shape in ((9, 8, 7), (13, 1, 11)):
                for n in (1, 64, 257):
                    yield [k, 40, 60, list(shape), n]


def run_large(case, ctx):
    k, first, last, shape, n = case
    t = n + first + last
    nodes = int(np.prod(shape))
    onsets = 0.02 + np.modf(np.sqrt(np.arange(2, 2 + k * t) * 7.0))[0].reshape(k, t) * 5
    grid = ((np.arange(nodes * k) * 2654435761 % 1000003) % (last + 2) - 1)
    grid = grid.astype(np.int32).reshape(*shape, k)
    want = refs.migrate_ref(onsets, grid, first, last, k)
    for threads in (1, 2, 3, 4, 5, 8, 16):
        got = call(onsets.copy(), grid, first, last, k, threads)
        ctx.count((tuple(shape), k, first, last, n, threads))
        ctx.add(nodes_compared=nodes, values_compared=int(want.size))
        ctx.check(np.shape(got) == want.shape, "map-shape", lambda: str(case))
        ctx.check(refs.close(got, want), "coalescence-value",
                  lambda: f"{case} threads={threads}: max dev "
                          f"{np.max(np.abs(np.asarray(got) - want))}")


def clip_cases(tier):
    vals = [-1.0, 0.0, 1e-300, 0.005, 0.00999, 0.01, 0.0101, 1.0, 100.0, 1e6]
    for a in vals:
        for b in vals:
            yield [a, b]


def run_clip(case, ctx):
    a, b = case
    for pos in range(3):
        onsets = np.ones((2, 3))
        onsets[0, pos], onsets[1, 2 - pos] = a, b
        grid = np.zeros((2, 1, 1, 2), np.int32)
        ctx.count((a, b, pos))
        got = call(onsets, grid, 0, 0, 2, 1)
        ctx.check(refs.close(got, refs.migrate_ref(onsets, grid, 0, 0, 2)), "clip-value",
                  lambda: f"{case}: {np.asarray(got).tolist()}")


def refuse_cases(tier):
    for k in range(1, 5):
        for luts in range(1, 6):
            yield [k, luts]


def run_refuse(case, ctx):
    k, luts = case
    onsets = np.ones((k, 8)) * 2.0
    grid = np.zeros((2, 2, 1, luts), np.int32)
    ctx.count((k, luts))
    try:
        got = call(onsets, grid, 1, 1, k, 2)
    except ValueError:
        ctx.check(k != luts, "refused-valid", str(case))
        return
    ctx.check(k == luts, "mismatch-accepted", str(case))
    ctx.check(refs.close(got, np.full((2, 2, 1, 6), 2.0)), "coalescence-value", str(case))


def huge_cases(tier):
    yield [1 << 16, (1 << 15) + 5]
    if tier == "thorough":
        yield [3, ((1 << 31) // 3) + 9]


def run_huge(case, ctx):
    """More than 2^31 map elements (on aliased memory): indices must not wrap."""
    from qmmc.aliasmem import Aliased
    import quakemigrate.core.lib as lib

    n, nodes = case
    onsets = np.linspace(0.5, 4.0, n + 3)[np.newaxis, :].copy()
    grid = np.zeros((nodes, 1, 1, 1), np.int32)
    grid[-3:, 0, 0, 0] = [0, 1, 2]
    want = refs.migrate_ref(onsets, grid[-3:], 1, 2, 1)
    made = []
    real_zeros = np.zeros

    def zeros(shape, *args, **kwargs):
        shp = shape if isinstance(shape, tuple) else (shape,)
        if int(np.prod([int(s) for s in shp], dtype=object)) > (1 << 30):
            made.append(Aliased(shp))
            return made[-1].array
        return real_zeros(shape, *args, **kwargs)

    np.zeros = zeros
    try:
        got = lib.migrate(onsets, grid, 1, 2, 1, 4)
    finally:
        np.zeros = real_zeros
    ctx.count(("huge", n, nodes))
    ctx.add(huge_elements=n * nodes)
    ok = refs.close(got[-3:], want)
    del got
    for m in made:
        m.close()
    ctx.check(ok, "huge-map-addressing", str(case))


def groups():
    return [
        Group("huge", huge_cases, run_huge),
        Group("values", value_cases, run_values),
        Group("large", large_cases, run_large),
        Group("clip", clip_cases, run_clip),
        Group("refuse", refuse_cases, run_refuse),
    ]
