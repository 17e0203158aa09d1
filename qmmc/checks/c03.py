import itertools

import numpy as np

from qmmc import refs, world
from qmmc.core import Group

LEVEL = "exploration"
RULE = ("one evaluation = one real find_max_coa() call on one 4-D map (all maps over the "
        "alphabet for each shape) compared with the definition. Non-trivial: more than one "
        "node; distinct by map, shape and threads.")
ASSUMPTIONS = ["project compile flags (-Ofast); sums compared at relative tolerance 1e-9"]


def verify(ctx, m, shape, threads, label):
    from quakemigrate.core.lib import find_max_coa

    nodes, n = m.shape
    grid = m.reshape(*shape, n).copy()
    mc, mn, idx = (np.asarray(x) for x in find_max_coa(grid, threads))
    ctx.check(np.array_equal(grid, m.reshape(*shape, n)), "map-modified", label)
    ctx.check(mc.shape == mn.shape == idx.shape == (n,), "peak-shape", label)
    top = m.max(0)
    ctx.check(np.array_equal(mc, top), "peak-value",
              lambda: f"{label}: {mc.tolist()} != {top.tolist()} map {m.tolist()}")
    ok = bool(((idx >= 0) & (idx < nodes)).all()) and \
        np.array_equal(m[np.clip(idx, 0, nodes - 1), np.arange(n)], top)
    ctx.check(ok, "peak-node", lambda: f"{label}: {idx.tolist()} map {m.tolist()}")
    want = top * nodes / m.sum(0)
    ctx.check(refs.close(mn, want), "peak-normalised",
              lambda: f"{label}: {mn.tolist()} != {want.tolist()} map {m.tolist()}")
    return idx


def all_cases(tier):
    sizes = [(1, 1), (1, 4), (2, 1), (2, 3), (3, 2), (3, 3), (4, 2), (5, 1), (6, 1), (8, 1)]
    if tier == "thorough":
        sizes += [(2, 5), (5, 2), (4, 3), (10, 1), (6, 2)]
    for nodes, n in sizes:
        total = 3 ** (nodes * n)
        for lo in range(0, total, 1500):
            yield [nodes, n, lo, min(total, lo + 1500)]


def run_all(case, ctx):
    nodes, n, lo, hi = case
    alpha = np.array([0.25, 1.0, 7.5])
    shapes = [s for s in itertools.product(range(1, nodes + 1), repeat=3) if np.prod(s) == nodes]
    for k in range(lo, hi):
        digits, x = [], k
        for _ in range(nodes * n):
            digits.append(x % 3)
            x //= 3
        m = alpha[digits].reshape(nodes, n)
        shape, threads = shapes[k % len(shapes)], 1 + k % 3
        ctx.count((nodes, n, k), nontrivial=nodes > 1)
        verify(ctx, m, shape, threads, f"{case[:2]} #{k} shape {shape} threads {threads}")
    ctx.sample(map=m.tolist(), shape=shape, threads=threads)


def position_cases(tier):
    shapes = [(1, 1, 1), (3, 2, 4), (5, 5, 5), (1, 7, 2), (9, 1, 1), (2, 31, 3)]
    if tier == "thorough":
        shapes += [(11, 12, 13), (40, 3, 7)]
    for s in shapes:
        for n in (1, 2, 5, 40):
            for threads in (1, 2, 3, 5, 8, 16):
                yield [list(s), n, threads]


def run_position(case, ctx):
    """The maximum at every position in turn, over a varying background; and the
    coordinate of the reported node is that node's position."""
    shape, n, threads = case
    nodes = int(np.prod(shape))
    back = 1.0 + np.modf(np.sqrt(np.arange(2, 2 + nodes * n) * 3.0))[0].reshape(nodes, n)
    lut = world.make_lut(node_count=shape, spacing=(0.5, 0.75, 1.25), stations=("A",), phases=("P",))
    xyz = np.stack([g.ravel() for g in lut.grid_xyz], axis=1)
    for base in range(0, nodes, n):
        m = back.copy()
        for s in range(n):
            m[(base + s) % nodes, s] = 50.0 + s
        ctx.count((tuple(shape), n, threads, base), nontrivial=nodes > 1)
        idx = verify(ctx, m, shape, threads, f"{case} base {base}")
        if base % (7 * n) == 0:
            got = lut.coord2grid(lut.index2coord(idx, unravel=True))
            ctx.check(np.allclose(got, xyz[idx], atol=1e-6), "peak-coordinate",
                      lambda: f"{case}: {got.tolist()} != {xyz[idx].tolist()}")


def huge_cases(tier):
    yield [2, (1 << 30) + 3]
    if tier == "thorough":
        yield [1, (1 << 31) + 5]


def run_huge(case, ctx):
    from qmmc.aliasmem import Aliased
    from quakemigrate.core.lib import find_max_coa

    n, nodes = case
    mem = Aliased((nodes, 1, 1, n))
    mem.array[nodes // 2] = 1.0  # aliased region: nonzero background somewhere
    for s in range(n):
        mem.array[nodes - 1 - s, 0, 0, s] = 9.0
    mc, _, idx = find_max_coa(mem.array, 2)
    ctx.count(("huge", n, nodes))
    ctx.add(huge_elements=n * nodes)
    ok = all(idx[s] == nodes - 1 - s and mc[s] == 9.0 for s in range(n))
    mem.close()
    ctx.check(ok, "huge-map-addressing", f"{case}: {idx} {mc}")


def groups():
    return [Group("huge", huge_cases, run_huge), Group("all-maps", all_cases, run_all),
            Group("positions", position_cases, run_position)]
