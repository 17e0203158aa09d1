import itertools

import numpy as np

from qmmc import world
from qmmc.core import Group

LEVEL = "exploration"
RULE = ("one evaluation = one (grid shape, decimation factors, in place or copy) decimated by the "
        "real code; at every node of the result the traveltimes of every station and phase are "
        "compared with those of the original at the same geographic position, found through the "
        "published coordinate conversions. Traveltimes are distinct at every node. Non-trivial: "
        "some factor above one.")
ASSUMPTIONS = []

STATIONS, PHASES = ("A", "B2"), ("P", "S")


def cases(tier):
    n = 6 if tier == "quick" else 9
    f = 3 if tier == "quick" else 4
    axis = [(c, d) for c in range(1, n + 1) for d in range(1, f + 1)]
    for x in axis:
        for y in axis[::1]:
            for inplace in (0, 1):
                yield [x, y, inplace]


def zaxis(tier):
    return [(1, 1), (2, 2), (3, 1), (4, 3), (5, 2), (6, 4), (7, 3)]


def tt(s, phase, ijk):
    i, j, k = ijk
    return 0.5 * (ord(phase) % 7) + s * 1000 + i * 100 + j * 10 + k + 1.0


def snapshot(lut):
    return (list(lut.node_count), list(lut.node_spacing), lut.ll_corner.tolist(),
            lut.ur_corner.tolist(),
            {(s, p): lut[s][p].copy() for s in STATIONS for p in PHASES})


def equal(a, b):
    return a[:4] == b[:4] and all(np.array_equal(a[4][k], b[4][k]) for k in a[4])


def run(case, ctx):
    (nx, fx), (ny, fy), inplace = case
    for nz, fz in zaxis(None):
        shape, f = (nx, ny, nz), (fx, fy, fz)
        sp = (1.0, 0.5, 0.25)
        lut = world.make_lut(shape, sp, STATIONS, PHASES, tt=tt,
                             kind="lcc_km" if (nx + ny) % 2 else "utm_m")
        orig = world.make_lut(shape, sp, STATIONS, PHASES, tt=tt,
                              kind="lcc_km" if (nx + ny) % 2 else "utm_m")
        before = snapshot(lut)
        out = lut.decimate(list(f), inplace=bool(inplace))
        label = f"{shape} / {f} {'in place' if inplace else 'copy'}"
        ctx.count((shape, f, inplace), nontrivial=max(f) > 1)
        if inplace:
            ctx.check(out is None or out is lut, "return", label)
            small = lut
        else:
            ctx.check(equal(snapshot(lut), before), "original-changed", label)
            small = out
        want_n = [1 + (n - 1) // d for n, d in zip(shape, f)]
        ctx.check(list(small.node_count) == want_n, "node-count",
                  lambda: f"{label}: {small.node_count}")
        ctx.check(np.allclose(small.node_spacing, np.array(sp) * f), "node-spacing", label)
        for s in STATIONS:
            for p in PHASES:
                ctx.check(small[s][p].shape == tuple(want_n), "table-shape",
                          lambda: f"{label}: {small[s][p].shape}")
        nodes = np.array(list(itertools.product(*[range(n) for n in want_n])))
        coords = small.index2coord(nodes)
        at = orig.index2coord(coords, inverse=True)
        # the position must be a node of the original, exactly
        ctx.check(np.allclose(orig.index2grid(at), small.index2grid(nodes), atol=1e-6),
                  "not-an-original-node", lambda: f"{label}")
        ctx.check(bool(np.all((at >= 0) & (at < np.array(shape)))), "outside-original", label)
        for s in STATIONS:
            for p in PHASES:
                want = orig[s][p][tuple(at.T)]
                have = small[s][p].ravel()
                ctx.check(np.array_equal(have, want), "traveltimes-detached",
                          lambda: f"{label}: {s} {p}: node 0 at original {at[0].tolist()} has "
                                  f"{have[0]}, original has {want[0]}")
        ll, ur = small.grid_corners[0], small.grid_corners[-1]
        ctx.check(np.allclose(small.ll_corner, ll) and np.allclose(small.ur_corner, ur),
                  "corners", lambda: f"{label}: {small.ll_corner} {small.ur_corner} {ll} {ur}")
        ctx.add(nodes_compared=len(nodes))
    ctx.sample(shape=shape, factors=f, inplace=inplace)


def twice_cases(tier):
    n = 7 if tier == "quick" else 9
    for c in range(1, n + 1):
        for f, g in itertools.product((1, 2, 3), repeat=2):
            for inplace in (0, 1):
                yield [c, f, g, inplace]


def run_twice(case, ctx):
    """Decimating a decimated table, and migrating-grade traveltimes stay attached."""
    c, f, g, inplace = case
    shape = (c, 3, 2)
    lut = world.make_lut(shape, (1.0, 1.0, 1.0), STATIONS, PHASES, tt=tt)
    orig = world.make_lut(shape, (1.0, 1.0, 1.0), STATIONS, PHASES, tt=tt)
    for d in (f, g):
        r = lut.decimate([d, 1, 1], inplace=bool(inplace))
        lut = lut if inplace else r
    nodes = np.array(list(itertools.product(*[range(n) for n in lut.node_count])))
    at = orig.index2coord(lut.index2coord(nodes), inverse=True)
    ctx.count(tuple(case))
    served = lut.serve_traveltimes(10)
    full = orig.serve_traveltimes(10)
    inside = np.all((at >= 0) & (at < np.array(shape)), axis=1)
    ctx.check(bool(inside.all()), "outside-original", str(case))
    ctx.check(np.array_equal(served.reshape(len(nodes), -1), full[tuple(at.T)]),
              "served-traveltimes-detached", str(case))


def groups():
    return [Group("decimate", cases, run), Group("twice", twice_cases, run_twice)]
