import itertools

import numpy as np
from obspy import UTCDateTime

from qmmc import locatelib, world
from qmmc.core import Group

LEVEL = "exploration"
RULE = ("one evaluation = one 4-D coalescence map located by the real QuakeScan.locate: a single "
        "station whose traveltimes give every node its own stretch of the onset, so that any map "
        "whatever can be put in; the .event file is compared with the largest node, an independent "
        "interpolation, Gaussian fit and covariance of the same map. Distinct by map, grid and units; "
        "non-trivial: more than one node.")
ASSUMPTIONS = ["files carry X and Y to six decimals of a degree and depths to a metre",
               "the Gaussian fit is compared with the independent one where the fit is well "
               "conditioned (condition number below 1e6)"]

SR = 10
T0 = UTCDateTime("2016-02-29T12:00:00")
KM = {"lcc_km": 1.0, "lcc_m": 1000.0, "utm_km": 1.0}


def locate_map(ctx, series, shape, spacing, kind="lcc_km", mw=1):
    """series: (nodes, 4 mw + 1) coalescence. Returns (event row or None, lut)."""
    n, nt = series.shape
    half = nt // 2
    width = nt + 2
    lut = world.make_lut(shape, spacing, ["S"], ["P"], kind=kind,
                         tt=lambda s, p, ijk: (np.arange(n).reshape(shape) * width) / SR)
    i0 = world.sample_index(T0, SR)

    def value(st, ph, idx):
        k = idx - i0 + half
        node, t = np.floor_divide(k, width), np.mod(k, width)
        ok = (node >= 0) & (node < n) & (t < nt)
        return np.where(ok, series[np.clip(node, 0, n - 1), np.clip(t, 0, nt - 1)], 0.02)

    onset = world.onset_class()(["S"], ["P"], SR, value, pre=0.2)
    d = ctx.tmp()
    scan = locatelib.make_scan(d, lut, world.FakeArchive(["S"]), onset, mw=mw / SR)
    scan.locate(trigger_file=locatelib.write_trigger_file(d / "t.csv",
                                                          locatelib.trigger_rows([T0])))
    ev = locatelib.outputs(d)["events"]
    return (next(iter(ev.values()))[0] if ev else None), lut


def steady(m):
    """The same map at every sample, strongest at the trigger time."""
    return m.reshape(-1, 1) * np.array([0.5, 0.8, 1.0, 0.7, 0.4])


def position(row, lut, pre=""):
    """Location in fractional nodes from the lower-left corner."""
    c = [float(row[f"{pre}{a}"]) for a in "XYZ"]
    return (lut.coord2grid([c])[0] - lut.ll_corner) / lut.node_spacing


# --- independent estimates --------------------------------------------------------------
FINE = {}


def fine(k):
    """Cubic radial interpolation from k^3 nodes to tenths of a node."""
    if k not in FINE:
        g = np.stack(np.meshgrid(*[np.arange(k)] * 3, indexing="ij"), -1).reshape(-1, 3).astype(float)
        f = np.stack(np.meshgrid(*[np.arange(10 * (k - 1) + 1) / 10] * 3, indexing="ij"),
                     -1).reshape(-1, 3)
        a = np.linalg.norm(g[:, None] - g[None], axis=-1) ** 3
        ainv = np.linalg.inv(a)
        d2 = (f ** 2).sum(1)[:, None] + (g ** 2).sum(1)[None] - 2 * f @ g.T
        FINE[k] = f, np.maximum(d2, 0) ** 1.5 @ ainv
    return FINE[k]


def check_spline(ctx, label, m, got):
    top = float(m.max())
    peaks = np.argwhere(m >= top * (1 - 1e-9))
    near = peaks[np.abs(peaks - got).max(1).argmin()]
    off = got - near
    win = [(max(0, i - 2), min(n, i + 3)) for i, n in zip(near, m.shape)]
    sizes = {b - a for a, b in win}
    full = sizes == {5}
    on_node = bool(np.all(np.abs(off) < 2e-3))
    ctx.check(bool(np.all(np.abs(off) < 2.002)), "spline-far-from-peak",
              lambda: f"{label}: at {got}, largest node {near}")
    ctx.check(bool(np.all(got > -2e-3) and np.all(got < np.array(m.shape) - 1 + 2e-3)),
              "spline-outside-grid", lambda: f"{label}: {got}")
    if len(sizes) > 1:
        ctx.check(on_node, "edge-peak-not-at-node", lambda: f"{label}: {got}, largest node {near}")
        return
    if sizes == {1}:
        return
    if not full and on_node:
        return
    k = sizes.pop()
    cut = m[tuple(slice(a, b) for a, b in win)]
    pos, mat = fine(k)
    surf = mat @ (cut.ravel() / top)
    rel = got - [a for a, b in win]
    tenth = np.rint(rel * 10).astype(int)
    ctx.check(bool(np.all(np.abs(rel * 10 - tenth) < 2e-2)), "spline-not-on-fine-grid",
              lambda: f"{label}: {rel}")
    val = surf[np.ravel_multi_index(tuple(np.clip(tenth, 0, 10 * (k - 1))), (10 * (k - 1) + 1,) * 3)]
    best = surf.max()
    ctx.check(val > best - 1e-6 * abs(best), "spline-not-at-maximum",
              lambda: f"{label}: at {got} the interpolated map is {val}, its maximum {best} "
                      f"at {pos[surf.argmax()] + [a for a, b in win]}")
    ctx.add(interpolated=1)


def smooth(m):
    """Two passes of a Gaussian (0.8 nodes) as wide as the grid, the second one mirrored, so that
    grids with an even number of nodes (whose kernel is centred between nodes) do not shift."""
    out = m
    for _ in range(2):
        for ax, n in enumerate(m.shape):
            k = np.exp(-(np.arange(n) - (n - 1) / 2) ** 2 / (2 * 0.8 ** 2))
            full = np.apply_along_axis(lambda v: np.convolve(v, k), ax, out)
            out = np.take(full, range((n - 1) // 2, (n - 1) // 2 + n), axis=ax)
        out = out[::-1, ::-1, ::-1]
    return out / out.max()


def gaussian_fit(m):
    """Centre (nodes), marginal sigmas along the axes (nodes, halved as published) or None when ill conditioned."""
    s = smooth(m)
    shape = s.shape
    srt = np.sort(s.ravel())
    if len(srt) > 1 and srt[-1] - srt[-2] < 1e-7:
        return None                          # the largest smoothed node is a rounding tie
    ijk = np.unravel_index(s.argmax(), shape)
    sl = tuple(slice(max(0, i - 3), min(n, i + 4)) for i, n in zip(ijk, shape))
    w = s[sl]
    off = [np.arange(x.start, x.stop) - i for x, i in zip(sl, ijk)]
    x, y, z = (g.ravel() for g in np.meshgrid(*off, indexing="ij"))
    v = (w - s.mean()).ravel()
    if np.any(np.abs(v) < 1e-9):
        return None                          # whether it is clipped depends on rounding
    y_ = -np.log(np.clip(v, 1e-300, None))
    use = w.ravel() > 0
    a = np.stack([x * x, y * y, z * z, x * y, x * z, y * z, x, y, z, np.ones_like(x)], 1).astype(float)
    p, _, rank, _ = np.linalg.lstsq(a[use], y_[use], rcond=None)
    if rank < 10:
        return None
    g = np.array([[2 * p[0], p[3], p[4]], [p[3], 2 * p[1], p[5]], [p[4], p[5], 2 * p[2]]])
    if np.linalg.cond(g) > 1e6:
        return None
    loc = -np.linalg.solve(g, p[6:9])
    egv, vec = np.linalg.eigh(g / 2)
    cov = vec @ np.diag(0.25 * 0.5 / np.maximum(np.abs(egv), 1e-10)) @ vec.T
    return loc + ijk, np.sqrt(np.diag(cov))


def check_gaussian(ctx, label, m, row, lut, km):
    got = position(row, lut, "GAU_")
    err = np.array([float(row[f"GAU_Err{a}"]) for a in "XYZ"])
    ctx.check(bool(np.all(np.isfinite(err)) and np.all(err >= 0)), "gaussian-uncertainty",
              lambda: f"{label}: {err}")
    ref = gaussian_fit(m)
    if ref is None or np.abs(ref[0]).max() > 40:
        return
    loc, sg = ref
    ctx.check(bool(np.all(np.abs(got - loc) < 5e-3 + 1e-4 * np.abs(loc))), "gaussian-location",
              lambda: f"{label}: {got}, fitted separately {loc}")
    want = sg * np.asarray(lut.node_spacing)
    tol = 6e-4 if km == 1 else 0.6
    ctx.check(bool(np.all(np.abs(err - want) < tol + 1e-3 * want)), "gaussian-uncertainty",
              lambda: f"{label}: {err}, fitted separately {want}")
    ctx.add(gaussians=1)


def check_covariance(ctx, label, m, row, lut, km):
    w = np.where(m > 0.9 * m.max(), m, 0.0)
    tot = w.sum()
    err = []
    for ax, (n, h) in enumerate(zip(m.shape, lut.node_spacing)):
        x = np.arange(n) * h
        ws = w.sum(axis=tuple(a for a in range(3) if a != ax))
        mean = (ws * x).sum() / tot
        err.append(np.sqrt((ws * (x - mean) ** 2).sum() / tot))
    got = [float(row[f"COV_Err{a}"]) for a in "XYZ"]
    tol = 6e-4 if km == 1 else 0.6
    ctx.check(bool(np.all(np.abs(np.array(got) - err) < tol + 1e-4 * np.array(err))),
              "covariance-uncertainty", lambda: f"{label}: {got}, by definition {err}")
    g = float(np.prod(err)) ** (1 / 3)
    ctx.check(abs(float(row["COV_Err_XYZ"]) - g) < tol + 2e-3 * g, "covariance-mean",
              lambda: f"{label}: {row['COV_Err_XYZ']}, {g}")


def check_map(ctx, label, m, spacing, kind="lcc_km", gaussian=True):
    km = KM[kind]
    m = m / m.max()
    row, lut = locate_map(ctx, steady(m * 8.0), m.shape, tuple(km * s for s in spacing), kind)
    ctx.check(row is not None, "no-event", label)
    if row is None:
        return None
    ctx.check(UTCDateTime(row["DT"]) == T0, "origin-time", lambda: f"{label}: {row['DT']}")
    ctx.check(abs(float(row["COA"]) - 8.0) < 5e-3, "coalescence", lambda: f"{label}: {row['COA']}")
    got = position(row, lut)
    check_spline(ctx, label, m, got)
    if gaussian:
        check_gaussian(ctx, label, m, row, lut, km)
    check_covariance(ctx, label, m, row, lut, km)
    err = np.array([float(row[f"GAU_Err{a}"]) for a in "XYZ"])
    return got, position(row, lut, "GAU_"), err, lut


# --- peaks everywhere -------------------------------------------------------------------
def pattern(which, r):
    """Values at offsets r (3, ...) from the peak, in nodes."""
    x, y, z = r
    if which == "round":
        return 0.3 + 0.7 * np.exp(-(x ** 2 + y ** 2 + z ** 2) / (2 * 1.9 ** 2))
    if which == "skew":
        q = (x * x / 3.1 + y * y / 1.9 + z * z / 5.3 + 0.28 * x * y - 0.21 * y * z)
        wig = 0.01 * np.sin(3 * x + 5 * y - 2 * z) * (q > 0)
        return 0.25 + 0.7 * np.exp(-0.5 * q * (1 + 0.12 * np.tanh(x - y + z))) + wig
    if which == "rough":
        h = (x * 7 + y * 13 + z * 29 + x * y * 3 + y * z * 5) % 17 / 17.0
        near = np.maximum(np.maximum(abs(x), abs(y)), abs(z))
        return np.where(near == 0, 1.0, 0.2 + 0.75 * h / (1 + 0.4 * near))
    raise ValueError(which)


def place(which, shape, peak):
    r = np.indices(shape).astype(float) - np.reshape(peak, (3, 1, 1, 1))
    return pattern(which, r)


def position_cases(tier):
    shapes = [(7, 6, 8), (3, 3, 4), (5, 5, 5)] if tier == "quick" else [
        (7, 6, 8), (3, 3, 4), (5, 5, 5), (9, 10, 11), (2, 2, 2), (2, 7, 3), (6, 6, 6)]
    for shape in shapes:
        for peak in np.ndindex(*shape):
            for which in ("round", "skew", "rough"):
                if tier == "quick" and shape == (7, 6, 8) and which == "round":
                    continue
                yield [list(shape), list(peak), which, [10.0, 10.0, 10.0], "lcc_km"]
    for kind, sp in (("lcc_m", [10.0, 10.0, 10.0]), ("utm_km", [5.0, 8.0, 4.0]),
                     ("lcc_km", [10.0, 5.0, 2.5])):
        for peak in itertools.product((0, 1, 2, 3, 5), (1, 3, 6), (0, 2, 3)):
            yield [[6, 7, 5], list(peak), "skew", sp, kind]


def run_position(case, ctx):
    shape, peak, which, sp, kind = case
    ctx.count(str(case), nontrivial=True)
    check_map(ctx, f"{which} pattern at {peak} of {shape}, spacing {sp}, {kind}",
              place(which, tuple(shape), peak), sp, kind)


# --- moving and mirroring ---------------------------------------------------------------
def compact(seed, shape, peak):
    """A lopsided pattern of limited extent on a flat background."""
    m = np.full(shape, 0.12)
    rr = list(itertools.product((-2, -1, 0, 1, 2), repeat=3))
    for r in rr:
        x, y, z = r
        v = np.exp(-(x * x * (0.3 + 0.05 * seed) + y * y * 0.25 + z * z * 0.4
                     + 0.15 * x * y - 0.1 * (seed - 1) * y * z) / 2)
        h = ((x + 3) * 31 + (y + 3) * 17 + (z + 3) * 7 + seed * 5) % 11 / 11.0
        m[tuple(np.add(peak, r))] = 0.2 + 0.8 * v * (1 if r == (0, 0, 0) else 0.9 + 0.08 * h)
    return m


MOVES = [(2, 2, 2), (-2, 2, 0), (1, 0, 0), (0, -1, 0), (0, 0, 2), (1, -1, 2), (-2, -2, -2), (2, 0, -1)]


def shift_cases(tier):
    moves = MOVES if tier == "quick" else list(itertools.product((-2, -1, 0, 1, 2), repeat=3))
    for seed in (0, 1, 2):
        for mv in moves:
            yield [seed, list(mv)]


def run_shift(case, ctx):
    seed, mv = case
    shape, c = (17, 17, 17), np.array([8, 8, 8])
    a = check_map(ctx, f"pattern {seed}", compact(seed, shape, c), [10.0] * 3)
    b = check_map(ctx, f"pattern {seed} moved by {mv}", compact(seed, shape, c + mv), [10.0] * 3)
    if a is None or b is None:
        return
    for k, name in enumerate(("spline", "gaussian")):
        d = b[k] - a[k] - mv
        ctx.check(bool(np.all(np.abs(d) < 2e-3)), f"{name}-does-not-follow",
                  lambda: f"pattern {seed} moved by {mv}: estimate moved by {b[k] - a[k]}")
    ctx.check(bool(np.all(np.abs(a[2] - b[2]) < 2e-3 + 1e-3 * a[2])), "uncertainty-does-not-follow",
              lambda: f"pattern {seed} moved by {mv}: {a[2]} -> {b[2]}")
    ctx.count(str(case), nontrivial=True)


def symmetric_cases(tier):
    classes = [c for c in itertools.product((0, 1), repeat=3) if any(c)]
    vals = (0.3, 0.75)
    for k, v in enumerate(itertools.product(vals, repeat=len(classes))):
        if tier == "quick" and k % 2:
            continue                    # the second half mirrors values of the last class
        yield list(v)


def run_symmetric(v, ctx):
    shape, c = (11, 11, 11), (5, 5, 5)
    classes = [x for x in itertools.product((0, 1), repeat=3) if any(x)]
    val = dict(zip(classes, v))
    m = np.full(shape, 0.1)
    for r in itertools.product((-1, 0, 1), repeat=3):
        m[tuple(np.add(c, r))] = val.get(tuple(abs(x) for x in r), 1.0)
    out = check_map(ctx, f"symmetric pattern {v}", m, [10.0] * 3)
    if out is not None:
        for k, name in enumerate(("spline", "gaussian")):
            ctx.check(bool(np.all(np.abs(out[k] - c) < 2e-3)), f"{name}-off-centre",
                      lambda: f"symmetric pattern {dict(zip(classes, v))} about {c}: {out[k]}")
    ctx.count(str(v), nontrivial=True)


def axes_cases(tier):
    for perm in itertools.permutations((2.0, 1.3, 0.9)):
        for sp in ([10.0, 10.0, 10.0], [10.0, 5.0, 2.5], [4.0, 8.0, 6.0]):
            for peak in ((5, 5, 5), (6, 5, 4)):
                yield [list(perm), sp, list(peak)]


def run_axes(case, ctx):
    """The uncertainties belong to their own axes: a pattern wider along one axis (in nodes) is
    more uncertain along it."""
    sig, sp, peak = case
    shape = (12, 11, 11)
    r = np.indices(shape).astype(float) - np.reshape(peak, (3, 1, 1, 1))
    m = 0.2 + 0.8 * np.exp(-0.5 * sum((x / s) ** 2 for x, s in zip(r, sig)))
    out = check_map(ctx, f"widths {sig}, spacing {sp}, peak {peak}", m, sp)
    if out is not None:
        got, gau, err, lut = out
        nodes = err / np.array(sp)
        order = list(np.argsort(nodes)) == list(np.argsort(sig))
        ctx.check(order, "uncertainty-of-another-axis", lambda: f"widths {sig}: uncertainties in nodes {nodes}")
        for k, name in enumerate(("spline", "gaussian")):
            ctx.check(bool(np.all(np.abs(out[k] - peak) < (0.5 if k else 2e-3))), f"{name}-off-centre",
                      lambda: f"widths {sig}, spacing {sp}, peak {peak}: {out[k]}")
    ctx.count(str(case), nontrivial=True)


# --- grids one or two nodes thick ---------------------------------------------------------
def thin_cases(tier):
    shapes = [(2, 1, 1), (1, 4, 1), (1, 1, 3), (5, 6, 1), (6, 1, 5), (1, 5, 6), (12, 11, 1)]
    for shape in shapes:
        peaks = list(np.ndindex(*shape))
        if tier == "quick" and len(peaks) > 40:
            peaks = peaks[::5]
        for peak in peaks:
            yield [list(shape), list(peak)]


def run_thin(case, ctx):
    shape, peak = case
    out = check_map(ctx, f"grid {shape}, peak at {peak}", place("skew", tuple(shape), peak),
                    [10.0] * 3, gaussian=False)
    ctx.count(str(case), nontrivial=max(shape) > 1)
    if out is not None:
        for ax, n in enumerate(shape):
            ctx.check(n > 1 or abs(out[1][ax]) < 2e-3, "gaussian-off-the-grid",
                      lambda: f"grid {shape}, peak at {peak}: Gaussian location at {out[1]} nodes")
        ctx.check(bool(np.all(np.isfinite(out[1]))), "gaussian-off-the-grid", str(case))


# --- all small maps ---------------------------------------------------------------------------
def small_cases(tier):
    for m in itertools.product((1.0, 2.0) if tier == "quick" else (1.0, 2.0, 3.5), repeat=8):
        yield [[2, 2, 2], list(m)]
    for shape in ((3, 2, 1), (1, 2, 3)):
        for m in itertools.product((1.0, 2.0, 3.5), repeat=6):
            if tier != "quick" or m[0] < 2:
                yield [list(shape), list(m)]


def run_small(case, ctx):
    shape, m = case
    check_map(ctx, f"map {m} on {shape}", np.array(m).reshape(shape), [10.0] * 3)
    ctx.count(str(case), nontrivial=len(set(m)) > 1)


# --- origin time and marginalisation ---------------------------------------------------------
def time_cases(tier):
    mids = 7 if tier == "quick" else 9
    for bits in range(2 ** mids):
        for at in range(9):
            for h in (2.0, 4.0):
                yield [mids, bits, at, h]


def run_times(case, ctx):
    """Two nodes far enough for no interpolation: one carries a word over {1, 3}, the other a
    pulse; the origin time is the largest value at any node, the location the node of the
    largest total within the marginal window about it."""
    mids, bits, at, h = case
    a = np.full(9, 1.0)
    pad = (9 - mids) // 2
    a[pad:pad + mids] += 2.0 * np.array([bits >> k & 1 for k in range(mids)])
    a += 0.001 * np.arange(9)            # no exact ties
    b = np.full(9, 1.25)
    b[at] = h
    series = np.stack([a, b])
    row, lut = locate_map(ctx, series, (2, 1, 1), (10.0, 10.0, 10.0), mw=2)
    top = series.max(0)
    k = int(top.argmax())
    label = f"node 1 {a.tolist()}, node 2 {b.tolist()}"
    ctx.count((tuple(a), tuple(b)), nontrivial=True)
    if abs(k - 4) >= 2:
        ctx.check(row is None, "event-outside-window", label)
        return
    ctx.check(row is not None, "no-event", label)
    if row is None:
        return
    ctx.check(abs(UTCDateTime(row["DT"]) - (T0 + (k - 4) / SR)) < 1e-6, "origin-time",
              lambda: f"{label}: {row['DT']}, largest at sample {k - 4} from {T0}")
    ctx.check(abs(float(row["COA"]) - top[k]) < 5e-3, "coalescence", lambda: f"{label}: {row['COA']}")
    norm = top[k] * 2 / series[:, k].sum()
    ctx.check(abs(float(row["COA_NORM"]) - norm) < 1e-3 * norm, "normalised",
              lambda: f"{label}: {row['COA_NORM']}, {norm}")
    lo, hi = k - 2, k + 2
    best = {int(series[:, lo:hi + e].sum(1).argmax()) for e in (0, 1)}
    got = position(row, lut)
    ctx.check(any(abs(got[0] - n) < 2e-3 for n in best), "location-of-another-time",
              lambda: f"{label}: at node {got[0]}, largest total at {best}")


def groups():
    return [Group("positions", position_cases, run_position), Group("moved", shift_cases, run_shift),
            Group("symmetric", symmetric_cases, run_symmetric), Group("axes", axes_cases, run_axes),
            Group("thin", thin_cases, run_thin), Group("small-maps", small_cases, run_small),
            Group("times", time_cases, run_times)]
