import itertools

import numpy as np
from obspy import UTCDateTime

from qmmc import detectlib, world
from qmmc.core import Group

LEVEL = "fault_enumeration"
RULE = ("one evaluation = one complete real detect() run over one history (outcome of every "
        "time step, step length, start relative to midnight, write mode), its day files "
        "decoded with ObsPy and compared sample by sample with the definition. Non-trivial: "
        "at least two steps. Distinct by history.")
ASSUMPTIONS = ["time steps are whole numbers of samples, at least two and at most one day",
               "start times lie on the sampling grid",
               "ObsPy's MiniSEED reader and writer are trusted"]

OUT4 = ["ok", "empty", "gap", "unavailable"]
MIDNIGHTS = ["2015-01-01T00:00:00", "2016-02-29T00:00:00", "2016-03-01T00:00:00"]


def histories(tier):
    for n in (1, 2, 3):
        for o in itertools.product(OUT4, repeat=n):
            yield list(o)
    for o in itertools.product(["ok", "gap"], repeat=4):
        yield list(o)
    if tier == "thorough":
        for n in (4, 5):
            for o in itertools.product(["ok", "empty", "unavailable"], repeat=n):
                yield list(o)
        for o in itertools.product(["ok", "gap"], repeat=7):
            yield list(o)


def cases(tier):
    k = 0
    for hist in histories(tier):
        n = len(hist)
        for sr, step in ((1, 2), (1, 3), (2, 4), (50, 5), (3, 3)):
            if tier == "quick" and n == 4 and sr == 3:
                continue
            span = n * step
            offs = sorted({0, 1, 2, step - 1, step, step + 1, span - 1, span, span + 1,
                           (n // 2) * step, (n // 2) * step + 1})
            if tier == "thorough":
                offs = range(0, span + 2)
            for off in offs:
                for mode in (0, 1):
                    k += 1
                    # the full cross product is thinned deterministically in quick for
                    # the longest histories only
                    if tier == "quick" and n == 4 and (k % 3):
                        continue
                    yield dict(hist=hist, sr=sr, step=step, off=off, mode=mode,
                               cut=1 if (step > 2 and k % 2) else 0, day=k % 3)


def run(case, ctx):
    sr, step = case["sr"], case["step"]
    start = UTCDateTime(MIDNIGHTS[case["day"]]) - case["off"] / sr
    r = detectlib.DetectRun(ctx.tmp(), sr, step, start, case["hist"], bool(case["mode"]),
                            cut=case["cut"])
    ctx.count(tuple(map(str, case.items())), nontrivial=len(case["hist"]) > 1)
    r.run()
    label = str(case)
    detectlib.check_store(ctx, r, label)
    if sr != 3:  # MiniSEED times are microseconds: exact edges only where they exist
        readback(ctx, r, label)
    ctx.sample(**case)


def readback(ctx, r, label):
    """QuakeMigrate's own reader returns the same series."""
    from quakemigrate.io.scanmseed import read_scanmseed

    total = r.n * r.step
    last = r.start + (total - 1) / r.sr
    exp = r.expected()
    for a, b, pad in ((0, total - 1, 0.0), (0, total - 1, 3.0), (total // 3, 2 * total // 3, 1.0 / r.sr)):
        ta, tb = r.start + a / r.sr, r.start + b / r.sr
        data, stats = read_scanmseed(r.scan.run, ta, tb, pad, r.lut.unit_conversion_factor)
        npad = int(round(pad * r.sr))
        lo, hi = max(0, a - npad), min(total - 1, b + npad)
        ctx.check(len(data) == hi - lo + 1, "readback-length",
                  lambda: f"{label}: {len(data)} rows for samples {lo}..{hi}")
        idx = [world.sample_index(t, r.sr) - r.i0 for t in data["DT"]]
        ctx.check(idx == list(range(lo, hi + 1)), "readback-times", lambda: f"{label}: {idx}")
        ctx.check(abs(stats.starttime - (r.start + lo / r.sr)) < 1e-6
                  and abs(stats.sampling_rate - r.sr) < 1e-9, "readback-stats", label)
        for ch, want in exp.items():
            w = want[lo:hi + 1]
            g = data[ch].values.astype(float)
            ctx.check(bool(np.all(np.abs(g - w) <= 0.6 / r.scale(ch))), "readback-value",
                      lambda: f"{label}: {ch} {g.tolist()} != {w.tolist()}")
    assert last >= r.start


def clip_cases(tier):
    for top in (1e4, 21473.9, 21474.0, 21474.5, 3e4, 1e6):
        for kind in ("lcc_km", "utm_m"):
            yield [top, kind]


def run_clip(case, ctx):
    """Very large coalescence is stored clipped, never wrapped; units of the grid."""
    top, kind = case
    sr = 1

    def value(st, ph, idx):
        return np.where(idx % 4 == 1, top, 1.0 + (idx % 3))

    lut = detectlib.default_lut(sr, kind)
    r = detectlib.DetectRun(ctx.tmp(), sr, 6, "2015-06-01T12:00:00", ["ok", "ok"], False,
                            lut=lut, value=value)
    exp = r.expected()
    r.expected = lambda: {k: (np.minimum(v, 21474.0) if k.startswith("COA") else v)
                          for k, v in exp.items()}
    ctx.count(tuple(case))
    r.run()
    # ties: position is checked only through the peak value
    got = detectlib.collect(r.path / "run", sr)
    for ch in ("COA", "COA_N"):
        for i in range(12):
            ctx.check(got[ch][0][i] == r.i0 + i, "clip-samples", str(case))
            v = got[ch][1][i] / 1e5
            ctx.check(abs(v - r.expected()[ch][i]) < 1e-5 * max(1, abs(v)) * 1e-3 + 1e-5,
                      "stored-coalescence-clipped", f"{case} {ch} {i}: {v} {r.expected()[ch][i]}")


def long_cases(tier):
    # steps of minutes to a day, across several midnights, at one sample per second
    for step_s, n in ((3600, 30), (21600, 6), (86400, 2), (1800, 52), (25200, 5), (36000, 4),
                      (5000, 20)):
        for off_s in (0, 1, 1800, 3600, 43200, 82800):
            fails = (None, 0, n - 1, "odd") if tier == "quick" else (
                None, "odd", "even", *range(n))
            for fail in fails:
                for mode in (0, 1):
                    if tier == "quick" and mode and n > 10:
                        continue
                    yield [step_s, n, off_s, fail, mode]


def run_long(case, ctx):
    step_s, n, off_s, fail, mode = case
    hist = ["ok"] * n
    if fail in ("odd", "even"):
        a, b = ("ok", "gap") if fail == "odd" else ("empty", "ok")
        hist = ([a, b] * n)[:n]
    elif fail is not None:
        hist[fail] = "empty"
    start = UTCDateTime("2015-12-31T00:00:00") - off_s
    r = detectlib.DetectRun(ctx.tmp(), 1, step_s, start, hist, bool(mode))
    ctx.count(tuple(map(str, case)))
    r.run()
    detectlib.check_store(ctx, r, str(case))


def fraction_cases(tier):
    # step lengths whose product with the sampling rate, or whose multiples, are not exact in floating point
    for sr, step in ((100, 29), (50, 29), (100, 57), (20, 3), (20, 6), (50, 18), (100, 7), (25, 14)):
        for n in ((1, 2, 3, 7, 9) if tier == "quick" else range(1, 15)):
            for hist in (["ok"] * n, ["empty"] * n, (["ok", "empty"] * n)[:n], (["gap", "ok", "ok"] * n)[:n]):
                for off in sorted({0, 1, step, n * step // 2, n * step - 1, n * step, 3 * n * step}):
                    for mode in (0, 1):
                        yield dict(hist=hist, sr=sr, step=step, off=off, mode=mode, cut=0, day=n % 3)


def peaked_cases(tier):
    for side in (30, 60, 150):
        for quiet in (0.0, 0.5, 1.0, 5.0):
            yield [side, quiet]


def run_peaked(case, ctx):
    """One node far above all others: the normalised coalescence approaches the number of nodes."""
    side, quiet = case
    sr = 10
    lut = world.make_lut((side, side, 1), stations=detectlib.STATIONS, phases=detectlib.PHASES,
                         tt=lambda s, p, ijk: ijk[s] / sr)
    i0 = world.sample_index(UTCDateTime("2015-06-01T12:00:00"), sr)
    node = {"AA1": 7, "B2": 22}

    def value(st, ph, idx):
        return np.where((idx - i0 - node[st]) % 1000 == 3, 1e6, quiet)

    r = detectlib.DetectRun(ctx.tmp(), sr, 4, UTCDateTime("2015-06-01T12:00:00"), ["ok", "ok"], False,
                            lut=lut, value=value)
    exp = r.expected()
    ctx.count(tuple(case))
    ctx.sample(side=side, quiet=quiet, highest_normalised=float(exp["COA_N"].max()))
    r.run()
    got = detectlib.collect(r.path / "run", sr)
    for ch in ("COA", "COA_N"):
        idx, v, _ = got[ch]
        w = np.minimum(exp[ch], 21474.0)
        ctx.check(np.array_equal(idx, r.i0 + np.arange(8)) and bool(np.all(np.abs(v / 1e5 - w) <= 2e-5 + 1e-9 * w)),
                  "stored-coalescence-clipped", lambda: f"{case} {ch}: {v / 1e5}, computed {w}")
    i = 3
    for ch in "XYZ":
        ctx.check(abs(got[ch][1][i] - exp[ch][i] * r.scale(ch)) <= 0.6, "peak-position",
                  lambda: f"{case} {ch}: {got[ch][1][i]}, computed {exp[ch][i] * r.scale(ch)}")


def groups():
    return [Group("histories", cases, run), Group("long-spans", long_cases, run_long),
            Group("clip-and-units", clip_cases, run_clip), Group("fractional-steps", fraction_cases, run),
            Group("peaked", peaked_cases, run_peaked)]
