import csv
import itertools

import numpy as np
from obspy import UTCDateTime

from qmmc import detectlib, world
from qmmc.core import Group

LEVEL = "fault_enumeration"
RULE = ("one evaluation = one complete real detect() run over one history (for every step the "
        "subset of station-phases available, or the way the step failed), its availability "
        "files parsed with the csv module and compared row by row, then read back with "
        "read_availability over several spans; distinct by history, step, start and stations.")
ASSUMPTIONS = ["station codes contain no underscore (SEED codes do not)",
               "one detect run per run directory"]

COLS = [(s, p) for p in detectlib.PHASES for s in detectlib.STATIONS]
MASKS = list(range(1, 16))           # non-empty subsets of the four station-phases
FAIL = ["empty", "gap", "unavailable", 0]


def histories(tier):
    alpha = MASKS + FAIL
    for n in (1, 2):
        yield from itertools.product(alpha, repeat=n)
    yield from itertools.product([15, 6, 1, "gap", "unavailable"], repeat=3)
    if tier == "thorough":
        yield from itertools.product(alpha, repeat=3)
        yield from itertools.product([15, 9, "empty"], repeat=6)
    else:
        yield from itertools.product([15, 9, "empty"], repeat=4)


def cases(tier):
    k = 0
    for hist in histories(tier):
        n = len(hist)
        for sr, step in ((1, 3), (50, 4)):
            span = n * step
            for off in sorted({0, 1, step, (n // 2) * step + 1, span - 1, span}):
                k += 1
                if tier == "quick" and n > 2 and k % 2:
                    continue
                yield [list(hist), sr, step, off, k % 3]


def long_cases(tier):
    for step, n in ((3600, 30), (21600, 9), (86400, 3), (1800, 50), (43200, 5)):
        for off in (0, 1, 1800, 43200, 86399):
            for pat in ([15], [15, "gap"], ["empty", 3, 12], ["unavailable"]):
                yield [(pat * n)[:n], 0.01, step, off, 0]


def month_cases(tier):
    # more than a month, and more than a year
    for pat in ([15, "gap", 6], ["empty", 3, "unavailable", 12]):
        yield [(pat * 35)[:70], 0.01, 43200, 1, 0]
        yield [(pat * 35)[:34], 0.01, 86400, 0, 1]
        if tier != "quick":
            yield [(pat * 200)[:380], 0.01, 86400, 43200, 2]


DAYS = ["2015-01-01T00:00:00", "2016-02-29T00:00:00", "2017-01-01T00:00:00"]


def parse(run_dir):
    out = {}
    d = run_dir / "detect" / "availability"
    for f in sorted(d.iterdir()) if d.exists() else []:
        with open(f) as fh:
            rows = list(csv.reader(fh))
        out[f.name] = (rows[0][1:], [(r[0], r[1:]) for r in rows[1:]])
    return out


def run(case, ctx):
    hist, sr, step, off, day = case
    if sr < 1:   # long steps: the rate only decides the (stubbed) amount of data
        run_long(case, ctx)
        return
    start = UTCDateTime(DAYS[day]) - off / sr
    check(case, ctx, hist, sr, step, start, step / sr)


def run_long(case, ctx):
    hist, _, step, off, day = case
    check(case, ctx, hist, 1, step, UTCDateTime(DAYS[day]) - off, float(step), stub=True)


def check(case, ctx, hist, sr, step, start, step_s, stub=False):
    from quakemigrate.io.availability import read_availability

    outcomes = [h if isinstance(h, str) else "ok" for h in hist]
    masks = [0 if isinstance(h, str) else h for h in hist]
    now = [0]

    def available(st, ph, data):
        k = len(r.archive.requests) - 1
        return masks[k] >> COLS.index((st, ph)) & 1

    r = detectlib.DetectRun(ctx.tmp(), sr, step, start, outcomes, False, available=available)
    assert now == [0]
    if stub:  # constant coalescence: only the bookkeeping of the steps is of interest
        r.onset.value = lambda st, ph, idx: np.ones(len(idx))
    r.run()
    ctx.count(str(case), nontrivial=len(hist) > 1)
    label = str(case)
    want = {}
    for k, m in enumerate(masks):
        t = start + step_s * k
        row = [m >> c & 1 for c in range(4)]
        want.setdefault(f"{world.day_name(t)}_StationAvailability.csv", []).append((t, row))
    got = parse(r.path / "run")
    ctx.check(set(got) == set(want), "files", lambda: f"{label}: {sorted(got)} != {sorted(want)}")
    names = [f"{s}_{p}" for s, p in COLS]
    for f, rows in want.items():
        head, have = got[f]
        ctx.check(sorted(head) == sorted(names), "columns", lambda: f"{label}: {head}")
        ctx.check(len(have) == len(rows), "rows",
                  lambda: f"{label}: {f} has {len(have)} rows for {len(rows)} steps: "
                          f"{[h[0] for h in have]}")
        for (t, row), (ht, hrow) in zip(rows, have):
            ctx.check(abs(UTCDateTime(ht) - t) < 1e-6, "row-label", lambda: f"{label}: {ht} != {t}")
            d = dict(zip(head, hrow))
            vals = [d[n] for n in names]
            ctx.check([float(v) if v else None for v in vals] == row, "row-values",
                      lambda: f"{label}: {t}: {dict(zip(names, vals))}, want {row}")
    # read back
    first, last = start, start + step_s * (len(hist) - 1)
    midday = UTCDateTime(first.date) + 86400 - 1e-3
    flat = [x for f in sorted(want) for x in want[f]]
    for a, b in ((first, last), (first, midday), (last, last), (first, first)):
        ta, tb = UTCDateTime(a.date), UTCDateTime(b.date) + 86400
        rows = [x for x in flat if ta <= x[0] < min(tb, UTCDateTime(b.date) + 86400)]
        try:
            df = read_availability(r.scan.run, a, b)
        except Exception as e:
            ctx.fail("read-back", f"{label}: {a}..{b}: {e!r}")
        ctx.check([UTCDateTime(i) for i in df.index] == [x[0] for x in rows], "read-back-rows",
                  lambda: f"{label}: {a}..{b}: {list(df.index)}")
        ctx.check(np.array_equal(df[names].values.astype(float), [x[1] for x in rows]),
                  "read-back-values", label)
    ctx.add(rows=len(hist))
    ctx.sample(hist=hist, sr=sr, step=step, start=str(start))


def old_cases(tier):
    for n in (1, 2, 3):
        for bits in itertools.product([0, 1], repeat=2 * n):
            yield [n, bits]


def run_old(case, ctx):
    """The older one-column-per-station files read as both phases of that station."""
    from quakemigrate.io.availability import read_availability
    from quakemigrate.io.core import Run

    n, bits = case
    d = ctx.tmp()
    run = Run(d, "run")
    p = run.path / "detect" / "availability"
    p.mkdir(parents=True)
    t0 = UTCDateTime("2015-02-03T00:00:00")
    with open(p / f"{world.day_name(t0)}_StationAvailability.csv", "w") as f:
        w = csv.writer(f)
        w.writerow(["", "A", "B"])
        for k in range(n):
            w.writerow([str(t0 + 60 * k), bits[2 * k], bits[2 * k + 1]])
    df = read_availability(run, t0, t0 + 60 * n)
    ctx.count(tuple(map(str, case)))
    for k in range(n):
        for j, s in enumerate("AB"):
            for ph in "PS":
                ctx.check(df[f"{s}_{ph}"].iloc[k] == bits[2 * k + j], "old-format", str(case))
    ctx.check(len(df) == n and len(df.columns) == 4, "old-format", str(case))


def groups():
    return [Group("histories", cases, run), Group("long-spans", long_cases, run),
            Group("months", month_cases, run, timeout=600), Group("old-format", old_cases, run_old)]
