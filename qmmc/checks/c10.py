import itertools

import numpy as np
from obspy import UTCDateTime

from qmmc import triglib, world
from qmmc.core import Group

LEVEL = "exploration"
RULE = ("one evaluation = one real Trigger.trigger run (one placement of peaks about midnight, "
        "one time span, one region, possibly a hole in the coalescence) whose event files are "
        "compared with the events the definition gives, plus the same span split at midnight "
        "into separate runs whose files must be identical. Distinct by case; non-trivial: at "
        "least one peak.")
ASSUMPTIONS = ["the pad covers the events next to the ends of the span",
               "no two samples of one run have exactly equal coalescence"]

LUT = []
MID = UTCDateTime("2016-01-01T00:00:00")
HALF = 24          # seconds of coalescence either side of midnight
MW, MEI = 1.0, 2.0


def setup(tier):
    LUT.append(world.make_lut((2, 1, 1)))


def placements(tier):
    offs = [-9, -4, -2, -1, 0, 1, 2, 5]
    for o in offs:
        for kind in "1abc":
            yield [(o, kind)]
    for a, b in itertools.combinations(offs, 2):
        yield [(a, "1"), (b, "1")]
        if tier == "thorough":
            yield [(a, "b"), (b, "1")]
            yield [(a, "1"), (b, "c")]
    yield [(-9, "1"), (-3, "1"), (3, "1"), (9, "1")]
    yield []


SPANS = [(-HALF, HALF), (-HALF, 0), (0, HALF), (-HALF, -1), (-1, 1), (-2, 0), (-1, HALF),
         (1, HALF), (-HALF, 1), (0, 1), (-HALF, -0.5), (-0.5, HALF), (-4, 5), (0, 5), (-2, 2)]


def coalescence(places):
    n = 2 * HALF + 1
    coa = 1.0 + 0.0001 * np.arange(n)
    for o, kind in places:
        shape = {"1": (0,), "a": (-1, 0), "b": (0, 1, 2), "c": (-2, -1, 0, 1)}[kind]
        for k in shape:
            i = HALF + o + k
            coa[i] = max(coa[i], 3.0 + (1.0 if k == 0 else 0) + 0.001 * i)
    return coa.round(4)


def where(n):
    k = np.arange(n)
    return np.stack([116.0 + 0.01 * k, 6.0 + 0.02 * k, -0.5 + 0.05 * k], axis=1).round(3)


def expected(coa, xyz, a, b, region, first=-HALF, rate=1):
    """{day file: [sample]} the definition gives (windows of whole samples)."""
    ev = triglib.reference_events(coa, coa, np.full(len(coa), 2.0), MW, MEI)
    out = {}
    for e in ev:
        off = e["peak"] / rate + first
        t = MID + off
        ta, tb = MID + a, MID + b
        midnight = tb == UTCDateTime(tb.date)
        if not (ta <= t and (t < tb if midnight else t <= tb)):
            continue
        if region is not None:
            p = xyz[e["peak"]]
            if not all(region[k] <= p[k] <= region[k + 3] for k in range(3)):
                continue
        out.setdefault(f"run_{world.day_name(t)}_TriggeredEvents.csv", []).append(
            triglib.event_id(t))
    return out


def got(d):
    return {f: [r["EventID"] for r in rows] for f, rows in triglib.read_events(d).items()
            if rows}


def make(d, coa, xyz, rate=1):
    triglib.write_scan(d / "run", MID - HALF / rate, rate, coa, coa, xyz, LUT[0].unit_conversion_factor)


def cases(tier):
    for pl in placements(tier):
        for a, b in SPANS:
            for pad in (120.0, 14.0):
                yield [pl, a, b, pad]


def rate_cases(tier):
    """Other sampling rates: everything in samples instead of seconds."""
    for rate in (250, 100, 50, 8) if tier == "quick" else (1000, 250, 125, 100, 50, 8, 4):
        for pl in placements(tier):
            if tier == "quick" and len(pl) == 2 and pl[0][0] not in (-1, 0):
                continue
            for a, b in SPANS:
                if a == int(a) and b == int(b):
                    yield [pl, a, b, 120.0, rate]


def run(case, ctx):
    pl, a, b, pad = case[:4]
    rate = case[4] if len(case) > 4 else 1
    a, b = a / rate, b / rate
    coa = coalescence(pl)
    xyz = where(len(coa))
    d = ctx.tmp()
    make(d, coa, xyz, rate)
    kw = dict(static_threshold=2.0, marginal_window=MW / rate, min_event_interval=MEI / rate, pad=pad)
    triglib.trigger(LUT[0], d, MID + a, MID + b, **kw)
    want = expected(coa, xyz, a, b, None, -HALF / rate, rate)
    have = got(d)
    ctx.count(str(case), nontrivial=bool(pl))
    label = f"peaks {pl} span {a}..{b} about midnight, pad {pad}, rate {rate}"
    ctx.check(have == want, "events-in-span", lambda: f"{label}: {have}, want {want}")
    if a < 0 < b:
        d2 = ctx.tmp()
        make(d2, coa, xyz, rate)
        triglib.trigger(LUT[0], d2, MID + a, MID, **kw)
        triglib.trigger(LUT[0], d2, MID, MID + b, **kw)
        t1 = {f: v for f, v in triglib.read_events(d).items()}
        t2 = {f: v for f, v in triglib.read_events(d2).items()}
        ctx.check(t1 == t2, "split-run-differs", lambda: f"{label}: {t1} != {t2}")
    ctx.add(events=sum(map(len, have.values())))
    ctx.sample(peaks=pl, span=[a, b], events=have)


def region_cases(tier):
    for lims in itertools.product((-1, 0, 1), repeat=6):
        yield [lims]


def run_region(case, ctx):
    (lims,) = case
    pl = [(-9, "1"), (-1, "1"), (9, "1")]
    coa = coalescence(pl)
    xyz = where(len(coa))
    p = xyz[HALF - 1]
    step = np.array([0.001, 0.002, 0.003])
    region = [float(round(p[k % 3] + lims[k] * step[k % 3], 6)) for k in range(6)]
    kw = dict(static_threshold=2.0, marginal_window=MW, min_event_interval=MEI, pad=120.0)
    # the limits around the middle event; and widened so that neighbours come in
    for widen in (0.0, 0.5):
        reg = [r - widen for r in region[:3]] + [r + widen for r in region[3:]]
        d = ctx.tmp()
        make(d, coa, xyz)
        triglib.trigger(LUT[0], d, MID - HALF, MID + HALF, region=reg, **kw)
        want = expected(coa, xyz, -HALF, HALF, reg)
        ctx.count((tuple(lims), widen))
        have = got(d)
        ctx.check(have == want, "events-in-region",
                  lambda: f"region {reg} about {p.tolist()}: {have}, want {want}")


def hole_cases(tier):
    # coalescence missing between two detect runs: [lo, hi) seconds about midnight
    for lo, hi in ((0, 6), (-6, 0), (-4, 0), (0, 1), (-20, 0), (0, 18)):
        for o1, o2 in itertools.product((-22, -8, -5), (2, 7, 20)):
            for a, b in ((-HALF, HALF), (0, HALF), (-HALF, 0), (1, HALF)):
                for pad in (120.0, 14.0, 3.0):
                    yield [lo, hi, o1, o2, a, b, pad]


def run_hole(case, ctx):
    """Day files that do not join up (detect was not run over [lo, hi))."""
    lo, hi, o1, o2, a, b, pad = case
    coa = coalescence([(o1, "1"), (o2, "1")])
    n = len(coa)
    xyz = where(n)
    d = ctx.tmp()
    i, j = HALF + lo, HALF + hi
    ucf = LUT[0].unit_conversion_factor
    triglib.write_scan(d / "run", MID - HALF, 1, coa[:i], coa[:i], xyz[:i], ucf)
    triglib.write_scan(d / "run", MID + hi, 1, coa[j:], coa[j:], xyz[j:], ucf)
    coa = coa.copy()
    coa[i:j] = 0.0
    kw = dict(static_threshold=2.0, marginal_window=MW, min_event_interval=MEI, pad=pad)
    triglib.trigger(LUT[0], d, MID + a, MID + b, **kw)
    want = expected(coa, xyz, a, b, None)
    ctx.count(str(case))
    have = got(d)
    ctx.check(have == want, "events-beside-a-hole",
              lambda: f"no coalescence in {lo}..{hi}; peaks {o1} {o2}; span {a}..{b} pad {pad}: "
                      f"{have}, want {want}")


def day_cases(tier):
    for start_h in (0, 3):
        for days in (1, 2):
            for extra in (0, 1):
                yield [start_h, days, extra]


def run_days(case, ctx):
    """Several whole days in one run and day by day."""
    start_h, days, extra = case
    n = 86400 * days + 3600 * 2
    coa = 1.0 + (np.arange(n) * 7919 % 499) / 1000.0
    first = -3600
    for k in range(0, n, 3600 * 5 // 2):
        coa[k] = 3.0 + 0.0001 * (k % 97)
    coa = coa.round(4)
    xyz = np.zeros((n, 3)) + 1.0
    d = ctx.tmp()
    triglib.write_scan(d / "run", MID + first, 1, coa, coa, xyz, LUT[0].unit_conversion_factor)
    a, b = 3600 * start_h, 86400 * days - (1 - extra) * 7200
    kw = dict(static_threshold=2.0, marginal_window=MW, min_event_interval=MEI)
    triglib.trigger(LUT[0], d, MID + a, MID + b, **kw)
    want = expected(coa, xyz, a, b, None, first)
    have = got(d)
    ctx.count(str(case))
    ctx.check(have == want, "events-over-days", lambda: f"{case}: {have}, want {want}")


def groups():
    return [Group("spans", cases, run), Group("rates", rate_cases, run), Group("regions", region_cases, run_region),
            Group("holes", hole_cases, run_hole), Group("days", day_cases, run_days)]
