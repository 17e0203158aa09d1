import itertools

import numpy as np
from obspy import UTCDateTime

from qmmc import triglib, world
from qmmc.core import Group

LEVEL = "exploration"
RULE = ("one evaluation = one pattern of coalescence over a short window (every word over three "
        "levels, or every placement of runs of given lengths and gaps), many patterns laid out in "
        "one series with quiet stretches longer than any window between them and run through the "
        "real Trigger.trigger; the rows of the event file are compared with the events the rules "
        "give, field by field. Distinct by pattern and configuration.")
ASSUMPTIONS = ["no two samples of one run have exactly equal coalescence",
               "windows are whole or half samples, so that comparisons are not rounding ties"]

LUT = []
LEVELS = [1.0, 3.0, 5.0]      # below, above, well above the threshold of 2
CONFIGS = [(0, 0), (1, 2), (1, 3), (2, 4), (1.5, 3), (2, 7), (0, 3), (3, 6.5)]   # mw, mei
PER = 40


def setup(tier):
    LUT.append(world.make_lut((2, 1, 1)))


def tilt(pattern, sign):
    """Make the samples of a pattern distinct without changing their level."""
    n = len(pattern)
    return [v + 0.001 * (i if sign > 0 else n - i) for i, v in enumerate(pattern)]


def words(tier):
    n = 7 if tier == "quick" else 8
    for L in range(1, n + 1):
        for w in itertools.product((0, 1, 2), repeat=L):
            if w[0] and w[-1]:
                yield w


def run_words(tier):
    """Two or three runs of chosen lengths and peak places with all gaps up to a bound."""
    gaps = range(1, 12 if tier == "quick" else 16)
    shapes = [(2,), (1, 2), (2, 1), (1, 2, 1), (1, 1, 2, 1, 1), (1, 1, 1, 2)]
    for a, b in itertools.product(shapes, repeat=2):
        for g in gaps:
            yield a + (0,) * g + b
            yield tuple(min(x, 1) for x in a) + (0,) * g + b
    some = [(2,), (1, 2), (1, 1, 1)]
    for a, b, c in itertools.product(some, repeat=3):
        for g in range(1, 9):
            for h in range(1, 9):
                yield a + (0,) * g + b + (0,) * h + c


def batches(words_):
    it = iter(words_)
    while True:
        b = list(itertools.islice(it, PER))
        if not b:
            return
        yield b


def cases_of(gen):
    def cases(tier):
        for ci, (mw, mei) in enumerate(CONFIGS):
            for k, b in enumerate(batches(gen(tier))):
                # trigger variable, tie direction and sampling rate cycle over the batches;
                # in thorough every combination is run
                combos = list(itertools.product((0, 1), (1, -1), (1, 50)))
                if tier == "quick":
                    combos = [combos[(3 * k + ci) % 8]] if gen is run_words else [
                        combos[(k + ci) % 8], combos[(k + ci + 3) % 8]]
                for norm, sign, sr in combos:
                    yield [mw, mei, norm, sign, sr, b]
    return cases


def rate_cases(tier):
    """Other sampling rates: times, and so identifiers, with every digit."""
    short = [w for L in range(1, 5 if tier == "quick" else 6) for w in itertools.product((0, 1, 2), repeat=L)
             if w[0] and w[-1]]
    for sr in (1000, 500, 400, 250, 125, 100, 40, 20, 8):
        for mw, mei in ((1, 2), (1.5, 3), (0, 0)) if tier == "quick" else CONFIGS:
            for k, b in enumerate(batches(short)):
                yield [mw, mei, k % 2, 1 - 2 * (k // 2 % 2), sr, b]


def run(case, ctx):
    mw, mei, norm, sign, sr, pats = case
    quiet = int(2 * (mei + mw)) + 3
    coa, where = [], []
    coa += [1.0] * quiet
    for p in pats:
        where.append(len(coa))
        coa += tilt([LEVELS[v] for v in p], sign)
        coa += [1.0] * quiet
    coa = np.array(coa).round(3)
    n = len(coa)
    # the other series is decoupled: peaks in different samples of a run
    other = 1.0 + ((np.arange(n) * 37 % 101) / 50.0).round(3) + np.arange(n) * 1e-4
    other = other.round(4)
    if norm:
        # trigger on COA_N; the peak is where COA is greatest
        a, b = other, coa
    else:
        a, b = coa, other
    xyz = np.stack([10 + np.arange(n) * 0.001, 20 + np.arange(n) * 0.002,
                    np.arange(n) * 0.003 - 1], axis=1).round(3)
    start = UTCDateTime("2016-12-31T10:00:00") + 7 / sr
    d = ctx.tmp()
    triglib.write_scan(d / "run", start, sr, a, b, xyz,
                       LUT[0].unit_conversion_factor)
    triglib.trigger(LUT[0], d, start, start + (n - 1) / sr + 0.5 / sr, static_threshold=2.0,
                    marginal_window=mw / sr, min_event_interval=mei / sr, pad=0.0,
                    normalise_coalescence=bool(norm), write_event_time_windows=True)
    rows = [r for f in triglib.read_events(d).values() for r in f]
    want = triglib.reference_events(a, b if norm else a, np.full(n, 2.0), mw, mei)
    got_peaks = [int(round((UTCDateTime(r["CoaTime"]) - start) * sr)) for r in rows]
    want_peaks = [e["peak"] for e in want]
    label = f"mw={mw} mei={mei} trigger_on={'COA_N' if norm else 'COA'} sr={sr}"

    def pattern_at(i):
        k = max(j for j, w in enumerate(where) if w <= max(i, where[0]))
        return f"pattern {pats[k]} (tilt {sign})"

    if got_peaks != want_peaks:
        diff = sorted(set(got_peaks) ^ set(want_peaks)) or [got_peaks[0]]
        at = diff[0]
        ctx.fail("events", f"{label}: {pattern_at(at)}: events at "
                 f"{[p for p in got_peaks if abs(p - at) < 40]}, rules give "
                 f"{[p for p in want_peaks if abs(p - at) < 40]}")
    ids = [r["EventID"] for r in rows]
    ctx.check(len(set(ids)) == len(ids), "event-ids-unique", lambda: f"{label}: {ids}")
    for r, e in zip(rows, want):
        p = e["peak"]
        t = start + p / sr
        ctx.check(r["EventID"] == triglib.event_id(t), "event-id", lambda: f"{label}: {r} {t}")
        lo = (UTCDateTime(r["MinTime"]) - start) * sr
        hi = (UTCDateTime(r["MaxTime"]) - start) * sr
        ctx.check(abs(lo - e["lo"]) < 1e-3 and abs(hi - e["hi"]) < 1e-3, "window",
                  lambda: f"{label}: {pattern_at(p)}: window {lo - p}..{hi - p} about the peak, "
                          f"rules give {e['lo'] - p}..{e['hi'] - p}")
        vals = dict(TRIG_COA=(b if norm else a)[p], COA=a[p], COA_NORM=b[p], COA_X=xyz[p, 0],
                    COA_Y=xyz[p, 1], COA_Z=xyz[p, 2])
        for k, v in vals.items():
            ctx.check(abs(float(r[k]) - v) < 2e-5 if k[:4] != "COA_" or k == "COA_NORM"
                      else abs(float(r[k]) - v) < 2e-3, f"field-{k}",
                      lambda: f"{label}: {pattern_at(p)}: {k}={r[k]}, sample has {v}")
    for p in pats:
        ctx.count((mw, mei, norm, sign, sr, tuple(p)), nontrivial=len(p) > 1)
    ctx.add(events=len(rows), merged=sum(e["members"] > 1 for e in want))
    ctx.sample(mw=mw, mei=mei, norm=norm, sr=sr, pattern=pats[0], events=len(rows))


def groups():
    return [Group("words", cases_of(words), run), Group("runs-and-gaps", cases_of(run_words), run),
            Group("rates", rate_cases, run)]
