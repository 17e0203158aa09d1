import itertools

import numpy as np
from obspy import UTCDateTime

from qmmc import triglib, world
from qmmc.core import Group

LEVEL = "exploration"
RULE = ("end-to-end: one evaluation = one coalescence window pattern, all patterns of a length "
        "laid end to end so that every consecutive threshold window holds one of them, run "
        "through Trigger.trigger with zero intervals, so that the samples at or above the "
        "threshold are read off the event file; direct: one evaluation = one (series, window "
        "length, method, multiplier) compared sample by sample with the definition; seconds: one "
        "evaluation = one window length in seconds, all those of a few hundred samples whose "
        "product with the sampling rate is inexact in floating point (and every tenth other). Distinct "
        "by series and configuration.")
ASSUMPTIONS = ["window lengths are whole numbers of samples",
               "the direct group applies where Trigger._get_threshold(series, sampling_rate) "
               "exists; the end-to-end group always applies"]

MULTS = {"mad": [0.0, 0.5, 1.0, 8.0, -1.0], "median_ratio": [1.0, 1.2, 0.5, 2.0],
         "static": [2.0, 1.5, 4.0, 0.0]}
LUT = []


def setup(tier):
    LUT.append(world.make_lut((2, 1, 1)))


def params(method, window, mult, sr):
    if method == "static":
        return dict(threshold_method="static", static_threshold=mult)
    if method == "mad":
        return dict(threshold_method="mad", mad_window_length=window / sr, mad_multiplier=mult)
    return dict(threshold_method="median_ratio", median_window_length=window / sr,
                median_multiplier=mult)


def reference(x, method, window, mult):
    if method == "static":
        return np.full(len(x), float(mult))
    f = triglib.mad_threshold if method == "mad" else triglib.median_threshold
    return f(x, window, mult)


def e2e_cases(tier):
    big = 6 if tier == "thorough" else 5
    for method, mults in MULTS.items():
        for mult in mults:
            for w in range(1, big + 1):
                if method == "static" and w != 3:
                    continue
                for sr in (1, 4):
                    for normalise in (0, 1):
                        pats = 3 ** w
                        for lo in range(0, pats, 81):
                            for tail in range(0, w):
                                # a shorter last window only once per configuration
                                if tail and lo:
                                    continue
                                yield [method, mult, w, sr, normalise, lo, tail]


ALPHA = [1.0, 2.0, 3.5]


def run_e2e(case, ctx):
    method, mult, w, sr, normalise, lo, tail = case
    pats = list(itertools.islice(itertools.product(ALPHA, repeat=w), lo, lo + 81))
    x = np.array([v for p in pats for v in p] + [3.5, 1.0, 2.0, 1.0, 2.0, 3.5][:tail])
    other = np.linspace(1, 3, len(x)).round(3)
    start = UTCDateTime("2015-05-05T03:00:00")
    d = ctx.tmp()
    coa, coan = (other, x) if normalise else (x, other)
    triglib.write_scan(d / "run", start, sr, coa, coan, np.zeros((len(x), 3)))
    end = start + (len(x) - 1) / sr
    triglib.trigger(LUT[0], d, start, end + 0.5 / sr, marginal_window=0.0,
                    min_event_interval=0.0, pad=0.0, normalise_coalescence=bool(normalise),
                    write_event_time_windows=True, **params(method, w, mult, sr))
    rows = [r for f in triglib.read_events(d).values() for r in f]
    above = np.zeros(len(x), bool)
    for r in rows:
        a, b = (int(round((UTCDateTime(r[k]) - start) * sr)) for k in ("MinTime", "MaxTime"))
        above[a:b + 1] = True
    thr = reference(x, method, w, mult)
    want = x >= thr
    sure = (x == thr) | (np.abs(x - thr) > 1e-9)
    bad = np.flatnonzero((above != want) & sure)
    ctx.check(not len(bad), "above-threshold",
              lambda: f"{case}: sample {bad[0]} of window {x[bad[0] // w * w:][:w].tolist()} "
                      f"threshold {thr[bad[0]]}: reported above={above[bad[0]]}")
    for p in pats:
        ctx.count((method, mult, w, sr, normalise, p))
    ctx.add(samples_compared=len(x))


def direct_cases(tier):
    n = 7 if tier == "quick" else 9
    for L in range(1, n + 1):
        for lead in itertools.product(ALPHA, repeat=max(0, L - 5)):
            yield [L, lead]


def run_direct(case, ctx):
    import pandas as pd

    from quakemigrate.signal import Trigger

    L, lead = case
    d = ctx.tmp()
    f = None
    for tailpat in itertools.product(ALPHA, repeat=L - len(lead)):
        x = np.array(list(lead) + list(tailpat))
        for method, mults in MULTS.items():
            for w in (range(1, L + 2) if method != "static" else (1,)):
                for mult in mults[-2:]:
                    for sr in (1, 5):
                        if f is None:
                            trig = Trigger(LUT[0], str(d), "run", plot_trigger_summary=False)
                            f = getattr(trig, "_get_threshold", None)
                            try:
                                f(pd.Series([1.0]), 1)
                            except (TypeError, AttributeError):
                                ctx.add(direct_interface_absent=1)
                                return
                        for k, v in params(method, w, mult, sr).items():
                            setattr(trig, k, v)
                        try:
                            thr = np.asarray(f(pd.Series(x), sr))
                        except Exception as e:
                            ctx.fail("threshold-raises", f"{x.tolist()} {method} w={w}: {e!r}")
                        want = reference(x, method, w, mult)
                        ctx.count((x.tobytes(), method, w, mult, sr))
                        ctx.check(len(thr) == len(x), "one-threshold-per-sample",
                                  lambda: f"{x.tolist()} {method} w={w}: {len(thr)} thresholds")
                        ctx.check(bool(np.all(np.abs(thr - want) <= 1e-12 + 1e-9 * np.abs(want))),
                                  "threshold-value", lambda: f"{x.tolist()} {method} window {w} "
                                  f"multiplier {mult}: {thr.tolist()}, want {want.tolist()}")
    ctx.sample(series=x.tolist(), window=w, method=method)


def long_cases(tier):
    for method in ("mad", "median_ratio"):
        for n in (3600, 3601, 7199, 5400, 40000):
            for w in (3600, 1800, 1000, 100000):
                if n < 9000 or w == 3600:
                    yield [method, n, w]


def run_long(case, ctx):
    """Default-scale windows over realistic lengths."""
    method, n, w = case
    x = 1.0 + (np.arange(n) * 7919 % 1013) / 500.0 + (np.arange(n) // 900) * 0.25
    x = x.round(5)
    start = UTCDateTime("2015-05-05T00:00:00")
    d = ctx.tmp()
    triglib.write_scan(d / "run", start, 1, x, x, np.zeros((n, 3)))
    mult = 1.7 if method == "mad" else 2.1
    thr = reference(x, method, w, mult)
    triglib.trigger(LUT[0], d, start, start + n - 1, marginal_window=0.0, pad=0.0,
                    min_event_interval=0.0, write_event_time_windows=True,
                    **params(method, w, mult, 1))
    rows = [r for f in triglib.read_events(d).values() for r in f]
    above = np.zeros(n, bool)
    for r in rows:
        a, b = (int(round(UTCDateTime(r[k]) - start)) for k in ("MinTime", "MaxTime"))
        above[a:b + 1] = True
    ctx.count(tuple(case))
    sure = np.abs(x - thr) > 1e-9
    bad = np.flatnonzero((above != (x >= thr)) & sure)
    ctx.check(not len(bad), "above-threshold-long", lambda: f"{case}: {len(bad)} samples, first "
              f"{bad[0]} x={x[bad[0]]} thr={thr[bad[0]]}; {(x >= thr).sum()} above")
    ctx.add(samples_compared=n, long_above=int((x >= thr).sum()))


def seconds_cases(tier):
    """Window lengths in seconds whose product with the sampling rate is not exact, and others."""
    for sr, top in ((10, 60), (25, 250), (50, 240), (100, 240)):
        for n in range(1, top if tier == "quick" else 4 * top):
            w = round(n / sr, 6)
            if w * sr != n or n % 10 == 0:
                for method in ("mad", "median_ratio"):
                    yield [method, n, sr, w]


def run_seconds(case, ctx):
    method, n, sr, w = case
    length = 3 * n + n // 2 + 1
    k = np.arange(length)
    # a level for each window, so that one sample more or less in it changes the threshold
    x = (1.0 + (k * 7919 % 1013) / 500.0 + (k // n) * 10.0).round(5)
    start = UTCDateTime("2015-05-05T00:00:00")
    d = ctx.tmp()
    triglib.write_scan(d / "run", start, sr, x, x, np.zeros((length, 3)))
    mult = 0.3 if method == "mad" else 1.05
    thr = reference(x, method, n, mult)
    p = dict(mad_window_length=w, mad_multiplier=mult) if method == "mad" else \
        dict(median_window_length=w, median_multiplier=mult)
    triglib.trigger(LUT[0], d, start, start + (length - 1) / sr, marginal_window=0.0, pad=0.0,
                    min_event_interval=0.0, write_event_time_windows=True,
                    threshold_method=method, **p)
    above = np.zeros(length, bool)
    for r in (r for f in triglib.read_events(d).values() for r in f):
        a, b = (int(round((UTCDateTime(r[c]) - start) * sr)) for c in ("MinTime", "MaxTime"))
        above[a:b + 1] = True
    ctx.count(tuple(case), nontrivial=w * sr != n)
    bad = np.flatnonzero((above != (x >= thr)) & (np.abs(x - thr) > 1e-9))
    ctx.check(not len(bad), "above-threshold-seconds", lambda: f"{case}: {len(bad)} samples, "
              f"first {bad[0]} x={x[bad[0]]} thr={thr[bad[0]]}")
    ctx.add(samples_compared=length)


def groups():
    return [Group("end-to-end", e2e_cases, run_e2e), Group("direct", direct_cases, run_direct),
            Group("long", long_cases, run_long),
            Group("seconds", seconds_cases, run_seconds)]
