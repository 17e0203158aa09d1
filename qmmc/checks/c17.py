import itertools
import math
from fractions import Fraction

import numpy as np
from obspy import Stream, Trace, UTCDateTime

from qmmc.core import Group

LEVEL = "exploration"
RULE = ("one evaluation = one call of the real WaveformData.check_availability for one arrangement of channel "
        "segments, option combination, window and sampling rate; the per-channel flags and the overall flag "
        "are compared with the criteria evaluated on integer sample numbers. Distinct by all of these; "
        "non-trivial: at least one channel has data.")
ASSUMPTIONS = ["segments lie on the sample grid of their own sampling rate",
               "a channel with any flat segment counts as flat"]

T0 = UTCDateTime("2015-12-31T23:59:58")

# segments as (first sample, samples past the last of the window, flat, rate factor): numbers relative to the
# window [0, n-1]; a kind is a list of (a, b, flat) with a, b callables of n
KINDS = {
    "none": [],
    "full": [(lambda n: 0, lambda n: n - 1, False)],
    "late": [(lambda n: 1, lambda n: n - 1, False)],
    "early": [(lambda n: 0, lambda n: n - 2, False)],
    "shifted": [(lambda n: 1, lambda n: n, False)],
    "longer": [(lambda n: -1, lambda n: n, False)],
    "gap": [(lambda n: 0, lambda n: n // 2 - 1, False), (lambda n: n // 2 + 1, lambda n: n - 1, False)],
    "adjoining": [(lambda n: 0, lambda n: n // 2, False), (lambda n: n // 2 + 1, lambda n: n - 1, False)],
    "overlap": [(lambda n: 0, lambda n: n // 2 + 1, False), (lambda n: n // 2 + 1, lambda n: n - 1, False)],
    "flat": [(lambda n: 0, lambda n: n - 1, True)],
    "gap-flat": [(lambda n: 0, lambda n: n // 2 - 1, False), (lambda n: n // 2 + 1, lambda n: n - 1, True)],
    "off-rate": [(lambda n: 0, lambda n: n - 1, False, 2)],
    "then-off-rate": [(lambda n: 0, lambda n: n // 2 - 1, False),
                      (lambda n: n // 2 + 1, lambda n: n - 1, False, 2)],
    "off-rate-then": [(lambda n: 0, lambda n: n // 2 - 1, False, 2),
                      (lambda n: n // 2 + 1, lambda n: n - 1, False)],
    "long-gap": [(lambda n: 0, lambda n: n - 1, False), (lambda n: n + 3, lambda n: n + 9, False)],
    "three": [(lambda n: n // 2 + 2, lambda n: n - 1, False), (lambda n: 0, lambda n: n // 2 - 2, False),
              (lambda n: n // 2 - 1, lambda n: n // 2 + 1, False)],
    "almost-flat": [(lambda n: 0, lambda n: n - 1, "almost")],
}
IDS = ("N.A..HHZ", "N.A..HHN", "N.A.00.HHN")


def segs(kind, n):
    out = []
    for s in KINDS[kind]:
        f = s[3] if len(s) > 3 else 1
        a, b = s[0](n), s[1](n)
        out.append((a, b, s[2], f))
    return out


def at(t, i, sr):
    """Time of sample i after t, to the nanosecond."""
    return UTCDateTime(ns=t.ns + int(math.floor(Fraction(i) * 10 ** 9 / Fraction(str(sr)) + Fraction(1, 2))))


def make(kinds, n, sr, t0):
    st = Stream()
    for cid, kind in zip(IDS, kinds):
        net, sta, loc, cha = cid.split(".")
        for a, b, flat, f in segs(kind, n):
            i = np.arange(f * a, f * b + 1)
            if flat == "almost":
                y = np.where(i == i[-1], 1, 0)
            else:
                y = np.full(len(i), 4) if flat else (i * 7) % 5 - (i % 3)
                if not flat and y.max() == y.min():
                    y[0] += 1
            st += Trace(np.array(y, dtype=np.int32), header=dict(
                network=net, station=sta, location=loc, channel=cha, sampling_rate=f * sr,
                starttime=at(t0, Fraction(f * a), Fraction(str(sr)) * f)))
    return st


def ref_channel(kind, n, o, sr):
    ss = segs(kind, n)
    if any(flat is True or b == a for a, b, flat, f in ss):
        return 0
    order = sorted(ss)
    for p, q in zip(order, order[1:]):
        if q[0] <= p[1]:
            return 0
        if not o["allow_gaps"] and q[0] > p[1] + 1:
            return 0
    if o["check_sampling_rate"]:
        if o["sampling_rate"] is None:
            return "error"
        if any(f * sr != o["sampling_rate"] for a, b, flat, f in ss):
            return 0
    if o["full_timespan"]:
        if len(ss) > 1 or (ss[0][1] - ss[0][0]) * ss[0][3] + 1 < (n - 1) * ss[0][3] + 1:
            return 0
    if o["check_start_end_times"]:
        if len(ss) > 1 or ss[0][0] != 0 or ss[0][1] != n - 1:
            return 0
    return 1


def options(sr):
    for allch, gaps, full, csr, cse in itertools.product((False, True), repeat=5):
        for nch in (None, 1, 2, 3) if allch else (None, 2):
            for rate in (sr, 2 * sr, None) if csr else (None, 2 * sr):
                yield dict(all_channels=allch, allow_gaps=gaps, full_timespan=full, check_sampling_rate=csr,
                           check_start_end_times=cse, n_channels=nch, sampling_rate=rate)


# sampling rates and sample counts, chosen so that span * rate is often not an exact float
GRIDS = [(50, 12), (100, 34), (62.5, 21), (40, 10), (0.3, 8), (250, 58), (31.25, 15), (128, 40), (1 / 3, 9)]


def cases(tier):
    grids = GRIDS[:5] if tier == "quick" else GRIDS
    for sr, n in grids:
        if sr == 1 / 3:
            continue
        for k in KINDS:
            yield dict(sr=sr, n=n, first=k, depth=2 if tier == "quick" else 3)


def run(case, ctx):
    sr, n, first = case["sr"], case["n"], case["first"]
    rest = list(itertools.product(KINDS, repeat=case["depth"] - 1))
    if case["depth"] == 3:     # the third channel: a representative of each verdict
        rest = [r for r in rest if r[1] in ("none", "full", "gap", "shifted", "flat", "off-rate")]
    for others in rest:
        check(ctx, (first,) + others, sr, n)
    ctx.sample(**case)


def check(ctx, kinds, sr, n, t0=T0):
    from quakemigrate.io.data import WaveformData

    st = make(kinds, n, sr, t0)
    data = WaveformData(t0, at(t0, n - 1, sr))
    before = [(t.id, t.stats.starttime.ns, t.data.copy()) for t in st]
    for o in options(sr):
        lab = f"rate {sr}, {n} samples, channels {kinds}, {o}"
        ctx.count((sr, n, kinds, str(o)), nontrivial=len(st) > 0)
        ref = {c: ref_channel(k, n, o, sr) for c, k in zip(IDS, kinds) if k != "none"}
        if any(v == "error" for v in ref.values()):
            wanted = "error"
        elif not ref:
            wanted = 0
        elif all(v == 1 for v in ref.values()):
            if o["all_channels"]:
                wanted = "error" if o["n_channels"] is None else int(len(ref) == o["n_channels"])
            else:
                wanted = 1
        else:
            wanted = int(not o["all_channels"] and any(ref.values()))
        try:
            got, per = data.check_availability(st, **o)
        except TypeError as e:
            missing = (o["check_sampling_rate"] and o["sampling_rate"] is None) or (
                o["all_channels"] and o["n_channels"] is None)
            ctx.check(missing, "refused", lambda: f"{lab}: {e}")
            ctx.check(bool(ref), "refused", lambda: f"{lab}: {e}")
            continue
        ctx.check(wanted != "error", "missing-argument", lambda: f"{lab}: {got}, {per}")
        ctx.check(per == ref, "channel-availability", lambda: f"{lab}: {per}, wanted {ref}")
        ctx.check(got == wanted, "availability", lambda: f"{lab}: {got}, wanted {wanted}")
    same = len(before) == len(st) and all(
        b[0] == t.id and b[1] == t.stats.starttime.ns and np.array_equal(b[2], t.data)
        for b, t in zip(before, st))
    ctx.check(same, "data-modified", lambda: f"{kinds}")


def span_cases(tier):
    for sr in (1, 3, 10, 20, 25, 40, 50, 62.5, 75, 100, 125, 128, 200, 250, 500, 1000):
        yield dict(sr=sr, top=200 if tier == "quick" else 2000)


def span_run(case, ctx):
    """Every window length: a trace with exactly the samples of the window is complete, one with a
    sample less is not, whatever the rounding of the times."""
    from quakemigrate.io.data import WaveformData

    sr = case["sr"]
    for n in itertools.chain(range(2, case["top"]), (86400 * 2, 30011)):
        for off in (0, 1, 7):
            a = at(T0, off, sr)
            b = at(T0, off + n - 1, sr)
            data = WaveformData(a, b)
            for k, i0, want in ((n, 0, 1), (n - 1, 0, 0), (n - 1, 1, 0), (n + 1, 0, 1)):
                if k < 2:
                    continue
                tr = Trace(np.arange(k, dtype=np.int32) % 7, header=dict(
                    network="N", station="A", channel="HHZ", sampling_rate=sr, starttime=at(T0, off + i0, sr)))
                ctx.count((sr, n, off, k, i0))
                got, _ = data.check_availability(Stream([tr]))
                ctx.check(got == want, "timespan", f"rate {sr}, window of {n} samples, trace of {k}: {got}")
                if k != n or i0:
                    got, _ = data.check_availability(Stream([tr]), full_timespan=False,
                                                     check_start_end_times=True)
                    ctx.check(got == 0, "start-end", f"rate {sr}, window of {n} samples, trace of {k}: {got}")
    ctx.sample(**case)


def groups():
    return [Group("arrangements", cases, run, timeout=600), Group("spans", span_cases, span_run, timeout=600)]
