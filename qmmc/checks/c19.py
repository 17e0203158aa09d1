import itertools
import math
from fractions import Fraction

import numpy as np
from obspy import Stream, Trace, UTCDateTime

from qmmc.core import Group

LEVEL = "exploration"
RULE = ("one evaluation = one trace (start offset, sampling rate, length, content) taken through the real "
        "shift_to_sample, decimate, upsample or resample; output times are compared with exact rational sample "
        "times and output values with the input signal at those times. Distinct by all of these; non-trivial: "
        "the operation applies to the trace.")
ASSUMPTIONS = ["timestamps are exact to one microsecond",
               "band-limited signals (pulses many samples wide) are reproduced to the accuracy of the filters"]

DAY = UTCDateTime("2016-02-28T00:00:00")
DAY_NS = DAY.ns


def frac(x):
    return Fraction(str(x)) if not isinstance(x, Fraction) else x


def when(i, sr):
    """Time of (rational) sample number i after midnight, to the nanosecond."""
    return UTCDateTime(ns=DAY_NS + int(math.floor(Fraction(i) * 10 ** 9 / frac(sr) + Fraction(1, 2))))


def index(t, sr):
    """Exact sample number (rational) of a time after midnight."""
    return Fraction(t.ns - DAY_NS, 10 ** 9) * frac(sr)


def snapshot(st):
    return [(t.id, t.stats.starttime.ns, t.stats.sampling_rate, t.data.copy(), t.data.dtype) for t in st]


def unchanged(a, st):
    b = snapshot(st)
    return len(a) == len(b) and all(x[:3] == y[:3] and x[4] == y[4] and np.array_equal(x[3], y[3])
                                    for x, y in zip(a, b))


# ------------------------------------------------------------------ shift

RATES = (1, 5, 20, 25, 30, 40, 50, 60, 100, 125, 128, 200, 250, 300, 500, 1000, 12.5, 31.25, 62.5)
SECONDS = (0, 1, 2, 3, 59, 3600, 86399)


def shift_cases(tier):
    for sr in RATES:
        for interp in (False, True):
            yield dict(sr=sr, interp=interp, tier=tier)


def smooth(t, sr, phase=0.0):
    """A band-limited signal (well below the Nyquist frequency) at times t (s)."""
    return 100 * np.sin(2 * np.pi * (0.043 * sr * t + phase)) + 40 * np.cos(2 * np.pi * 0.11 * sr * t)


def shift_run(case, ctx):
    from quakemigrate.util import shift_to_sample

    sr, interp = case["sr"], case["interp"]
    steps = 20 if case["tier"] == "quick" else 40
    n = 150
    offsets = [Fraction(k, steps) for k in range(-steps // 2, steps // 2 + 1)]
    dt_us = 10 ** 6 / frac(sr)
    offsets += [Fraction(s * d) / dt_us for d in (2, 5, 100) for s in (-1, 1) if d < dt_us / 2]
    positions = set()
    for s in SECONDS:
        base = math.ceil(s * frac(sr))
        positions |= {base, base + 1, base + max(1, int(sr) // 2), base + int(sr) - 1}
    for pos in sorted(positions):
        st, want = Stream(), []
        for k, f in enumerate(offsets):
            start = when(pos + f, sr)
            # times as data formats hold them: whole microseconds
            start = UTCDateTime(ns=int(round(start.ns / 1000)) * 1000)
            t = np.arange(n) / sr
            st += Trace(smooth(t, sr, 0.1 * k), header=dict(network="N", station=f"S{k}", channel="HHZ",
                                                            sampling_rate=sr, starttime=start))
            want.append((f, start))
        before = snapshot(st)
        out = shift_to_sample(st, interpolate=interp)
        ctx.check(unchanged(before, st), "input-modified", f"{case}")
        ctx.check(len(out) == len(st), "trace-lost", f"{case}")
        for k, ((f, start), a, b) in enumerate(zip(want, st, out)):
            lab = f"{sr} Hz, start {start} ({float(index(start, sr)):.4f} samples after midnight), " \
                  f"interpolate={interp}"
            aligned = abs(index(start, sr) - round(index(start, sr))) * dt_us < 1
            ctx.count((sr, pos, f, interp), nontrivial=not aligned)
            shift_us = Fraction(b.stats.starttime.ns - a.stats.starttime.ns, 1000)
            ctx.check(b.stats.npts == n and b.stats.sampling_rate == a.stats.sampling_rate and b.id == a.id,
                      "samples", lambda: f"{lab}: {b}")
            ctx.check(abs(shift_us) <= dt_us / 2 + 1, "moved-too-far",
                      lambda: f"{lab}: moved {float(shift_us)} us to {b.stats.starttime}")
            i = index(b.stats.starttime, sr)
            ctx.check(abs(i - round(i)) * dt_us <= Fraction(3, 2), "off-sample",
                      lambda: f"{lab}: {b.stats.starttime} is {float(i):.4f} samples after midnight")
            if aligned:
                ctx.check(abs(shift_us) <= Fraction(3, 2), "aligned-data-moved",
                          lambda: f"{lab}: moved {float(shift_us)} us")
                ctx.check(np.array_equal(a.data, b.data), "aligned-data-changed", lambda: lab)
            elif not interp:
                ctx.check(np.array_equal(a.data, b.data), "data-changed", lambda: lab)
            else:
                t = np.arange(n) / sr + float(shift_us) / 1e6
                truth = smooth(t, sr, 0.1 * k)
                err = np.abs(b.data - truth)[25:-25].max()
                ctx.check(err < 1.5, "interpolated-values", lambda: f"{lab}: off by {err} of 140")
                ctx.check(np.abs(b.data - truth).max() < 60, "interpolated-edges", lambda: lab)
    ctx.sample(**case)


# ------------------------------------------------------------------ decimate

PAIRS = [(100, 50), (200, 50), (500, 50), (250, 125), (40, 20), (60, 20), (100, 20), (250, 50), (62.5, 12.5),
         (1000, 50), (30, 10)]


def decimate_cases(tier):
    for r, t in PAIRS:
        for lead in range(0, int(r / t)) if tier == "thorough" else sorted({0, 1, int(r / t) - 1}):
            yield dict(rate=r, target=t, lead=lead)


def summit(y):
    """Position of the top of a Gaussian pulse, from its three largest samples."""
    k = int(np.argmax(y))
    a, b, c = np.log(y[k - 1:k + 2])
    return k + 0.5 * (a - c) / (a - 2 * b + c)


def decimate_run(case, ctx):
    from quakemigrate.util import decimate

    r, t, lead = case["rate"], case["target"], case["lead"]
    f = int(r / t)
    for n in itertools.chain(range(90 * f, 91 * f + 1), (120 * f + 1,)):
        for kind in ("int", "float"):
            i = np.arange(n)
            c = n / 2 + 0.37
            width = 4.0 * f
            y = 10000 * np.exp(-0.5 * ((i - c) / width) ** 2)
            if kind == "int":
                y = np.round(y).astype(np.int32)
            tr = Trace(y, header=dict(network="N", station="A", channel="HHZ", sampling_rate=r,
                                      starttime=when(lead, r)))
            before = snapshot([tr])
            out = decimate(tr, t)
            lab = f"{r} -> {t} Hz, {n} samples from sample {lead}, {kind}"
            ctx.count((r, t, lead, n, kind))
            ctx.check(unchanged(before, [tr]), "input-modified", lab)
            ctx.check(out.stats.sampling_rate == t and out.stats.starttime.ns == tr.stats.starttime.ns and
                      out.stats.npts == -(-n // f), "decimated-times", lambda: f"{lab}: {out}")
            z = np.asarray(out.data, float)
            base = np.median(z)
            pos = summit(z - base) * f
            ctx.check(abs(pos - c) < 0.2, "decimation-shifted-data", lambda: f"{lab}: pulse at {pos}, wanted {c}")
            ctx.check(0.9 < (z.max() - base) / 10000 < 1.15, "decimation-changed-size",
                      lambda: f"{lab}: {z.max() - base}")
    ctx.sample(**case)


# ------------------------------------------------------------------ upsample

UPS = [(40, 5, 50), (25, 2, 50), (20, 5, 50), (30, 5, 50), (62.5, 4, 50), (12.5, 4, 50), (50, 2, 100), (40, 3, 60),
       (100, 1, 50)]


def upsample_cases(tier):
    for r, u, t in UPS:
        for n in (2, 3, 7, 20) if tier == "quick" else range(2, 24):
            for kind in ("int", "float"):
                yield dict(rate=r, up=u, target=t, n=n, kind=kind)


def content(kind, n, salt):
    y = ((np.arange(n) * 7919 + 31 * salt) % 211) - 100
    return y.astype(np.int32) if kind == "int" else y / 317.0 + 0.003


def upsample_run(case, ctx):
    from quakemigrate.util import upsample

    r, u, t, n, kind = (case[k] for k in ("rate", "up", "target", "n", "kind"))
    fine = frac(r) * u
    for a0, b0 in itertools.product(range(-u, 2 * u + 1), range(-2 * u, u + 1)):
        # window from a0 fine samples before the trace's start to b0 fine samples after its end
        base = 1000 * u
        first, last = base, base + (n - 1) * u
        ws, we = first - a0, last + b0
        if we <= ws:
            continue
        y = content(kind, n, a0 + 3 * b0)
        tr = Trace(y, header=dict(network="N", station="A", channel="HHZ", sampling_rate=r,
                                  starttime=when(first, fine)))
        before = snapshot([tr])
        out = upsample(tr, u, when(ws, fine), when(we, fine))
        lab = f"{r} Hz x {u}, {n} {kind} samples, window from {a0} steps before to {b0} after"
        ctx.count((r, u, n, kind, a0, b0))
        ctx.check(unchanged(before, [tr]), "input-modified", lab)
        # constant pads are only for less than one interval at either end
        lo = ws if 0 < a0 < u else max(first, ws)
        hi = we if 0 < b0 < u else min(last, we)
        if hi < lo:
            continue
        ctx.check(out.stats.sampling_rate == float(fine), "rate", lambda: f"{lab}: {out}")
        i0 = index(out.stats.starttime, fine)
        # a gap of one interval, to the microsecond, is on either side of the limit
        if a0 == u and abs(i0 - ws) < Fraction(1, 1000):
            lo = ws
        if b0 == u and out.stats.npts == we - lo + 1:
            hi = we
        ctx.check(abs(i0 - lo) < Fraction(1, 1000) and out.stats.npts == hi - lo + 1, "upsampled-times",
                  lambda: f"{lab}: {out}, wanted {hi - lo + 1} samples from {when(lo, fine)}")
        x = (np.arange(lo, hi + 1) - first) / u
        want = np.interp(x, np.arange(n), y.astype(float))
        ctx.check(np.allclose(out.data, want, rtol=1e-9, atol=1e-9), "upsampled-values",
                  lambda: f"{lab}: {out.data.tolist()}, wanted {want.tolist()}")
    ctx.sample(**case)


# ------------------------------------------------------------------ resample

RR = (20, 25, 30, 40, 50, 62.5, 100, 128, 150, 200, 250, 500)


def resample_cases(tier):
    for target in (50, 20) if tier == "quick" else (50, 20, 25, 100):
        for up in (None, 1, 2, 3, 4, 5, 8, 10):
            for flag in (False, True):
                yield dict(target=target, up=up, flag=flag)


def pulse(t, width):
    return 1000 * np.exp(-0.5 * (t / width) ** 2)


def resample_run(case, ctx):
    from quakemigrate.util import BadUpfactorException, resample

    target, up, flag = case["target"], case["up"], case["flag"]
    span = 4
    ws, we = DAY + 100, DAY + 100 + span
    for kinds in itertools.chain(((r,) for r in RR), itertools.product((100, 40, 25), (50, 20, 128), (62.5, 200))):
        st = Stream()
        for k, r in enumerate(kinds):
            # as an archive read would return it: samples nearest the window's ends
            i0, i1 = round(100 * frac(r)), round((100 + span) * frac(r))
            t = np.arange(i0, i1 + 1) / float(r) - 102.003
            y = pulse(t, 0.3) + 7
            st += Trace(y, header=dict(network="N", station="A", channel=f"HH{k}", sampling_rate=r,
                                       starttime=when(i0, r)))
        before = snapshot(st)
        fate = []
        for r in kinds:
            if r == target:
                fate.append("same")
            elif frac(r) % target == 0:
                fate.append("decimate")
            elif flag and up is not None:
                fate.append("bad" if (frac(r) * up) % target else "up")
            else:
                fate.append("left")
        lab = f"{kinds} -> {target} Hz, resample={flag}, upfactor={up}"
        ctx.count((kinds, target, flag, up), nontrivial=set(fate) != {"same"})
        try:
            out = resample(st, target, flag, up, ws, we)
        except BadUpfactorException as e:
            ctx.check("bad" in fate, "refused", lambda: f"{lab}: {e}")
            continue
        ctx.check("bad" not in fate, "bad-upfactor-accepted", lambda: f"{lab}: {out}")
        ctx.check(unchanged(before, st), "input-modified", lab)
        ctx.check(len(out) == len(st), "trace-lost", lambda: f"{lab}: {out}")
        for k, (r, fa) in enumerate(zip(kinds, fate)):
            a, b = st.select(channel=f"HH{k}")[0], out.select(channel=f"HH{k}")
            ctx.check(len(b) == 1, "trace-lost", lambda: f"{lab}: {out}")
            b = b[0]
            if fa in ("same", "left"):
                keep = [i for i in range(a.stats.npts)
                        if abs(Fraction((a.stats.starttime + i / r).ns - ws.ns, 10 ** 9) - Fraction(span, 2))
                        <= Fraction(span, 2) + Fraction(1, 10 ** 5)]
                ctx.check(b.stats.sampling_rate == r and np.array_equal(b.data, a.data[keep[0]:keep[-1] + 1]) and
                          abs(b.stats.starttime - (a.stats.starttime + keep[0] / r)) < 1e-6, "unreachable-rate-changed",
                          lambda: f"{lab}: {a} became {b}")
                continue
            ctx.check(b.stats.sampling_rate == target, "rate", lambda: f"{lab}: {b}")
            ctx.check(abs(b.stats.starttime - ws) < 2e-6 and b.stats.npts == span * target + 1, "window",
                      lambda: f"{lab}: {b}")
            z = np.asarray(b.data, float)
            base = np.median(z)
            w = np.clip(z - base, 0, None)
            w = np.where(w > 0.2 * w.max(), w, 0)
            pos = float((w * np.arange(len(z))).sum() / w.sum()) / target + 100
            ctx.check(abs(pos - 102.003) < 0.1 / target, "data-shifted", lambda: f"{lab}: pulse at {pos} s")
            if fa == "up" and frac(r) * up == target:
                i0 = index(a.stats.starttime, target)
                x = np.clip((np.arange(100 * target, 104 * target + 1) - float(i0)) / up, 0, a.stats.npts - 1)
                want = np.interp(x, np.arange(a.stats.npts), a.data)
                ctx.check(np.allclose(z, want, rtol=1e-9, atol=1e-9), "upsampled-values",
                          lambda: f"{lab}: off by {np.abs(z - want).max()}")
    ctx.sample(**case)


def groups():
    return [Group("shift", shift_cases, shift_run, timeout=300), Group("decimate", decimate_cases, decimate_run),
            Group("upsample", upsample_cases, upsample_run), Group("resample", resample_cases, resample_run)]
