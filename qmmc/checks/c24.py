import itertools
import math

import numpy as np
import pandas as pd
from obspy import Stream, Trace, UTCDateTime

from qmmc import world
from qmmc.core import Group

LEVEL = "exploration"
RULE = ("one evaluation = one channel of one event measured by the real Amplitude.get_amplitudes; the row is "
        "compared with windows computed from the picks or modelled arrivals, and amplitudes, frequencies, "
        "times, average and noise amplitudes computed sample by sample from those windows. Distinct by "
        "window contents, picks, separation and settings; non-trivial: the channel has data.")
ASSUMPTIONS = ["group response uses ObsPy's own response removal; its accuracy is taken as 3%",
               "window ends are taken at the nearest sample; no explored window ends midway between samples "
               "except by tests that accept either side"]

SR = 20
T0 = UTCDateTime("2015-12-31T23:59:59.5")


# ------------------------------------------------------------------ reference

def detrended(y):
    y = np.asarray(y, float)
    x = np.arange(len(y), dtype=float)
    if len(y) < 2:
        return y - y.mean()
    x = x - x.mean()
    slope = (x * (y - y.mean())).sum() / (x * x).sum()
    return y - y.mean() - slope * x


def extremes(y, tol):
    """[(sign, first index, last index, value)] of interior peaks and troughs, in order."""
    runs = []
    for i, v in enumerate(y):
        if runs and abs(runs[-1][2] - v) <= tol:
            runs[-1][1] = i
        else:
            runs.append([i, i, v])
    out = []
    for k in range(1, len(runs) - 1):
        a, b, c = runs[k - 1][2], runs[k][2], runs[k + 1][2]
        if b > a and b > c:
            out.append((1, runs[k][0], runs[k][1], b))
        elif b < a and b < c:
            out.append((-1, runs[k][0], runs[k][1], b))
    return out


def measure(y, sr, tol=1e-9):
    """Largest peak-to-trough / 2 (same units) and [(lag range, time range)] of the pairs that
    have it, in samples; None when there is no pair."""
    d = detrended(y)
    if not len(d) or d.max() - d.min() <= tol * max(1.0, np.abs(y).max()):
        return d, None, []
    t = tol * max(1.0, np.abs(y).max())
    ex = extremes(d, t)
    best, pairs = None, []
    for p, q in zip(ex, ex[1:]):
        h = abs(p[3] - q[3]) / 2
        if best is None or h > best + t:
            best, pairs = h, []
        if abs(h - best) <= t:
            lag = (q[1] - p[2], q[2] - p[1])
            mid = ((p[1] + q[1]) / 2, (p[2] + q[2]) / 2)
            pairs.append((lag, mid))
    return d, best, pairs


def average(d, method):
    if method == "RMS":
        return math.sqrt(float((d ** 2).mean()))
    if method == "STD":
        return math.sqrt(float(((d - d.mean()) ** 2).mean()))
    n = len(d)
    f = np.fft.fft(d)
    h = np.zeros(n)
    h[0] = 1
    if n % 2 == 0:
        h[n // 2] = 1
        h[1:n // 2] = 2
    else:
        h[1:(n + 1) // 2] = 2
    return float(np.abs(np.fft.ifft(f * h)).mean())


def ref_windows(otime, tts, picks, mw, frac, sw):
    """Seconds after otime: ((P start, P end), (S start, S end)), picked -- or None."""
    picked = any(isinstance(picks.get(p), float) for p in "PS")
    at = {}
    if not picks:
        at = {"P": tts[0], "S": tts[1]}
    elif "P" not in picks or "S" not in picks:
        at = {"P": tts[0], "S": tts[1]}
    else:
        for p, tt in zip("PS", tts):
            at[p] = picks[p] if isinstance(picks[p], float) else tt
    if at["P"] >= at["S"]:
        return None, False
    w = {p: mw + tt * frac for p, tt in zip("PS", tts)}
    p0, p1 = at["P"] - w["P"], at["P"] + w["P"]
    s0, s1 = at["S"] - w["S"], at["S"] + w["S"] + sw
    if s0 < p1:
        p1 = s0 = (s0 + p1) / 2
    else:
        p1 = min(p1 + sw, s0)
    return ((p0, p1), (s0, s1)), picked


def butter_gain(f, sr, kind, fc, n):
    """|H| of the digital Butterworth filter (bilinear transform, prewarped)."""
    w = math.tan(math.pi * f / sr)
    if kind == "highpass":
        wc = math.tan(math.pi * fc / sr)
        return 1 / math.sqrt(1 + (wc / w) ** (2 * n)) if w else 0.0
    w1, w2 = (math.tan(math.pi * x / sr) for x in fc)
    return 1 / math.sqrt(1 + ((w * w - w1 * w2) / (w * (w2 - w1))) ** (2 * n)) if w else 0.0


# ------------------------------------------------------------------ driving

class Data:
    def __init__(self, stream, broken=()):
        self.raw_waveforms = stream
        self.broken = set(broken)

    def get_wa_waveform(self, tr, velocity=False):
        import quakemigrate.util as util

        if tr.id in self.broken:
            raise util.ResponseNotFoundError("no response", tr.id)
        if velocity:
            raise AssertionError("velocity waveform requested")
        return tr.copy()


def pick_table(picks, tts):
    rows = []
    for s, ps in picks.items():
        for p, v in ps.items():
            t = T0 + v if isinstance(v, float) else "-1"
            rows.append([s, p, T0 + tts[s]["PS".index(p)], t, 0.1 if isinstance(v, float) else "-1",
                         2.0 if isinstance(v, float) else "-1"])
    return pd.DataFrame(rows, columns=["Station", "Phase", "ModelledTime", "PickTime",
                                       "PickError", "SNR"])


def run_amps(tts, traces, picks, params, mw=0.16, frac=0.0, order=None, broken=(), kind="lcc_km",
             node=(1, 1, 1)):
    from quakemigrate.io.event import Event
    from quakemigrate.signal.local_mag.amplitude import Amplitude

    stations = list(order or tts)
    lut = world.make_lut((3, 3, 3), (1.0, 1.0, 1.0), stations, ("P", "S"), fraction_tt=frac, kind=kind,
                         tt=lambda s, ph, ijk: tts[stations[s]][ph == "S"] + 0.5 * (
                             (ijk[0] - node[0]) + 2 * (ijk[1] - node[1]) + 3 * (ijk[2] - node[2]) + 0.0)
                         .clip(0))
    ev = Event(mw, pd.Series(dict(EventID="20151231235959500", CoaTime=T0, TRIG_COA=1.0, COA=1.0,
                                  COA_NORM=1.0)))
    ev.data = Data(Stream(traces), broken)
    ev.otime = T0
    xyz = lut.index2coord([list(node)])[0]
    ev.add_spline_location(xyz)
    ev.picks = {"df": pick_table(picks, tts)}
    before = [(t.id, t.stats.starttime.ns, t.data.copy()) for t in traces]
    amp = Amplitude(dict(params))
    df = amp.get_amplitudes(ev, lut)
    changed = [b[0] for b, t in zip(before, traces)
               if b[1] != t.stats.starttime.ns or not np.array_equal(b[2], t.data)]
    return df, lut, xyz, amp, changed


def hash_noise(n, salt, i0=0):
    idx = np.arange(i0, i0 + n, dtype=np.int64) + 100000
    return ((idx * 7919 + salt * 104729 + (idx * idx) % 1009 * 31) % 2003) / 1000.0 - 1.0


def make_trace(sta, cha, i0, i1, salt, sr=SR, value=None, net="N"):
    """Samples i0..i1 relative to T0."""
    y = hash_noise(i1 - i0 + 1, salt, i0) if value is None else value(np.arange(i0, i1 + 1))
    return Trace(np.array(y, float), header=dict(network=net, station=sta, channel=cha, sampling_rate=sr,
                                                 starttime=T0 + i0 / sr))


def near(a, b, rel=1e-7, ab=1e-9):
    return abs(a - b) <= ab + rel * abs(b)


def is_null(v):
    return v is None or (isinstance(v, float) and math.isnan(v)) or v is pd.NaT


def nearest(t, sr):
    x = t * sr
    return math.floor(x + 0.5)


def window_data(tr, t0, t1, sr):
    """Samples of a trace nearest to t0..t1 seconds after T0 (inclusive)."""
    off = round((tr.stats.starttime - T0) * sr)
    a, b = nearest(t0, sr) - off, nearest(t1, sr) - off
    return tr.data[max(a, 0):b + 1], max(a, 0) + off


def check_row(ctx, lab, row, tr, wins, picked, noise_window, method="RMS", sr=SR, gain=None):
    ctx.check(bool(row["is_picked"]) == picked, "is-picked", lambda: f"{lab}: {row['is_picked']}")
    for ph, (a, b) in zip("PS", wins):
        y, i0 = window_data(tr, a, b, sr)
        d, half, pairs = measure(y, sr)
        got = row[f"{ph}_amp"]
        what = f"{lab}; {ph} window {a:.3f}..{b:.3f} s, samples {np.round(y, 6).tolist()}"
        if half is None:
            ctx.check(is_null(got), "invented-amplitude", lambda: f"{what}: {got}")
            continue
        ctx.check(not is_null(got), "amplitude-missing", lambda: f"{what}: wanted {half * 1e3}")
        g = 1.0
        f = row[f"{ph}_freq"]
        if gain is not None:
            g = gain(f)
            ctx.check(near(row[f"{ph}_filter_gain"], g, 1e-4, 1e-9), "filter-gain",
                      lambda: f"{what}: {row[f'{ph}_filter_gain']}, wanted {g} at {f} Hz")
        else:
            ctx.check(is_null(row[f"{ph}_filter_gain"]), "filter-gain", what)
        rel = 1e-7 if gain is None else 1e-3
        ctx.check(near(got, half * 1e3 / g, rel), "amplitude",
                  lambda: f"{what}: {got}, wanted {half * 1e3 / g}")
        avg = average(d, method) * 1e3 / g
        ctx.check(near(row[f"{ph}_avg_amp"], avg, rel), "average-amplitude",
                  lambda: f"{what}: {row[f'{ph}_avg_amp']}, wanted {avg} ({method})")
        t = (UTCDateTime(str(row[f"{ph}_time"])) - T0) * sr - i0
        ok = False
        for (l0, l1), (m0, m1) in pairs:
            lag = sr / (2 * f)
            if l0 - 1e-3 <= lag <= l1 + 1e-3 and m0 - 0.501 <= t <= m1 + 0.501 and (
                    l0 != l1 or near(lag, l0, 1e-6)) and (m0 != m1 or abs(t - m0) < 1e-3):
                ok = True
        ctx.check(ok, "cycle", lambda: f"{what}: frequency {f}, time {t} samples in, wanted one of {pairs}")
    a = wins[0][0]
    y, _ = window_data(tr, a - noise_window, a, sr)
    got = row["Noise_amp"]
    if len(y) == 0 or y.max() == y.min():
        ctx.check(is_null(got), "noise-invented", lambda: f"{lab}: {got}")
    else:
        want = average(detrended(y), method) * 1e3
        ctx.check(not is_null(got) and near(got, want, 1e-7), "noise-amplitude",
                  lambda: f"{lab}: {got}, wanted {want} from {np.round(y, 6).tolist()}")


def check_null(ctx, lab, row):
    for c in ("P_amp", "P_freq", "P_time", "P_avg_amp", "S_amp", "S_freq", "S_time", "S_avg_amp",
              "Noise_amp"):
        ctx.check(is_null(row[c]), "null-row", lambda: f"{lab}: {c} = {row[c]}")


def check_dist(ctx, lab, row, lut, xyz, sta):
    from obspy.geodetics import gps2dist_azimuth

    s = lut.station_data[lut.station_data["Name"] == sta].iloc[0]
    cf = 1000 / lut.unit_conversion_factor
    epi = gps2dist_azimuth(xyz[1], xyz[0], s["Latitude"], s["Longitude"])[0] / 1000
    z = (xyz[2] - s["Elevation"]) / cf
    ctx.check(near(row["epi_dist"], epi, 1e-9) and near(row["z_dist"], z, 1e-9, 1e-12), "distance",
              lambda: f"{lab}: {row['epi_dist']}, {row['z_dist']}; wanted {epi}, {z}")


PADS = (-90, 170)     # samples around T0 that every complete trace covers


# ------------------------------------------------------------------ group shapes

# no two neighbours equal: what rounding makes of an exact plateau is not specified
JITTER = 0.004 * np.array([0, 5, 2, 7, -3, 1, -6])

def shape_cases(tier):
    alpha = (-1, 0, 1) if tier == "quick" else (-2, -1, 0, 1)
    n = 7
    for pre in itertools.product(alpha, repeat=4 if tier == "quick" else 3):
        yield dict(alpha=alpha, n=n, pre=pre)


def shape_run(case, ctx):
    n, pre, alpha = case["n"], tuple(case["pre"]), case["alpha"]
    words = [pre + rest for rest in itertools.product(alpha, repeat=n - len(pre))]
    tts, traces, where = {}, [], {}
    arr = (1.0, 2.0)
    per = 6     # words per station: 3 components x P, S
    for k in range(0, len(words), per):
        s = f"S{k:04d}"
        tts[s] = arr
        for c, cha in enumerate(("HHE", "HHN", "HHZ")):
            a = words[(k + 2 * c) % len(words)]
            b = words[(k + 2 * c + 1) % len(words)]
            y = hash_noise(PADS[1] - PADS[0] + 1, k + c, PADS[0])
            for w, t in ((a, arr[0]), (b, arr[1])):
                i = round(t * SR) - PADS[0] - n // 2
                y[i:i + n] = np.array(w) + JITTER
            traces.append(make_trace(s, cha, PADS[0], PADS[1], 0, value=lambda i, y=y: y))
            where[s, cha] = (a, b)
    params = dict(signal_window=0.0, noise_window=1.0)
    df, lut, xyz, amp, changed = run_amps(tts, traces, {}, params)
    ctx.check(not changed, "input-modified", lambda: f"{changed}")
    ctx.check(len(df) == len(traces), "rows", lambda: f"{len(df)} rows for {len(traces)} channels")
    ctx.add(transitions=2 * len(traces))
    for tr in traces:
        row = df.loc[tr.id]
        a, b = where[tr.stats.station, tr.stats.channel]
        ctx.count((a, b))
        wins, picked = ref_windows(T0, arr, {}, 0.16, 0.0, 0.0)
        check_row(ctx, f"waveforms {a} / {b}", row, tr, wins, picked, 1.0)
    ctx.sample(prefix=pre, channels=len(traces))


# ------------------------------------------------------------------ group windows

PICKS = (None, "-1", -0.15, 0.0, 0.15)


def window_cases(tier):
    seps = (0.05, 0.2, 0.45, 0.7, 1.2, 2.0) if tier == "quick" else (
        0.05, 0.1, 0.2, 0.3, 0.4, 0.45, 0.5, 0.6, 0.7, 0.8, 1.0, 1.2, 1.6, 2.0)
    for sep in seps:
        for sw in (0.0, 0.5, 1.25) if tier == "quick" else (0.0, 0.1, 0.5, 1.25, 2.5):
            for mw, frac in ((0.16, 0.0), (0.16, 0.1), (0.06, 0.3), (0.41, 0.05)):
                for method in ("RMS", "STD", "ENV"):
                    yield dict(sep=sep, sw=sw, mw=mw, frac=frac, method=method,
                               nw=0.8 if method != "STD" else 1.6)


def window_run(case, ctx):
    sep, sw, mw, frac, method, nw = (case[k] for k in ("sep", "sw", "mw", "frac", "method", "nw"))
    ptt = 1.013
    tts, picks, traces, sets = {}, {}, [], {}
    combos = list(itertools.product(PICKS, PICKS))
    order = []
    for k, (p, s) in enumerate(combos):
        name = f"S{(k * 7) % len(combos):02d}"   # table order differs from alphabetical
        order.append(name)
        # every station has its own traveltimes
        tt = (ptt + 0.0041 * k, ptt + sep + 0.0041 * k)
        tts[name] = tt
        ps = {}
        for ph, v, t in (("P", p, tt[0]), ("S", s, tt[1])):
            if v == "-1":
                ps[ph] = "-1"
            elif v is not None:
                ps[ph] = float(t + v)
        sets[name] = ps
        if ps:
            picks[name] = ps
        traces.append(make_trace(name, "HHN", -180, 400, k))
    for rev in (False, True):
        pk = dict(reversed(picks.items())) if rev else picks
        df, lut, xyz, amp, changed = run_amps(tts, traces, pk, dict(
            signal_window=sw, noise_window=nw, noise_measure=method), mw=mw, frac=frac, order=order)
        ctx.check(not changed, "input-modified", lambda: f"{changed}")
        ctx.check(len(df) == 3 * len(traces), "rows", lambda: f"{len(df)}")
        for tr in traces:
            name = tr.stats.station
            lab = f"{case}, picks {sets[name]}, traveltimes {tts[name]}"
            ctx.count((sep, sw, mw, frac, method, name, rev))
            row = df.loc[tr.id]
            check_dist(ctx, lab, row, lut, xyz, name)
            at = [v if isinstance(v, float) else t for v, t in
                  ((sets[name].get(p), t) for p, t in zip("PS", tts[name]))]
            if len(sets[name]) != 1 and abs(at[0] - at[1]) < 1e-5:
                ctx.add(simultaneous=1)     # which is first is a matter of rounding
                continue
            wins, picked = ref_windows(T0, tts[name], sets[name], mw, frac, sw)
            if wins is None:
                ctx.add(pick_order=1)
                check_null(ctx, lab, row)
                continue
            ctx.check(wins[0][1] <= wins[1][0] and wins[0][0] < wins[0][1] and wins[1][0] < wins[1][1],
                      "harness", lab)
            # windows ending midway between samples can round either way
            ends = [x for w in wins for x in w] + [wins[0][0] - nw]
            if any(abs((x * SR) % 1 - 0.5) < 1e-3 for x in ends):
                ctx.add(midway=1)
                continue
            check_row(ctx, lab, row, tr, wins, picked, nw, method)
    ctx.sample(**case)


# ------------------------------------------------------------------ group coverage

FATES = ("ok", "none", "gap", "late", "late-in-tolerance", "early", "early-in-tolerance", "no-response",
         "twice", "flat", "other-name")


def cover_cases(tier):
    yield dict(kind="pads")
    for a in FATES:
        for b in FATES:
            yield dict(kind="fates", a=a, b=b)
    if tier == "thorough":
        for a, b, c in itertools.product(FATES, repeat=3):
            yield dict(kind="fates", a=a, b=b, c=c)


def cover_run(case, ctx):
    arr = (1.0, 2.5)
    nw, sw, mw = 1.0, 0.5, 0.16
    params = dict(signal_window=sw, noise_window=nw)
    pre, post = nw + mw, sw + arr[1] + mw
    span = pre + post
    # as documented, the data must leave room for a taper of 5% of the window used
    df, lut, xyz, amp, _ = run_amps({"A": arr}, [make_trace("A", "HHZ", -400, 400, 1)], {}, params)
    max_tt = lut.max_traveltime
    pads = amp.pad(mw, max_tt, 0.0)
    raw = (nw + mw, sw + max_tt + mw)
    taper = 0.05 * sum(pads)
    ctx.check(all(p - r >= taper for p, r in zip(pads, raw)), "taper-pads", f"{pads}, {raw}")
    if case["kind"] == "pads":
        from quakemigrate.signal.local_mag.amplitude import Amplitude

        for mwi, tti, fr, nwi, swi in itertools.product(
                (0.01, 0.5, 3.0, 12.0), (0.1, 1.0, 7.3, 40.0, 200.0), (0.0, 0.1, 0.5),
                (0.0, 1.0, 5.0, 20.0), (0.0, 1.0, 30.0)):
            p, q = Amplitude(dict(signal_window=swi, noise_window=nwi)).pad(mwi, tti, fr)
            need = (nwi + mwi, swi + tti * (1 + fr) + mwi)
            t = 0.05 * (p + q)
            ctx.count((mwi, tti, fr, nwi, swi))
            ctx.check(p >= need[0] + t and q >= need[1] + t, "taper-pads",
                      f"mw {mwi}, tt {tti}, fraction {fr}, windows {nwi}, {swi}: {p}, {q}")
        return
    lo, hi = math.floor(-pads[0] * SR), math.ceil(pads[1] * SR)   # complete coverage
    tol_lo, tol_hi = round(-pads[0] * SR), round(pads[1] * SR)
    fates = [case["a"], case["b"], case.get("c", "ok")]
    chans = {"A": ("HHE", "HHN", "HHZ"), "B": ("HH2", "HH1", "HHZ")}
    traces, broken, fate_of = [], [], {}
    for s, comps in chans.items():
        for c, (cha, fate) in enumerate(zip(comps, fates if s == "A" else fates[::-1])):
            salt = 10 * c + ord(s)
            fate_of[s, cha] = fate
            if fate == "none":
                continue
            if fate == "gap":
                traces += [make_trace(s, cha, lo - 5, 3, salt), make_trace(s, cha, 9, hi + 5, salt)]
            elif fate == "late":
                traces.append(make_trace(s, cha, tol_lo + 2, hi + 5, salt))
            elif fate == "late-in-tolerance":
                traces.append(make_trace(s, cha, tol_lo, hi + 5, salt))
            elif fate == "early":
                traces.append(make_trace(s, cha, lo - 5, tol_hi - 2, salt))
            elif fate == "early-in-tolerance":
                traces.append(make_trace(s, cha, lo - 5, tol_hi, salt))
            elif fate == "twice":
                traces += [make_trace(s, cha, lo - 5, hi + 5, salt),
                           make_trace(s, "B" + cha[1:], lo - 5, hi + 5, salt + 1)]
            elif fate == "flat":
                traces.append(make_trace(s, cha, lo - 5, hi + 5, salt, value=lambda i: 0 * i + 3.7))
            elif fate == "other-name":
                # the station's name as part of another station's, and as location
                traces.append(make_trace(s + s, cha, lo - 5, hi + 5, salt))
            else:
                traces.append(make_trace(s, cha, lo - 5, hi + 5, salt))
                if fate == "no-response":
                    broken.append(traces[-1].id)
    picks = {"A": {"P": 1.02, "S": "-1"}}
    tts = {"A": arr, "B": (1.2, 2.3)}
    df, lut, xyz, amp, changed = run_amps(tts, traces, picks, params, broken=broken)
    ctx.check(not changed, "input-modified", lambda: f"{case}: {changed}")
    ctx.check(len(df) == 6, "rows", lambda: f"{case}: {len(df)} rows")
    for s, comps in chans.items():
        for c, cha in enumerate(comps):
            fate = fate_of[s, cha]
            row = df.iloc[3 * "AB".index(s) + c]
            lab = f"{case}; {s} {cha} {fate}"
            ctx.count((s, cha, tuple(fates)), nontrivial=fate != "none")
            check_dist(ctx, lab, row, lut, xyz, s)
            if fate in ("ok", "late-in-tolerance", "early-in-tolerance"):
                tr = [t for t in traces if t.stats.station == s and t.stats.channel == cha][0]
                ctx.check(df.index[3 * "AB".index(s) + c] == tr.id, "row-id", lambda: f"{lab}: {df.index}")
                wins, picked = ref_windows(T0, tts[s], picks.get(s, {}), mw, 0.0, sw)
                check_row(ctx, lab, row, tr, wins, picked, nw)
            else:
                check_null(ctx, lab, row)
    ctx.sample(**case)


# ------------------------------------------------------------------ group filters

def filter_cases(tier):
    for corners in (2, 4):
        for fc in (0.7, 1.5, 4.0):
            yield dict(kind="highpass", fc=fc, corners=corners, sr=SR)
            yield dict(kind="highpass", fc=fc, corners=corners, sr=50)
        for lo, hi in ((0.8, 4.0), (1.5, 9.0), (1.0, 9.99), (2.0, 10.0), (2.0, 15.0), (2.0, 24.0)):
            yield dict(kind="bandpass", fc=(lo, hi), corners=corners, sr=SR)
            yield dict(kind="bandpass", fc=(lo, hi), corners=corners, sr=50)


def filter_run(case, ctx):
    kind, fc, n, sr = case["kind"], case["fc"], case["corners"], case["sr"]
    arr, nw, sw, mw = (1.0, 2.0), 1.0, 0.3, 0.163
    params = dict(signal_window=sw, noise_window=nw, filter_corners=n)
    if kind == "highpass":
        params.update(highpass_filter=True, highpass_freq=fc)
    else:
        params.update(bandpass_filter=True, bandpass_lowcut=fc[0], bandpass_highcut=fc[1])
    eff, efc = kind, fc
    if kind == "bandpass" and fc[1] >= sr / 2:
        eff, efc = "highpass", fc[0]
    tts, traces = {}, []
    for k in range(4):
        tts[f"S{k}"] = (arr[0] + 0.004 * k, arr[1] + 0.3 * k + 0.004 * k)
        for cha in ("HHE", "HHN", "HHZ"):
            traces.append(make_trace(f"S{k}", cha, -12 * sr, 14 * sr, k * 3 + ord(cha[-1]), sr=sr))
    df, lut, xyz, amp, changed = run_amps(tts, traces, {}, params, mw=mw)
    ctx.check(not changed, "input-modified", lambda: f"{changed}")
    pre, post = amp.pad(mw, lut.max_traveltime, 0.0)
    for tr in traces:
        ref = Stream([tr.copy()]).trim(T0 - pre, T0 + post)[0]
        ref.detrend("linear")
        ref.taper(0.05, "cosine")
        if eff == "highpass":
            ref.filter("highpass", freq=efc, corners=n)
        else:
            ref.filter("bandpass", freqmin=efc[0], freqmax=efc[1], corners=n)
        wins, picked = ref_windows(T0, tts[tr.stats.station], {}, mw, 0.0, sw)
        ctx.count((kind, str(fc), n, sr, tr.id))
        row = df.loc[tr.id]
        ends = [x for w in wins for x in w] + [wins[0][0] - nw]
        if any(abs((x * sr) % 1 - 0.5) < 1e-3 for x in ends):
            continue
        # a cycle of two samples has the Nyquist frequency, where a bandpass has no gain
        lab = f"{case}, {tr.id}"
        for ph in "PS":
            if is_null(row[f"{ph}_amp"]):
                w = wins["PS".index(ph)]
                d, half, pairs = measure(window_data(ref, *w, sr)[0], sr)
                if pairs and all(lag[0] == 1 for lag, _ in pairs) and eff == "bandpass":
                    ctx.add(no_gain=1)
                    break
        else:
            check_row(ctx, lab, row, ref, wins, picked, nw, sr=sr,
                      gain=lambda f: butter_gain(f, sr, eff, efc, n))
    ctx.sample(**case)


# ------------------------------------------------------------------ group response

def response_cases(tier):
    for full in (False, True):
        for freq in (1.0, 2.5, 6.0) if tier == "quick" else (0.8, 1.0, 1.7, 2.5, 4.0, 6.0, 9.0):
            for unit in ("lcc_km", "lcc_m"):
                yield dict(full=full, freq=freq, kind=unit)
            for sensor in SENSORS:
                yield dict(full=full, freq=freq, kind="lcc_km", sensor=sensor)


# units of the ground motion recorded, of poles and zeros, frequency the sensitivity is for
SENSORS = {
    "hertz": ("M/S", "LAPLACE (HERTZ)"),
    "accelerometer": ("M/S**2", "LAPLACE (RADIANS/SECOND)"),
    "accelerometer-hertz": ("m/s**2", "LAPLACE (HERTZ)"),
    "accelerometer-sec": ("M/SEC**2", "LAPLACE (RADIANS/SECOND)"),
}


def response_run(case, ctx):
    """Ground displacement of known size through a seismometer: the amplitude must be the
    Wood-Anderson response to it, in millimetres."""
    from obspy.core.inventory import Channel, Inventory, Network, Response, Station
    from quakemigrate.io.data import WaveformData
    from quakemigrate.io.event import Event
    from quakemigrate.signal.local_mag.amplitude import Amplitude

    sr, f = 100, case["freq"]
    w = 2 * math.pi * f
    zeros, poles = [0j, 0j], [-0.037 + 0.037j, -0.037 - 0.037j, -251.33 + 0j]
    units, form = SENSORS.get(case.get("sensor"), ("M/S", "LAPLACE (RADIANS/SECOND)"))
    motion = {"M/S": 1, "M/S**2": 2, "M/SEC**2": 2}[units.upper()]     # order of the derivative
    if motion == 2:
        zeros, poles = [], [-620.0 + 620.0j, -620.0 - 620.0j]
    per = 2 * math.pi if "HERTZ" in form else 1.0

    def sensor(s):
        s = s / per
        return np.prod([s - z / per for z in zeros]) / np.prod([s - p / per for p in poles])

    norm = 1 / abs(sensor(2j * math.pi))
    sens = {"HHE": 8.0e8, "HHN": 3.0e8, "HHZ": 1.5e9}
    chans = []
    for c, g in sens.items():
        r = Response.from_paz([z / per for z in zeros], [p / per for p in poles], stage_gain=g, stage_gain_frequency=1.0,
                              normalization_factor=norm, normalization_frequency=1.0, input_units=units,
                              pz_transfer_function_type=form)
        r.instrument_sensitivity.value = g
        chans.append(Channel(c, "", 6.2, 116.7, 0, 0, sample_rate=sr, response=r))
    inv = Inventory([Network("N", [Station("A", 6.2, 116.7, 0, channels=chans)])])
    size = {"HHE": 2e-6, "HHN": -5e-7, "HHZ": 3e-8}     # metres
    H = norm * sensor(1j * w) * (1j * w) ** motion
    t = np.arange(-40 * sr, 60 * sr) / sr
    traces = []
    for c in sens:
        env = np.exp(-0.5 * ((t - 3.0) / 20.0) ** 2)
        y = size[c] * env * sens[c] * np.real(H * np.exp(1j * w * t))
        traces.append(Trace(y, header=dict(network="N", station="A", channel=c, sampling_rate=sr,
                                           starttime=T0 - 40)))
    wa = (1j * w) ** 2 / ((1j * w - (-6.283185 - 4.712j)) * (1j * w - (-6.283185 + 4.712j))) * 2080
    data = WaveformData(T0 - 40, T0 + 60)
    data.response_inv, data.remove_full_response = inv, case["full"]
    data.water_level, data.pre_filt = 60.0 if motion == 1 else 120.0, None
    data.raw_waveforms = Stream(traces)
    lut = world.make_lut((3, 3, 3), (1.0, 1.0, 1.0) if case["kind"].endswith("km") else (1e3, 1e3, 1e3),
                         ("A",), ("P", "S"), fraction_tt=0.0, kind=case["kind"],
                         tt=lambda s, ph, ijk: np.full(ijk[0].shape, 4.0 if ph == "S" else 1.0))
    ev = Event(1.0, pd.Series(dict(EventID="x", CoaTime=T0, TRIG_COA=1.0, COA=1.0, COA_NORM=1.0)))
    ev.data, ev.otime = data, T0
    xyz = lut.index2coord([[1, 1, 1]])[0]
    ev.add_spline_location(xyz)
    ev.picks = {"df": pick_table({}, {})}
    df = Amplitude(dict(signal_window=5.0, noise_window=8.0)).get_amplitudes(ev, lut)
    for c in sens:
        ctx.check(f"N.A..{c}" in df.index, "missing-channel", lambda: f"{case}: {list(df.index)}")
        row = df.loc[f"N.A..{c}"]
        check_dist(ctx, f"{case}", row, lut, xyz, "A")
        want = abs(size[c]) * abs(wa) * 1e3
        for ph in "PS":
            ctx.count((str(case), c, ph))
            got = row[f"{ph}_amp"]
            # the pulse has its envelope maximum in the S window
            ctx.check(0.9 * want <= got <= 1.1 * want if ph == "P" else
                      0.96 * want <= got <= 1.03 * want, "wood-anderson-amplitude",
                      lambda: f"{case}, {c} {ph}: {got} mm, wanted {want}")
            ctx.check(abs(row[f"{ph}_freq"] / f - 1) < 0.12, "frequency", lambda: f"{case}: {row[f'{ph}_freq']}")
    ctx.sample(**case)


def groups():
    return [
        Group("shapes", shape_cases, shape_run, timeout=300),
        Group("windows", window_cases, window_run, timeout=300),
        Group("coverage", cover_cases, cover_run, timeout=300),
        Group("filters", filter_cases, filter_run, timeout=300),
        Group("response", response_cases, response_run, timeout=300),
    ]
