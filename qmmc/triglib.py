"""Running the real Trigger over explorer-chosen coalescence, with a reference."""

import csv
import pathlib

import numpy as np
from obspy import Stream, Trace, UTCDateTime

from . import world


def write_scan(run_dir, start, sr, coa, coan, xyz, ucf=1.0):
    """Day files as detect writes them (integers, one channel each)."""
    d = pathlib.Path(run_dir) / "detect" / "scanmseed"
    d.mkdir(parents=True, exist_ok=True)
    start = UTCDateTime(start)
    i0 = world.sample_index(start, sr)
    series = {"COA": np.asarray(coa) * 1e5, "COA_N": np.asarray(coan) * 1e5,
              "X": xyz[:, 0] * 1e6, "Y": xyz[:, 1] * 1e6, "Z": xyz[:, 2] * 1e3 * ucf}
    n = len(series["COA"])
    k = 0
    while k < n:
        t = UTCDateTime(ns=int(round((i0 + k) * 1e9 / sr)))
        nxt = world.sample_index(UTCDateTime(t.date) + 86400, sr) - i0
        m = min(n, nxt)
        st = Stream()
        for ch, v in series.items():
            st += Trace(data=np.round(v[k:m]).astype(np.int32),
                        header=dict(network="NW", station=ch, sampling_rate=sr, starttime=t))
        st.write(str(d / f"{world.day_name(t)}.scanmseed"), format="MSEED", encoding="STEIM1")
        k = m


def trigger(lut, path, start, end, region=None, name="run", **kw):
    from quakemigrate.signal import Trigger

    trig = Trigger(lut, str(path), name, plot_trigger_summary=False, **kw)
    trig.trigger(str(start), str(end), region=region)
    return trig


def read_events(path, name="run", sub=""):
    """{file name: [row dict]} of the triggered-event files, without QuakeMigrate."""
    d = pathlib.Path(path) / name / "trigger" / sub / "events"
    out = {}
    for f in sorted(d.iterdir()) if d.exists() else []:
        with open(f) as fh:
            out[f.name] = list(csv.DictReader(fh))
    return out


def mad_threshold(x, window, mult):
    thr = np.empty(len(x))
    for k in range(0, len(x), window):
        c = np.asarray(x[k:k + window], float)
        m = float(np.median(c))
        thr[k:k + window] = m + mult * (1.4826 * float(np.median(np.abs(c - m))))
    return thr


def median_threshold(x, window, mult):
    thr = np.empty(len(x))
    for k in range(0, len(x), window):
        thr[k:k + window] = float(np.median(np.asarray(x[k:k + window], float))) * mult
    return thr


def runs(above):
    """[(first, last)] of each maximal run of True."""
    out, k, n = [], 0, len(above)
    while k < n:
        if above[k]:
            j = k
            while j + 1 < n and above[j + 1]:
                j += 1
            out.append((k, j))
            k = j + 1
        else:
            k += 1
    return out


def reference_events(coa, trig, thr, mw, mei):
    """Candidates and merged events in sample units (mw, mei in samples):
    [dict(peak, first, last, lo, hi)]"""
    cands = []
    for a, b in runs(np.asarray(trig) >= thr):
        p = a + int(np.argmax(coa[a:b + 1]))
        cands.append(dict(peak=p, trig=trig[p], lo=min(p, a + mw) - mei,
                          hi=max(p, b - mw) + mei))
    groups = []
    for c in cands:
        if groups:
            e = groups[-1][-1]
            apart = e["hi"] < c["peak"] - mw and c["lo"] > e["peak"] + mw
            if not apart:
                groups[-1].append(c)
                continue
        groups.append([c])
    out = []
    for g in groups:
        best = max(g, key=lambda c: c["trig"])
        out.append(dict(peak=best["peak"], lo=min(c["lo"] for c in g),
                        hi=max(c["hi"] for c in g), members=len(g)))
    return out


def event_id(t):
    return f"{t.year:04d}{t.month:02d}{t.day:02d}{t.hour:02d}{t.minute:02d}{t.second:02d}" \
           f"{t.microsecond // 1000:03d}"
