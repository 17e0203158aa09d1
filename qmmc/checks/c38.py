"""The coalescence at a time does not depend on how the span that holds it is scanned."""

import functools
import itertools
import pathlib
import shutil
import tempfile

import numpy as np
from obspy import Stream, UTCDateTime, read

from qmmc import archlib, locatelib, world
from qmmc.checks import c37
from qmmc.core import Group

LEVEL = "exploration"
RULE = ("one evaluation = one time step of one detect run (or one event of one locate run) over real files, with the real onset function. Its "
        "coalescence, normalised coalescence and locations must be, sample by sample, those of a run over the whole "
        "span in one step, by a table and archive that hold the channels only that are complete in the window of this "
        "step: whatever the time step, the start and length of the span, midnights in it, and whatever data are "
        "missing, where. So must the peaks at each time of the 4-D coalescence that locate computes about a triggered "
        "event. A step with no channel left has no coalescence. Non-trivial: all.")
ASSUMPTIONS = ["filters act over less than the pads: values agree to 1e-3 of their size for corners of 2 Hz and above, "
               "and to 5e-3 for a corner of 0.5 Hz",
               "a gap within two samples of either end of a step's window may count as in it or not",
               "a channel with two segments in the window counts as incomplete, as documented for allow_gaps=False"]

STATIONS = c37.STATIONS
SR = 50
START = UTCDateTime("2015-12-31T23:59:10")
SPAN = 90.0
CHANNELS = [(s, c) for s in STATIONS for c in ("HHZ", "HHN", "HHE")]
SOURCES = [(7.0, (1, 5, 4)), (21.32, (4, 1, 0)), (33.5, (2, 3, 1)), (49.9, (5, 6, 0)), (50.8, (0, 0, 3)), (74.21, (3, 2, 2))]

CONFIGS = {
    "classic": dict(position="classic", windows=[0.1, 1.0], band=[2, 20, 2]),
    "centred": dict(position="centred", windows=[0.2, 1.5], band=[2, 16, 4]),
    "low": dict(position="classic", windows=[0.5, 3.0], band=[0.5, 20, 3], tol=5e-3),
    "P": dict(position="centred", windows=[0.1, 1.0], band=[3, 20, 2], phases=("P",), transform="env_squared"),
    "all": dict(position="classic", windows=[0.1, 0.8], band=[2, 20, 2], all_channels=True, transform="abs"),
    "decimated": dict(position="classic", windows=[0.1, 1.0], band=[2, 16, 2], factor=2),
}


def value(cf):
    sr = SR * cf.get("factor", 1)
    base = round(START.ns / 1e9 * sr)

    def f(s, c, idx):
        k = np.asarray(idx, dtype=np.int64)
        t = (k - base) / sr
        # noise that is a function of the sample's number
        h = (k * 2654435761 + 97 * ord(s[0]) + 31 * ord(c[-1]) + len(s)) % 4294967296
        h = (h ^ (h >> 13)) * 1274126177 % 4294967296
        y = (h ^ (h >> 16)) % 41 - 20.0 + 9 * np.sin(17.3 * t + ord(c[-1]))
        for at, node in SOURCES:
            for ph, size in (("P", 900 if c == "HHZ" else 90), ("S", 120 if c == "HHZ" else 900)):
                x = t - at - c37.arrival(s, ph, node)
                m = (x >= 0) & (x < 4)
                y[m] += size * np.exp(-x[m] / 0.25) * np.sin(2 * np.pi * 7 * x[m])
        return np.round(y).astype(np.int32)
    return f


def write(cf, root, cuts=None):
    """The archive; cuts: {channel: [(seconds, seconds) without data]}, in samples of the archive"""
    sr = SR * cf.get("factor", 1)
    base = round(START.ns / 1e9 * sr)
    first, last = base - 80 * sr, base + round((SPAN + 130) * sr)
    segs = {}
    for ch in CHANNELS:
        s = [(first, last)]
        for a, b in (cuts or {}).get(ch, ()):
            a, b = base + round(a * sr), base + round(b * sr)       # without samples a..b-1
            s = [x for u, v in s for x in ((u, min(v, a - 1)), (max(u, b), v)) if x[1] >= x[0]]
        if s:
            segs[ch] = s
    archlib.write_archive(root, sr, segs, value=value(cf))


def make_scan(cf, d, archive, name, **kw):
    from quakemigrate.io import Archive
    from quakemigrate.signal import QuakeScan
    from quakemigrate.signal.onsets import STALTAOnset
    from quakemigrate.signal.pickers import GaussianPicker

    phases = cf.get("phases", ("P", "S"))
    onset = STALTAOnset(position=cf["position"], sampling_rate=SR, signal_transform=cf.get("transform", "energy"),
                        all_channels=cf.get("all_channels", False))
    onset.phases = list(phases)
    onset.bandpass_filters = {p: list(cf["band"]) for p in phases}
    onset.sta_lta_windows = {p: list(cf["windows"]) for p in phases}
    ar = Archive(archive, world.station_table(list(STATIONS)), archive_format="YEAR/JD/*_STATION_*")
    return QuakeScan(ar, table(), onset, str(d), name, picker=GaussianPicker(onset=onset, plot_picks=False), threads=1,
                     **kw)


def detect(cf, d, archive, name, start, span, step):
    scan = make_scan(cf, d, archive, name, timestep=step)
    scan.detect(str(start), str(start + span))
    st = Stream()
    for f in sorted((pathlib.Path(d) / name / "detect" / "scanmseed").glob("*")):
        st += read(str(f))
    st.merge(method=1)
    out = {}
    for tr in st:
        assert not np.ma.isMaskedArray(tr.data), (name, tr)
        out[tr.stats.station] = tr.data.astype(float)
        out["start"] = tr.stats.starttime
    return out, scan


@functools.lru_cache(None)
def table():
    return c37.table(dict(c37.DEFAULT))


@functools.lru_cache(None)
def reference(config, missing):
    """The coalescence of the whole span, in one step, without some channels."""
    cf = CONFIGS[config]
    d = pathlib.Path(tempfile.mkdtemp(prefix="qmmc38_", dir="/dev/shm"))
    try:
        write(cf, d / "a", {ch: [(-1000, 10000)] for ch in missing})
        out, _ = detect(cf, d, d / "a", "run", START - 20, SPAN + 40, SPAN + 40)
    finally:
        shutil.rmtree(d)
    return out


def incomplete(cf, cuts, beg, end):
    """The channels with data missing between two times (seconds after START); all sets it may be, if a gap is at
    an end of the window."""
    sure, maybe = set(), {}
    for ch, gaps in cuts.items():
        for a, b in gaps:
            last = b - 1 / SR / cf.get("factor", 1)         # the last sample missing
            if a < end - 2.5 / SR and last > beg + 2.5 / SR:
                sure.add(ch)
            elif a < end + 2.5 / SR and last > beg - 2.5 / SR:
                maybe.setdefault((a, b), set()).add(ch)
    return [tuple(sorted(sure.union(*itertools.compress(maybe.values(), k))))
            for k in itertools.product((False, True), repeat=len(maybe))]


def run_case(case, ctx):
    config = case["config"]
    cf = CONFIGS[config]
    cuts = {}
    for ch, a, b in case["cuts"]:
        cuts.setdefault(tuple(ch), []).append((a, b))
    start, span = START + case["start"], case["span"]
    d = ctx.tmp()
    write(cf, d / "a", cuts)
    for step in case["steps"]:
        label = f"{config}, step {step}, {span} s from {start}, without {case['cuts']}"
        got, scan = detect(cf, d, d / "a", f"s{step}".replace(".", "_"), start, span, step)
        n = round(step * SR)
        pre, post = scan.onset.pad(step)
        ctx.check(got["start"] == start and len(got["COA"]) % n == 0 and len(got["COA"]) >= round(span * SR) and
                  len(got["COA"]) < round(span * SR) + n + 1, "samples",
                  lambda: f"{label}: {len(got['COA'])} samples from {got['start']}")
        for i in range(len(got["COA"]) // n):
            # seconds after START
            beg = case["start"] + step * i - pre
            end = case["start"] + step * (i + 1) - 1 / SR + post
            alternatives = incomplete(cf, cuts, beg, end)
            sure = alternatives[0]
            ctx.count((config, case["start"], step, i, sure))
            sl = slice(i * n, (i + 1) * n)
            where = f"{label}: step {i}"
            problems = []
            for missing in alternatives:
                problems.append(compare(got, sl, None if len(missing) == len(CHANNELS) else reference(config, missing),
                                        start + step * i, n, cf.get("tol", 1e-3)))
                if problems[-1] is None:
                    break
            ctx.check(problems[-1] is None, problems[-1][0] if problems[-1] else "",
                      lambda: f"{where} (incomplete: {sure}): {problems[0][1]}")
        ctx.add(samples=len(got["COA"]))
    ctx.sample(config=config, start=str(start), steps=case["steps"], cuts=len(case["cuts"]))
    shutil.rmtree(d)


def compare(got, sl, ref, t, n, tol):
    if ref is None:
        bad = [k for k in ("COA", "COA_N", "X", "Y", "Z") if np.any(got[k][sl])]
        return (f"no-data:{bad[0]}", f"{bad[0]} without data") if bad else None
    k0 = round((t - ref["start"]) * SR)
    for k in ("COA", "COA_N"):
        a, b = got[k][sl], ref[k][k0:k0 + n]
        assert len(b) == n
        bad = np.abs(a - b) > tol * np.abs(b) + 2
        if np.any(bad):
            j = int(np.argmax(bad))
            return k, f"{k} of sample {j} is {a[j] / 1e5}, in the whole {b[j] / 1e5} ({int(bad.sum())} of {n} differ)"
    # the location of the largest may differ where two nodes are as good
    bad = np.any([got[k][sl] != ref[k][k0:k0 + n] for k in "XYZ"], axis=0)
    if bad.sum() > max(2, 2 * len(bad) * (0.001 if tol <= 1e-3 else 0.02)):
        j = int(np.argmax(bad))
        return "location", f"location of sample {j} differs from that in the whole ({int(bad.sum())} of {n} differ)"
    return None


def locate_case(case, ctx):
    config = case["config"]
    cf = CONFIGS[config]
    cuts = {}
    for ch, a, b in case["cuts"]:
        cuts.setdefault(tuple(ch), []).append((a, b))
    d = ctx.tmp()
    write(cf, d / "a", cuts)
    rows = locatelib.trigger_rows([START + t for t in case["times"]])
    mw = case["mw"]
    scan = make_scan(cf, d, d / "a", "run", marginal_window=mw, write_coalescence=True, plot_event_summary=False)
    scan.locate(trigger_file=locatelib.write_trigger_file(d / "t.csv", rows))
    lut = table()
    pre, post = scan.onset.pad(4 * mw)
    for t, row in zip(case["times"], rows):
        label = f"{config}, marginal window {mw}, event {t} s after {START}, without {case['cuts']}"
        alternatives = incomplete(cf, cuts, t - 2 * mw - pre, t + 2 * mw + post)
        f = d / "run" / "locate" / "coalescence_maps" / f"{row['EventID']}.npy"
        ctx.count((config, mw, t, alternatives[0]))
        none = [len(m) == len(CHANNELS) for m in alternatives]
        if not f.exists():
            ctx.check(any(none), "no-map", lambda: f"{label}: no coalescence")
            continue
        ctx.check(not all(none), "map-without-data", lambda: f"{label}: coalescence without data")
        m = np.load(f)
        n = 4 * round(mw * SR) + 1
        ctx.check(m.shape == (*c37.SHAPE, n), "map-shape", lambda: f"{label}: {m.shape}, {n} samples expected")
        flat = m.reshape(-1, n)
        xyz = lut.index2coord(np.argmax(flat, axis=0), unravel=True)
        got = dict(COA=flat.max(axis=0) * 1e5, X=np.round(xyz[:, 0] * 1e6), Y=np.round(xyz[:, 1] * 1e6),
                   Z=np.round(xyz[:, 2] * 1e3 * lut.unit_conversion_factor))
        got["COA_N"] = got["COA"] * len(flat) / np.sum(flat, axis=0)
        problems = []
        for missing in alternatives:
            problems.append(compare(got, slice(0, n), None if len(missing) == len(CHANNELS) else
                                    reference(config, missing), START + t - 2 * mw, n, cf.get("tol", 1e-3)))
            if problems[-1] is None:
                break
        ctx.check(problems[-1] is None, f"locate-{problems[-1][0]}" if problems[-1] else "",
                  lambda: f"{label} (incomplete: {alternatives[0]}): {problems[0][1]}")
        ctx.add(samples=n)
    shutil.rmtree(d)


def spans(tier):
    """Steps, starts and lengths, with all data"""
    steps = [90.0, 45.0, 30.0, 12.5, 10.0, 7.0, 3.0, 1.0, 0.5]
    for config in CONFIGS:
        yield dict(config=config, start=0.0, span=SPAN, steps=steps, cuts=[])
        for k in range(1, 12 if tier == "quick" else 60):
            start = round(0.58 * k * SR) / SR
            yield dict(config=config, start=start, span=40.0, steps=[[20.0, 4.0], [8.0], [13.34]][k % 3], cuts=[])
        # midnight at, just before and just after ends of steps
        for k in (-2, -1, 0, 1, 2):
            yield dict(config=config, start=30.0 + k / SR, span=40.0, steps=[20.0, 10.0], cuts=[])


MISSING = {
    "Z": [("B2", "HHZ")],
    "N": [("C", "HHN")],
    "station": [("D44", c) for c in ("HHZ", "HHN", "HHE")],
    "two": [("AA1", "HHE"), ("F", "HHZ")],
    "everything": CHANNELS,
}


def gaps(tier):
    at = np.arange(-4.0, 44.0, 4.78 if tier == "quick" else 1.3)
    for config in CONFIGS:
        for m, (name, chans) in enumerate(MISSING.items()):
            for k, a in enumerate(at):
                a = round(float(a + 0.7 * m) * SR) / SR
                for length in ([1 / SR, 0.5, 9.0][(k + m) % 3],) if tier == "quick" else (1 / SR, 0.5, 9.0):
                    yield dict(config=config, start=12.4, span=36.0, steps=[[12.0, 4.0], [6.0, 9.0], [2.0]][k % 3],
                               cuts=[[list(c), a, a + length] for c in chans])
            # data that begin or end within the span
            a = 25.0 + m
            yield dict(config=config, start=12.4, span=36.0, steps=[6.0], cuts=[[list(c), -1000.0, a] for c in chans])
            yield dict(config=config, start=12.4, span=36.0, steps=[6.0], cuts=[[list(c), a, 10000.0] for c in chans])
            # two gaps at different channels and times
            other = ("EE", "HHZ")
            yield dict(config=config, start=12.4, span=36.0, steps=[4.0, 3.0],
                       cuts=[[list(c), a, a + 0.5] for c in chans if c != other] + [[list(other), a + 7, a + 7.5]])


def events(tier):
    for config in CONFIGS:
        for m, (name, chans) in enumerate([("nothing", []), *MISSING.items()]):
            for k, a in enumerate((13.1, 31.7, 52.24) if tier == "quick" else np.arange(9.0, 60, 3.1)):
                a = round(float(a + 0.7 * m) * SR) / SR
                times = [round((4.0 + 2.3 * j + 0.34 * k + 0.1 * m) * SR) / SR for j in range(26)]
                yield dict(config=config, mw=[0.5, 1.3, 0.2][(k + m) % 3], times=times,
                           cuts=[[list(c), a, a + [0.5, 1 / SR, 6.0][(k + m) % 3]] for c in chans])


def groups():
    return [Group("locate", events, locate_case, timeout=600), Group("spans", spans, run_case, timeout=600), Group("gaps", gaps, run_case, timeout=600)]
