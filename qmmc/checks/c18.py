import hashlib
import itertools
import math
import pathlib
from fractions import Fraction

import numpy as np
from obspy import Stream, Trace, UTCDateTime

from qmmc import archlib, world
from qmmc.core import Group

LEVEL = "exploration"
RULE = ("one evaluation = one read_waveform_data request (archive contents and structure, station list, window, pads, "
        "read_all_stations) made of the real Archive on real miniSEED files; every returned sample's value identifies "
        "the station, channel and absolute sample number it was written with, and the returned set is compared with "
        "the set an exact-arithmetic reference selects. Distinct by all of these; non-trivial: files exist that match "
        "the request.")
ASSUMPTIONS = ["archives are split into day files at midnight (documented)",
               "a sample exactly half an interval from an end of the window may or may not be included",
               "where the sample nearest an end of the window lies across midnight in the file of a day that is not part "
               "of the window, it may or may not be included"]

EPS = Fraction(1, 10 ** 4)      # of a sample; timestamps are exact to a microsecond


def ns_of(t):
    return t.ns


def tree_hash(root):
    return {str(p.relative_to(root)): hashlib.sha1(p.read_bytes()).hexdigest()
            for p in sorted(root.rglob("*")) if p.is_file()}


class Ref:
    """What has been written: {(station, channel): (sr, offset_us, sorted sample numbers)}."""

    def __init__(self):
        self.chans = {}

    def add(self, key, sr, idx, offset_us=0):
        old = self.chans.get(key, (sr, offset_us, set()))
        self.chans[key] = (sr, offset_us, old[2] | set(idx))

    def pick(self, key, s_ns, e_ns, shifted=False):
        """(must, may) sample numbers for a window, to the nearest sample.

        With shifted, sample times are those after alignment with the sampling grid (and may is a superset covering
        selection by times before or after that)."""
        sr, off, idx = self.chans[key]
        f = Fraction(off * sr, 10 ** 6)
        lo, hi = Fraction(s_ns * sr, 10 ** 9), Fraction(e_ns * sr, 10 ** 9)
        half = Fraction(1, 2)
        times = [f]
        if shifted:
            r = round(f)
            if abs(abs(f - r) - half) < EPS:
                times += [f - half, f + half]
            else:
                times.append(Fraction(r))
        m0 = max(math.ceil(lo - half + EPS - x) for x in times)
        m1 = min(math.floor(hi + half - EPS - x) for x in times)
        n0 = min(math.ceil(lo - half - EPS - x) for x in times)
        n1 = max(math.floor(hi + half + EPS - x) for x in times)
        may = {i for i in idx if n0 <= i <= n1}
        must = {i for i in may if m0 <= i <= m1}
        return must, may


def collect(ctx, st, ref, lab, shifted):
    """Sample numbers returned per channel, checking value and time of every sample, and that each is returned once."""
    got = {}
    for tr in st:
        key = (tr.stats.station, tr.stats.channel)
        ctx.check(key in ref.chans, "unknown-channel", lambda: f"{lab}: {tr}")
        sr, off, idx = ref.chans[key]
        ctx.check(tr.stats.sampling_rate == sr, "rate", lambda: f"{lab}: {tr}")
        pos = Fraction(tr.stats.starttime.ns * sr, 10 ** 9)
        f = Fraction(off * sr, 10 ** 6)
        i0 = round(pos - f)
        err = abs(pos - f - i0)
        if shifted:
            # moved by half a sample at most, on to the grid
            k = None
            for c in (i0 - 1, i0, i0 + 1):
                if np.array_equal(archlib.code_value(*key, c + np.arange(min(3, tr.stats.npts))), tr.data[:3]):
                    k = c
            ctx.check(k is not None, "wrong-samples", lambda: f"{lab}: {tr} starts with {tr.data[:3]}")
            i0 = k
            err = abs(pos - f - i0)
            ctx.check(err <= Fraction(1, 2) + EPS, "moved", lambda: f"{lab}: {tr}")
            ctx.check(abs(pos - round(pos)) <= 2 * EPS, "off-sample", lambda: f"{lab}: {tr}")
        else:
            ctx.check(err <= EPS * 2, "moved", lambda: f"{lab}: {tr} should be on sample {float(pos - f)}")
        want = archlib.code_value(*key, i0 + np.arange(tr.stats.npts))
        ctx.check(np.array_equal(want, tr.data), "wrong-samples", lambda: f"{lab}: {tr}")
        got.setdefault(key, []).append((i0, i0 + tr.stats.npts - 1))
    return got


def runs(idx):
    out = []
    for i in sorted(idx):
        if out and out[-1][1] == i - 1:
            out[-1][1] = i
        else:
            out.append([i, i])
    return [tuple(r) for r in out]


def compare(ctx, got, want, lab, what):
    """got: {key: [(first, last)]}; want: {key: (must, may)}."""
    for key in set(got) | set(want):
        must, may = want.get(key, (set(), set()))
        g = got.get(key, [])
        flat = [i for a, b in g for i in range(a, b + 1)]
        ctx.check(len(flat) == len(set(flat)), f"{what}-repeated", lambda: f"{lab}: {key} {g}")
        ctx.check(set(flat) <= may, f"{what}-outside",
                  lambda: f"{lab}: {key} got samples {g}, archived in window {runs(may)}")
        ctx.check(must <= set(flat), f"{what}-missing",
                  lambda: f"{lab}: {key} got samples {g}, archived in window {runs(must)}")
        ctx.check(len(g) == len(runs(flat)), f"{what}-not-joined", lambda: f"{lab}: {key} {g}")


def request(ctx, archive, ref, wanted, s, e, pre, post, lab, leftout=(), files=True):
    """One request, checked completely. wanted: station codes; files: whether any file matches."""
    from quakemigrate.util import ArchiveEmptyException, DataGapException

    every = archive.read_all_stations
    p0, p1 = max(0, pre), max(0, post)
    rs, re_ = s.ns - int(round(p0 * 1e9)), e.ns + int(round(p1 * 1e9))
    want_raw, want = {}, {}
    for key in ref.chans:
        if key in leftout:
            continue
        if every or key[0] in wanted:
            want_raw[key] = ref.pick(key, rs, re_)
        if key[0] in wanted:
            want[key] = ref.pick(key, s.ns, e.ns, shifted=True)
    some = any(m for m, _ in want.values())
    none = not any(m for _, m in want.values())
    ctx.count(lab, nontrivial=files)
    try:
        data = archive.read_waveform_data(s, e, pre, post)
    except ArchiveEmptyException:
        ctx.check(not files, "archive-empty-error", lambda: f"{lab}: raised although files exist")
        ctx.add(archive_empty=1)
        return None
    except DataGapException:
        ctx.check(files, "data-gap-error", lambda: f"{lab}: raised although no file exists")
        ctx.check(not some, "data-gap-error", lambda: f"{lab}: raised although data are there")
        ctx.add(data_gap=1)
        return None
    ctx.check(files, "no-archive-empty-error", lambda: f"{lab}: {data.waveforms}")
    ctx.check(not none, "no-data-gap-error", lambda: f"{lab}: {data.waveforms}")
    ctx.check(data.starttime == s and data.endtime == e, "window-times", lambda: f"{lab}: {data.starttime}")
    ctx.check(data.pre_pad == p0 and data.post_pad == p1, "pads", lambda: f"{lab}: {data.pre_pad}")
    compare(ctx, collect(ctx, data.raw_waveforms, ref, lab, False), want_raw, lab, "raw")
    compare(ctx, collect(ctx, data.waveforms, ref, lab, True), want, lab, "waveforms")
    ctx.add(returned=1)
    return data


def make(root, ref, sr, chans, midnight, span, net="AA", fmt="YEAR/JD/STATION", days=None, offset_us=0):
    """Files for samples within span (s) of each of the given midnights."""
    segs = {}
    for key in chans:
        for m in midnight:
            i0, i1 = int((m - span).ns * sr // 10 ** 9), int((m + span).ns * sr // 10 ** 9)
            for day, a, b in archlib.day_samples(i0, i1, sr):
                if days is None or (key[0], str(day.date)) in days:
                    segs.setdefault(key, []).append((a, b))
                    ref.add(key, sr, range(a, b + 1), offset_us)
    archlib.write_archive(root, sr, segs, net=net, fmt=fmt, offset=offset_us / 1e6)
    return segs


# ---------------------------------------------------------------- structures

MIDNIGHTS = ["2020-01-01", "2020-02-29", "2020-03-01", "2021-01-01", "2019-03-01", "2019-10-10", "2000-12-31"]
FORMATS = ["YEAR/JD/*_STATION_*", "YEAR/JD/STATION", "STATION.YEAR.JULIANDAY", "/STATION/STATION.YearMonthDay",
           "YEAR_JD/STATION*", "YEAR_JD/STATION_*", "SeisComp3"]
LISTS = [("ST1",), ("ST1", "ST10"), ("BB", "ST1"), ("BB",), ("ST10", "XST1")]


def structure_cases(tier):
    mids = MIDNIGHTS[:4] if tier == "quick" else MIDNIGHTS
    for k, (fmt, mid) in enumerate(itertools.product(FORMATS, mids)):
        for wanted in LISTS if tier == "thorough" else LISTS[k % 2::2]:
            yield dict(fmt=fmt, midnight=mid, stations=wanted, tier=tier)


def structure_run(case, ctx):
    from quakemigrate.io.data import Archive

    sr = 10
    mid = UTCDateTime(case["midnight"])
    root = pathlib.Path(ctx.tmp())
    ref = Ref()
    chans = [(s, c) for s in ("ST1", "ST10", "XST1", "BB") for c in ("HHZ", "HHN")]
    make(root, ref, sr, chans, [mid], 12, fmt=case["fmt"])
    before = tree_hash(root)
    edges = [-3, -0.1, 0, 4] if case["tier"] == "quick" else [-11, -9, -3, -0.2, -0.1, 0, 0.1, 0.2, 4, 9]
    for every in (False, True):
        arc = Archive(root, world.station_table(list(case["stations"])), archive_format=case["fmt"],
                      read_all_stations=every)
        for a, b in itertools.combinations_with_replacement(edges, 2):
            for pre, post in ((0, 0), (2, 0), (0.5, 3), (-1, -2)):
                if case["tier"] == "quick" and (pre, post) == (2, 0) and a != 0:
                    continue
                request(ctx, arc, ref, case["stations"], mid + a, mid + b, pre, post,
                        f"{case['fmt']}, stations {case['stations']}, all={every}, {mid.date}{a:+}..{b:+} s, "
                        f"pads {pre}, {post}")
    ctx.check(tree_hash(root) == before, "archive-altered", f"{case}")
    ctx.sample(**case)


# ---------------------------------------------------------------- channels selected by structure

def channels_cases(tier):
    for pattern in ("*", "HH*", "[B,H]H*", "BHZ*", "*Z*", "EH*"):
        for wanted in LISTS:
            for every in (False, True):
                yield dict(pattern=pattern, stations=wanted, every=every)


def channels_run(case, ctx):
    import fnmatch

    from quakemigrate.io.data import Archive

    sr, mid = 10, UTCDateTime("2020-01-01")
    root = pathlib.Path(ctx.tmp())
    ref, full = Ref(), Ref()
    chans = [(s, c) for s in ("ST1", "ST10", "BB") for c in ("HHZ", "HHN", "BHZ", "SHZ")]
    make(root, full, sr, chans, [mid], 5, fmt="SeisComp3")
    for key, v in full.chans.items():
        if fnmatch.fnmatch(f"{key[1]}.D", case["pattern"]):
            ref.chans[key] = v
    arc = Archive(root, world.station_table(list(case["stations"])), archive_format="SeisComp3",
                  channels=case["pattern"], read_all_stations=case["every"])
    files = any(k for k in ref.chans if case["every"] or k[0] in case["stations"])
    for a, b in itertools.combinations_with_replacement((-4, -1, 0, 0.1, 3), 2):
        for pre, post in ((0, 0), (1, 1)):
            request(ctx, arc, ref, case["stations"], mid + a, mid + b, pre, post,
                    f"channels {case['pattern']}, stations {case['stations']}, all={case['every']}, {a:+}..{b:+} s, "
                    f"pads {pre}, {post}", files=files)
    ctx.sample(**case)


# ---------------------------------------------------------------- which files exist

def presence_cases(tier):
    for mid in ("2020-12-31", "2019-02-28"):
        for bits in range(64):
            yield dict(first=mid, bits=bits, tier=tier)


def presence_run(case, ctx):
    from quakemigrate.io.data import Archive

    sr = 5
    d = UTCDateTime(case["first"])
    # three days, of which the data are near the two midnights between them
    mids = [d + 86400, d + 2 * 86400]
    dates = [str((d + k * 86400).date) for k in range(3)]
    pres = {(s, dates[k]) for n, (s, k) in enumerate(itertools.product(("AA1", "BB1"), range(3)))
            if case["bits"] >> n & 1}
    root = pathlib.Path(ctx.tmp())
    root.mkdir(exist_ok=True)
    ref = Ref()
    make(root, ref, sr, [("AA1", "HHZ"), ("BB1", "HHZ")], mids, 10, days=pres)
    before = tree_hash(root)
    times = [d + 86400 - 60, mids[0] - 4, mids[0], mids[0] + 5, mids[0] + 43200, mids[1] - 6, mids[1] - 0.2, mids[1],
             mids[1] + 7]
    if case["tier"] == "quick":
        times = [times[k] for k in (0, 1, 2, 4, 6, 8)]
    for wanted, every in itertools.product((("AA1",), ("AA1", "BB1")), (False, True)):
        arc = Archive(root, world.station_table(list(wanted)), archive_format="YEAR/JD/STATION",
                      read_all_stations=every)
        for s, e in itertools.combinations_with_replacement(times, 2):
            for pre, post in ((0, 0), (5, 5)):
                days = {str((UTCDateTime((s - pre).date) + k * 86400).date) for k in range(4)
                        if UTCDateTime((s - pre).date) + k * 86400 <= e + post}
                files = any(day in days and (every or sta in wanted) for sta, day in pres)
                request(ctx, arc, ref, wanted, s, e, pre, post,
                        f"files {sorted(pres)}, stations {wanted}, all={every}, {s}..{e}, pads {pre}, {post}",
                        files=files)
    ctx.check(tree_hash(root) == before, "archive-altered", f"{case}")
    ctx.sample(**case)


# ---------------------------------------------------------------- sub-sample positions

def offset_cases(tier):
    for sr in (1, 20, 50, 125, 200, 500) if tier == "quick" else (1, 5, 20, 40, 50, 100, 125, 200, 250, 500):
        steps = 3 if tier == "quick" else 10
        for k in range(-steps, steps + 1):
            yield dict(sr=sr, frac=f"{k}/{2 * steps}", tier=tier)


def offset_run(case, ctx):
    from quakemigrate.io.data import Archive

    sr = case["sr"]
    off = int(round(Fraction(case["frac"]) * 10 ** 6 / sr))
    mid = UTCDateTime("2021-01-01")
    root = pathlib.Path(ctx.tmp())
    ref = Ref()
    span = max(1.0, 100 / sr)
    make(root, ref, sr, [("ST1", "HHZ")], [mid], span, offset_us=off)
    if off:
        # a constant clock error does not move the files' borders: the samples of a day are those between midnights
        segs = {}
        for p in sorted(root.rglob("*")):
            if p.is_file():
                p.unlink()
        idx = sorted(ref.chans[("ST1", "HHZ")][2])
        for i in idx:
            t = UTCDateTime(ns=(i * 10 ** 9 + sr // 2) // sr + off * 1000)
            segs.setdefault(str(t.date), []).append(i)
        for day, ii in segs.items():
            day = UTCDateTime(day)
            p = root / f"{day.year}" / f"{day.julday:03d}" / "ST1.HHZ"
            p.parent.mkdir(parents=True, exist_ok=True)
            start = archlib.time_of(ii[0], sr) + off / 1e6
            Stream([Trace(archlib.code_value("ST1", "HHZ", ii), header=dict(
                network="AA", station="ST1", channel="HHZ", sampling_rate=sr, starttime=start))]).write(
                    str(p), format="MSEED", reclen=512)
    arc = Archive(root, world.station_table(["ST1"]), archive_format="YEAR/JD/STATION")
    sub = 3 if case["tier"] == "quick" else 8
    for q, r in itertools.product(range(-sub, sub + 1), repeat=2):
        for a, b in ((0, 20), (-20, 7), (-10, -1)):
            for pre, post in ((0, 0), (10, 10)):
                s = mid + (a + q / sub) / sr
                e = mid + (b + r / sub) / sr
                s, e = (UTCDateTime(ns=int(round(x.ns / 1000)) * 1000) for x in (s, e))
                # the sample nearest an end of the window may be in a file of another day
                if any(abs((x - mid) * sr) < 1 and (x != mid or off) for x in (s - pre / sr, e + post / sr)):
                    continue
                request(ctx, arc, ref, ("ST1",), s, e, pre / sr, post / sr,
                        f"{sr} Hz, clock {off} us, {a + q / sub:+}..{b + r / sub:+} samples from midnight, "
                        f"pads {pre}, {post} samples")
    ctx.sample(**case)


# ---------------------------------------------------------------- contents of the files

PIECES = [(-40, -1), (-40, -21), (-20, -1), (0, 40), (0, 19), (15, 40), (25, 40), (-10, 10), (-40, 40), (30, 30)]
JUNK = ["text", "directory", "other-format", "unreadable-name"]


def content_cases(tier):
    top = 3 if tier == "quick" else 4
    for n in range(1, top + 1):
        for c in itertools.combinations(range(len(PIECES)), n):
            yield dict(pieces=c, tier=tier)


def content_run(case, ctx):
    """Any set of identical-valued pieces, overlapping or apart, in separate files of the right days."""
    from quakemigrate.io.data import Archive

    sr, mid = 10, UTCDateTime("2020-01-01")
    m = int(mid.ns * sr // 10 ** 9)
    root = pathlib.Path(ctx.tmp())
    ref = Ref()
    for sta, order in (("ST1", 1), ("ST2", -1)):
        for n, k in enumerate(case["pieces"][::order]):
            a, b = PIECES[k]
            for day, i0, i1 in archlib.day_samples(m + a, m + b, sr):
                p = root / f"{day.year}" / f"{day.julday:03d}" / f"{sta}.{n}"
                p.parent.mkdir(parents=True, exist_ok=True)
                Trace(archlib.code_value(sta, "HHZ", np.arange(i0, i1 + 1)), header=dict(
                    network="AA", station=sta, channel="HHZ", sampling_rate=sr,
                    starttime=archlib.time_of(i0, sr))).write(str(p), format="MSEED")
                ref.add((sta, "HHZ"), sr, range(i0, i1 + 1))
    for k in JUNK:
        d = root / "2020" / "001"
        d.mkdir(parents=True, exist_ok=True)
        if k == "text":
            (d / "ST1.readme").write_text("no waveforms in this file\n" * 20)
        elif k == "other-format":
            (d / "ST2.png").write_bytes(b"\x89PNG\r\n\x1a\n" + bytes(range(200)))
    arc = Archive(root, world.station_table(["ST1", "ST2"]), archive_format="YEAR/JD/STATION")
    for s, e in itertools.combinations_with_replacement((-45, -21, -1, 0, 12, 35) if case["tier"] == "quick" else
                                                           (-45, -30, -21, -1, 0, 12, 20, 35), 2):
        for pre, post in ((0, 0), (5, 0), (7, 12)):
            days = {"2019"} if (e + post) < 0 else {"2020"} if s - pre >= 0 else {"2019", "2020"}
            files = any((root / y).exists() for y in days)
            request(ctx, arc, ref, ("ST1", "ST2"), mid + s / sr, mid + e / sr, pre / sr, post / sr,
                    f"pieces {[PIECES[k] for k in case['pieces']]}, {s}..{e} samples, pads {pre}, {post}", files=files)
    ctx.sample(**case)


def mixed_cases(tier):
    kinds = ["same", "rate", "type", "values", "network", "location"]
    for a, b in itertools.product(kinds, repeat=2):
        for fmt in ("joined", "gap", "overlap"):
            yield dict(st1=a, st2=b, where=fmt)


def mixed_run(case, ctx):
    """Channels whose files contradict each other: never wrong data, and other channels are unaffected."""
    from quakemigrate.io.data import Archive
    from quakemigrate.util import DataGapException

    sr, mid = 10, UTCDateTime("2020-01-01")
    root = pathlib.Path(ctx.tmp())
    m = int(mid.ns * sr // 10 ** 9)
    second = {"joined": (0, 60), "gap": (10, 60), "overlap": (0, 60)}[case["where"]]
    first = (-60, -1) if case["where"] != "overlap" else (-60, 20)
    wrote = {}
    for sta in ("ST1", "ST2", "ST3"):
        kind = {"ST1": case["st1"], "ST2": case["st2"], "ST3": "same"}[sta]
        for n, (a, b) in enumerate((first, second)):
            v = archlib.code_value(sta, "HHZ", np.arange(m + a, m + b + 1))
            h = dict(network="AA", station=sta, channel="HHZ", sampling_rate=sr,
                     starttime=archlib.time_of(m + a, sr))
            if n == 1:
                if kind == "rate":
                    h["sampling_rate"] = sr * 2
                elif kind == "type":
                    v = v.astype(np.float64)
                elif kind == "values":
                    v = v + 1
                elif kind == "network":
                    h["network"] = "BB"
                elif kind == "location":
                    h["location"] = "10"
            p = root / ("2019/365" if n == 0 else "2020/001") / f"{sta}.x"
            p.parent.mkdir(parents=True, exist_ok=True)
            Trace(v, header=h).write(str(p), format="MSEED")
            wrote.setdefault(sta, []).append((a, b, v, h))
    arc = Archive(root, world.station_table(["ST1", "ST2", "ST3"]), archive_format="YEAR/JD/STATION")
    for s, e in itertools.product((-50, -5, 0, 5), (-3, 0, 15, 40)):
        if e <= s:
            continue
        lab = f"{case}, {s}..{e} samples"
        ctx.count(lab)
        data = arc.read_waveform_data(mid + s / sr, mid + e / sr)
        for sta in ("ST1", "ST2", "ST3"):
            st = data.waveforms.select(station=sta)
            kind = {"ST1": case["st1"], "ST2": case["st2"], "ST3": "same"}[sta]
            # pieces of each kind that are in the window
            want = []
            for a, b, v, h in wrote[sta]:
                r = h["sampling_rate"]
                t = (np.arange(len(v)) / r) + a / sr
                k = np.nonzero((t > s / sr - 1e-6) & (t < e / sr + 1e-6))[0]
                # files only from days in the window
                if len(k) and not (a < 0 and s >= 0):
                    want.append((round(t[k[0]], 6), r, v[k].astype(float), h))
            got = sorted(((round(tr.stats.starttime - mid, 6), tr.stats.sampling_rate, tr.data.astype(float), tr)
                          for tr in st), key=lambda x: x[0])
            clash = len(want) == 2 and kind in ("rate", "type")
            if clash:
                ctx.check(not got, "contradictory-channel-used", lambda: f"{lab}: {sta} {st}")
                continue
            joined = len(want) == 2 and (kind == "same" or kind == "values" and case["where"] == "joined")
            if joined and case["where"] != "gap":
                a, b = want
                ov = int(round((a[0] + len(a[2]) / sr - b[0]) * sr))
                want = [(a[0], a[1], np.concatenate([a[2], b[2][max(ov, 0):]]), a[3])]
            ctx.check(len(got) == len(want) and all(
                abs(g[0] - w[0]) < 1e-6 and g[1] == w[1] and np.array_equal(g[2], w[2]) and
                g[3].stats.network == w[3]["network"] and g[3].stats.location == w[3].get("location", "")
                for g, w in zip(got, want)), "contradictory-channel",
                lambda: f"{lab}: {sta} ({kind}) {st}, wanted {[(w[0], w[1], len(w[2])) for w in want]}")
    ctx.sample(**case)


# ---------------------------------------------------------------- sequences of requests, and refusals

def history_cases(tier):
    for every in (False, True):
        for n in (2,) if tier == "quick" else (2, 3):
            for seq in itertools.product(range(7), repeat=n):
                yield dict(every=every, seq=seq)


def history_run(case, ctx):
    from quakemigrate.io.data import Archive
    from quakemigrate.util import ArchiveEmptyException, DataGapException

    sr, mid = 10, UTCDateTime("2020-01-01")
    root = pathlib.Path(ctx.tmp())
    ref = Ref()
    make(root, ref, sr, [("ST1", "HHZ"), ("ST2", "HHZ")], [mid], 10)
    before = tree_hash(root)
    stations = world.station_table(["ST1"])
    reqs = [(-5, 5, 0, 0), (-5, 5, 2, 3), (1, 4, 0, 0), (20, 30, 0, 0), (20, 30, 12, 0), (86400 * 3, 86400 * 3 + 5, 0, 0),
            (-3, -1, 0, 1.5)]

    def ask(arc, k):
        a, b, pre, post = reqs[k]
        try:
            d = arc.read_waveform_data(mid + a, mid + b, pre, post)
        except (ArchiveEmptyException, DataGapException) as err:
            return type(err).__name__
        return [[(t.id, t.stats.starttime.ns, t.stats.npts, t.data.tobytes()) for t in sorted(s, key=lambda t: t.id)]
                for s in (d.waveforms, d.raw_waveforms)] + [d.starttime.ns, d.endtime.ns, d.pre_pad, d.post_pad]

    arc = Archive(root, stations, archive_format="YEAR/JD/STATION", read_all_stations=case["every"])
    for n, k in enumerate(case["seq"]):
        got = ask(arc, k)
        want = ask(Archive(root, stations, archive_format="YEAR/JD/STATION", read_all_stations=case["every"]), k)
        ctx.count((case["every"], case["seq"][:n + 1]))
        ctx.check(got == want, "history-dependent", lambda: f"{case}, request {n + 1}: {str(got)[:300]}")
        if not isinstance(got, str):
            # changing what was returned must not change later answers
            pass
    ctx.check(tree_hash(root) == before, "archive-altered", f"{case}")
    ctx.check(list(stations["Name"]) == ["ST1"], "stations-altered", f"{case}")
    ctx.sample(**case)


def refusal_cases(tier):
    for fmt in FORMATS + ["YEAR/JD", "seiscomp3", "SEISCOMP3", "YEAR/JD/STATION ", "", None]:
        for custom in (None, "{year}/{jday:03d}/{station}*", "{dtime.year}/{dtime.julday:03d}/{station}.*",
                       "{year}/*/{station}*"):
            for later in (False, True):
                yield dict(fmt=fmt, custom=custom, later=later)


def refusal_run(case, ctx):
    from quakemigrate.io.data import Archive
    from quakemigrate.util import ArchiveFormatException, ArchivePathStructureError

    sr, mid = 10, UTCDateTime("2020-01-01")
    root = pathlib.Path(ctx.tmp())
    ref = Ref()
    fmt, custom, later = case["fmt"], case["custom"], case["later"]
    known = fmt in FORMATS
    make(root, ref, sr, [("ST1", "HHZ")], [mid], 10, fmt=fmt if known else "YEAR/JD/STATION")
    stations = world.station_table(["ST1"])
    kw = {} if custom is None else dict(format=custom)
    ctx.count(tuple(case.items()))
    try:
        if later:
            arc = Archive(root, stations, **kw)
            if fmt is not None:
                arc.path_structure(fmt)
        else:
            arc = Archive(root, stations, archive_format=fmt, **kw)
    except ArchivePathStructureError:
        ctx.check(not known and fmt is not None, "structure-refused", f"{case}")
        return
    ctx.check(known or fmt is None or (fmt == "" and not later), "unknown-structure-accepted", f"{case}")
    ask = lambda: arc.read_waveform_data(mid - 3, mid + 4)  # noqa: E731
    if not known and custom is None:
        try:
            ask()
        except ArchiveFormatException:
            return
        ctx.fail("no-structure-accepted", f"{case}")
    if known or fmt is None or fmt == "":
        request(ctx, arc, ref, ("ST1",), mid - 3, mid + 4, 1, 2, f"{case}")


def groups():
    return [Group("structures", structure_cases, structure_run, timeout=300),
            Group("channels", channels_cases, channels_run),
            Group("presence", presence_cases, presence_run, timeout=300),
            Group("offsets", offset_cases, offset_run, timeout=300),
            Group("contents", content_cases, content_run),
            Group("mixed", mixed_cases, mixed_run),
            Group("history", history_cases, history_run),
            Group("refusals", refusal_cases, refusal_run)]
