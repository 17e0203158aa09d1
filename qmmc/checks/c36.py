"""The same data stored, ordered or labelled differently, or at another time, give the same results."""

import csv
import functools
import io
import itertools
import pathlib
import shutil
import types

import numpy as np
from obspy import Stream, Trace, UTCDateTime, read

from qmmc import locatelib, world
from qmmc.checks import c30
from qmmc.core import Group

LEVEL = "exploration"
RULE = ("one evaluation = one whole run (detect, trigger, locate with picks, magnitudes and cut waveforms, catalogue) "
        "over real files, of data that are those of a reference run but for: storage (archive format; days cut into "
        "files at a sample, with and without shared samples, per channel, station or day; file format, encoding, "
        "record length, byte order; other stations beside them; the order in which directories and sets are gone "
        "through), order (of the stations in the archive and in the table, of phases, of files, of columns; a "
        "station without data), labels (station names, network, location, band and component codes), physics (counts "
        "scaled with and without the response, constant offset, grid in metres), form (types of numbers, forms of "
        "times, threads), the absolute time (every place of midnight in the span; year ends, leap days, leap "
        "seconds, 2038), or several of these. Two settings of onset, trigger and magnitudes. Every value of every "
        "file must be that of the reference run, times moved by the shift, labels translated, units converted. "
        "Non-trivial: all but the reference itself.")
ASSUMPTIONS = ["sums in another order may round differently: values then agree to 2e-5 of their size and 1e-5 s, as "
               "they are written; 2e-4 where the counts are scaled; single-precision data agree to 1e-3",
               "spans are moved by whole samples (data are put on samples counted from midnight, so spans that start "
               "between samples have no data)",
               "no two station names that differ in case only (ObsPy does not tell them apart)",
               "log files are outside the property"]

SR = c30.SR
START, END = c30.T0, c30.T0 + 24
STATIONS, CHANNELS = c30.STATIONS, c30.CHANNELS
FORMATS = ["SeisComp3", "YEAR/JD/*_STATION_*", "YEAR/JD/STATION", "STATION.YEAR.JULIANDAY",
           "/STATION/STATION.YearMonthDay", "YEAR_JD/STATION*", "YEAR_JD/STATION_*"]
DEFAULT = dict(fmt="YEAR/JD/*_STATION_*", split="channel", cut=[], overlap=0, encode="int32", extra=False,
               reverse=False, sorder=[0, 1, 2], lorder=[0, 1, 2], phases=["P", "S"], names=None, net="AA", loc="",
               band="HH", comps="ZNE", shift=0.0,
               listing=None, given="plain", threads=1,
               config="a", scale=1.0, offset=0.0, gain=1.0, unit="km", absent=None,
               columns=["Latitude", "Longitude", "Elevation", "Name"])
I0, I1 = round(-6 * SR), round(44 * SR)     # samples, from the start of the span


# sampling rates, as multiples
FACTOR = {"a": {}, "b": {"B2": 2, "C": 4}}


UNIT = {"km": 1.0, "m": 1000.0}
LENGTHS = {"COA_Z", "Z", "GAU_Z", "GAU_ErrX", "GAU_ErrY", "GAU_ErrZ", "COV_ErrX", "COV_ErrY", "COV_ErrZ", "COV_Err_XYZ",
           "SPL_Z"}
AMPLITUDES = {"P_amp", "P_avg_amp", "S_amp", "S_avg_amp", "Noise_amp"}


ABSENT = "B0"       # a station without data


def name_of(case, s):
    if s == ABSENT:
        return s
    return dict(zip(STATIONS, case["names"]))[s] if case["names"] else s


def channel_of(case, c):
    return case["band"] + case["comps"]["ZNE".index(c[-1])]


ENCODE = {
    "int32": dict(format="MSEED", dtype=np.int32),
    "steim1": dict(format="MSEED", dtype=np.int32, encoding="STEIM1", reclen=256),
    "steim2-little": dict(format="MSEED", dtype=np.int32, encoding="STEIM2", byteorder="<", reclen=512),
    "plain": dict(format="MSEED", dtype=np.int32, encoding="INT32", reclen=4096),
    "float64": dict(format="MSEED", dtype=np.float64, encoding="FLOAT64"),
    "float32": dict(format="MSEED", dtype=np.float32, encoding="FLOAT32"),
    "sac": dict(format="SAC", dtype=np.float32),
    "gse2": dict(format="GSE2", dtype=np.int32),
}


def traces(case):
    """[(day, station, channel, part, trace)] of everything in the archive"""
    out = []
    start = START + case["shift"]
    first = round(START.ns / 1e9 * SR)
    midnight = UTCDateTime(start.date)
    days = [midnight + 86400 * k for k in (-1, 0, 1, 2)]
    encodings = list(ENCODE) if case["encode"] == "mixed" else [case["encode"]]
    k = 0
    for s, c in itertools.product(STATIONS + (("ZZ9",) if case["extra"] else ()), CHANNELS):
        enc = ENCODE[encodings[k % len(encodings)]]
        k += 1
        m = FACTOR[case["config"]].get(s, 1)
        sr, i0, i1 = SR * m, I0 * m, I1 * m
        y = c30.value(s if s in STATIONS else "C", c, np.arange(i0, i1 + 1) / m + first) * (1 if s in STATIONS else -3)
        y = y * case["scale"] + case["offset"]
        # the first sample of each day, as an index
        marks = [int(np.ceil(round((d - start) * sr, 6))) - i0 for d in days]
        marks = sorted({0, len(y)} | {m for m in marks if 0 < m < len(y)})
        for a, b in zip(marks, marks[1:]):
            cuts = [a] + [x * m for x in case["cut"] if a < x * m < b] + [b]
            for part, (p, q) in enumerate(zip(cuts, cuts[1:])):
                q = min(q + case["overlap"], b)
                t = start + (i0 + p) / sr
                tr = Trace(y[p:q].astype(enc["dtype"]), dict(
                    network=case["net"], station=name_of(case, s) if s in STATIONS else s, location=case["loc"],
                    channel=channel_of(case, c), sampling_rate=sr, starttime=t))
                out.append((UTCDateTime((start + (i0 + a) / sr).date), s, c, part, tr, enc))
    return out


def build(case, root):
    files = {}
    for day, s, c, part, tr, enc in traces(case):
        sta, cha, net, loc = tr.stats.station, tr.stats.channel, case["net"], case["loc"]
        ymd, yj = f"{day.year}{day.month:02d}{day.day:02d}", f"{day.year}.{day.julday:03d}"
        more = f".{part}" if case["cut"] else ""
        what = cha if case["split"] == "channel" else "all"
        path = {
            "SeisComp3": f"{day.year}/{net}/{sta}/{cha}.D/{net}.{sta}.{loc}.{cha}.D.{yj}",
            "YEAR/JD/*_STATION_*": f"{day.year}/{day.julday:03d}/{net}_{sta}_{what}{more}",
            "YEAR/JD/STATION": f"{day.year}/{day.julday:03d}/{sta}.{what}{more}",
            "STATION.YEAR.JULIANDAY": f"{part}{sta}.{what}.{yj}",
            "/STATION/STATION.YearMonthDay": f"{sta}/{sta}.{ymd}",
            "YEAR_JD/STATION*": f"{day.year}_{day.julday:03d}/{sta}{what}{more}",
            "YEAR_JD/STATION_*": f"{day.year}_{day.julday:03d}/{sta}_{what}{more}",
        }[case["fmt"]]
        if case["split"] == "day":
            # one file for everything, with all the names in it
            path = f"{day.year}/{day.julday:03d}/all_{'_'.join(name_of(case, x) for x in STATIONS)}_day{more}"
        files.setdefault(path, []).append((tr, enc))
    for path, parts in files.items():
        f = root / path
        f.parent.mkdir(parents=True, exist_ok=True)
        parts = parts[::-1] if case["reverse"] else parts
        if len({str(e) for _, e in parts}) > 1 and parts[0][1]["format"] == "MSEED":
            with open(f, "wb") as fh:         # records of different kinds, one after another
                for tr, e in parts:
                    e = e if e["format"] == "MSEED" else ENCODE["int32"]
                    b = io.BytesIO()
                    Stream([Trace(tr.data.astype(e["dtype"]), tr.stats)]).write(
                        b, **{k: v for k, v in dict(e, reclen=512).items() if k != "dtype"})
                    fh.write(b.getvalue())
        else:
            e = {k: v for k, v in parts[0][1].items() if k != "dtype"}
            Stream([tr for tr, _ in parts]).write(str(f), **e)


def inventory(case):
    from qmmc.checks.c31 import inventory as make

    inv = make().copy()
    for net in inv:
        net.code = case["net"]
        for sta in net:
            sta.code = name_of(case, sta.code)
            for cha in sta:
                cha.code, cha.location_code = channel_of(case, cha.code), case["loc"]
                cha.start_date = None
                sens = cha.response.instrument_sensitivity
                sens.value *= case["gain"]
                for stage in cha.response.response_stages:
                    stage.stage_gain *= case["gain"]
    return inv


def table(case):
    names = [STATIONS[k] for k in case["lorder"]]
    where = [locatelib.STATION_IJK[k] for k in case["lorder"]]
    if case["absent"] is not None:
        names.insert(case["absent"], ABSENT)
        where.insert(case["absent"], (3.3, -1.7, 0.9))
    u = UNIT[case["unit"]]
    h = (u, u, u)
    lut = world.make_lut((6, 7, 5), h, tuple(name_of(case, s) for s in names), tuple(case["phases"]),
                         kind="lcc_" + case["unit"], zmin=-0.5 * u,
                         tt=locatelib.homogeneous(6.0 * u, 3.4 * u, where, h),
                         fraction_tt=0.1)
    frame = stations(case, case["lorder"])
    lut.station_data = frame
    return lut


def stations(case, order):
    """By way of a station file"""
    from quakemigrate.io import read_stations

    frame = world.station_table(list(STATIONS), "lcc_km").iloc[order]
    lines = [",".join(case["columns"])]
    rows = list(frame.itertuples())
    if case["absent"] is not None:
        rows.insert(case["absent"], types.SimpleNamespace(Name=ABSENT, Latitude=6.31, Longitude=116.7, Elevation=0.4))
    for r in rows:
        cells = dict(Name=name_of(case, r.Name), Latitude=repr(r.Latitude), Longitude=repr(r.Longitude),
                     Elevation=repr(-r.Elevation * UNIT[case["unit"]]), Remark="n/a")
        lines.append(",".join(cells[c] for c in case["columns"]))
    return read_stations(io.StringIO("\n".join(lines) + "\n"))


class Listing:
    """Directories and sets are gone through in a chosen order"""

    def __init__(self, how):
        self.how = how

    def order(self, xs):
        xs = sorted(xs)
        kind, k = self.how
        if kind == "rotate":
            return xs[k % max(len(xs), 1):] + xs[:k % max(len(xs), 1)]
        if kind == "stride":
            return [x for j in range(k) for x in xs[j::k]]
        return xs[::-1]

    def __enter__(self):
        import quakemigrate.export.to_obspy as to_obspy
        from quakemigrate import util
        from quakemigrate.io import availability, data
        from quakemigrate.signal.local_mag import amplitude
        from quakemigrate.signal.pickers import gaussian

        if self.how is None:
            return
        me = self

        class Ordered(set):
            def __iter__(self):
                return iter(me.order(set.__iter__(self)))

        self.modules = [util, data, availability, amplitude, gaussian, to_obspy]
        for m in self.modules:
            m.__dict__["set"] = Ordered
        self.glob = glob = pathlib.Path.glob
        pathlib.Path.glob = lambda p, *a, **k: iter(me.order(glob(p, *a, **k)))

    def __exit__(self, *a):
        if self.how is not None:
            for m in self.modules:
                del m.__dict__["set"]
            pathlib.Path.glob = self.glob


def number(case, x):
    """The same number in another type"""
    if case["given"] == "numpy":
        return np.float64(x)
    if case["given"] == "narrow":
        return int(x) if x == int(x) else np.float32(x) if float(np.float32(x)) == x else x
    if case["given"] == "wide":
        return np.int64(x) if x == int(x) else x
    return x


def moment(case, t):
    forms = {"plain": str(t), "object": t, "space": t.strftime("%Y-%m-%d %H:%M:%S.%f"), "julian": t.strftime("%Y-%jT%H:%M:%S.%f"),
             "compact": t.strftime("%Y%m%dT%H%M%S.%f"), "naive": str(t)[:-1]}
    return forms.get(case["given"], str(t))


def run(case, d):
    with Listing(case["listing"]):
        return pipeline(case, d)


def pipeline(case, d):
    from quakemigrate.io import Archive
    from quakemigrate.signal import QuakeScan, Trigger
    from quakemigrate.signal.local_mag import LocalMag
    from quakemigrate.signal.onsets import STALTAOnset
    from quakemigrate.signal.pickers import GaussianPicker

    build(case, d / "archive")
    lut = table(case)
    n = functools.partial(number, case)
    given = case["given"]
    archive = Archive(str(d / "archive") if given == "numpy" else d / "archive", stations(case, case["sorder"]),
                      archive_format=case["fmt"], response_inv=inventory(case),
                      response_removal_params=dict(water_level=n(60.0)), read_all_stations=case["extra"] == "read")
    b = case["config"] == "b"
    onset = STALTAOnset(position="centred" if b else "classic", sampling_rate=n(SR) if given != "numpy" else SR)
    if b:
        onset.all_channels = True
        onset.signal_transform = "env"
    onset.phases = list(case["phases"])
    seq = tuple if given == "narrow" else np.array if given == "numpy" else list
    onset.bandpass_filters = {p: seq([n(2), n(8), 2]) for p in case["phases"]}
    onset.sta_lta_windows = {p: seq([n(0.25), n(1.0)]) for p in case["phases"]}
    picker = GaussianPicker(onset=onset, plot_picks=False)
    mags = LocalMag(dict(signal_window=n(1.0), noise_window=n(1.0)), dict(A0="Hutton-Boore", use_hyp_dist=not b, weighted_mean=b, amp_feature="P_amp" if b else "S_amp"),
                    plot_amplitudes=False)
    out = d / "out"
    scan = QuakeScan(archive, lut, onset, str(out) if given != "numpy" else out, "run", picker=picker, mags=mags,
                     marginal_window=n(0.5), plot_event_summary=False, threads=case["threads"], timestep=n(6.0),
                     write_cut_waveforms=True, write_marginal_coalescence=True)
    scan.pre_cut, scan.post_cut = n(0.5), n(2.0)
    begin, end = moment(case, START + case["shift"]), moment(case, END + case["shift"])
    scan.detect(begin, end)
    smooth = dict(smooth_coa=True, smoothing_kernel_sigma=n(0.125)) if b else {}
    Trigger(lut, str(out), "run", plot_trigger_summary=False, marginal_window=n(0.5), min_event_interval=n(1.0),
            pad=n(2.0), threshold_method="static", static_threshold=n(1.25 if b else 1.375),
            normalise_coalescence=True, **smooth).trigger(begin, end)
    scan.locate(starttime=begin, endtime=end)
    return results(out / "run", case)


def rows(files):
    return [r for f in files for r in csv.DictReader(open(f, newline=""))]


def results(root, case):
    """Everything written, as {what: value}; times as seconds since the start of the span."""
    from quakemigrate.export.to_obspy import read_quakemigrate

    start = START + case["shift"]
    back = {name_of(case, s): s for s in STATIONS}
    out = {}

    def put(key, v):
        if any(x == ABSENT or x in (f"{ABSENT} P", f"{ABSENT} S") or str(x).startswith(f".{ABSENT}.") for x in (*key, v)
               if isinstance(x, str)):
            return
        assert key not in out, key
        out[key] = v

    def station(s):
        return back.get(s, s)

    def seed_id(i):
        net, s, loc, cha = i.split(".")
        if s == ABSENT:
            return f".{ABSENT}."
        assert net == case["net"] and loc == case["loc"], i
        if station(s) in STATIONS:
            assert cha[:-1] == case["band"], i
            cha = "HH" + "ZNE"[case["comps"].index(cha[-1])]
        return f"{station(s)}.{cha}"

    def cell(key, v):
        try:
            v = float(v)
            if key[-1] in LENGTHS:
                v = ("length", v / UNIT[case["unit"]])
            elif key[-1] in AMPLITUDES:
                v = v / case["scale"] * case["gain"]
            elif key[-1] == "ML":
                v = v - np.log10(case["scale"] / case["gain"])
            put(key, v)
        except ValueError:
            try:
                put(key, ("time", UTCDateTime(v) - start))
            except Exception:
                put(key, v)

    scan = Stream()
    for f in sorted((root / "detect" / "scanmseed").iterdir()):
        scan += read(str(f))
    for code in sorted({tr.stats.station for tr in scan}):
        parts = sorted(scan.select(station=code), key=lambda tr: tr.stats.starttime)
        n = 0
        for tr in parts:
            for k, v in enumerate(tr.data):
                t = tr.stats.starttime + k / SR
                put(("scan", code, n), (round((t - start) * SR, 4), int(v)))
                n += 1
    av = rows(sorted((root / "detect" / "availability").iterdir()))
    for k, r in enumerate(av):
        for col, v in r.items():
            if col == "":
                put(("availability", k, "time"), ("time", UTCDateTime(v) - start))
            else:
                s, p = col.rsplit("_", 1)
                put(("availability", k, station(s), p), int(v))
    trig = rows(sorted((root / "trigger" / "events").iterdir()))
    order = []
    for k, r in enumerate(trig):
        order.append(r.pop("EventID"))
        for col, v in r.items():
            cell(("trigger", k, col), v)
    loc = root / "locate"
    put("located", sorted(order.index(f.stem) for f in (loc / "events").iterdir()))
    for k, uid in enumerate(order):
        f = loc / "events" / f"{uid}.event"
        if not f.exists():
            continue
        (r,) = rows([f])
        assert r.pop("EventID") == uid
        for col, v in r.items():
            cell(("event", k, col), v)
        for r in rows([loc / "picks" / f"{uid}.picks"]):
            for col, v in r.items():
                if col not in ("Station", "Phase"):
                    cell(("pick", k, station(r["Station"]), r["Phase"], col), v)
        for r in rows([loc / "amplitudes" / f"{uid}.amps"]):
            i = r.pop("id")
            for col, v in r.items():
                cell(("amplitude", k, seed_id(i), col), v)
        for tr in read(str(loc / "raw_cut_waveforms" / f"{uid}.m")):
            if tr.stats.station == "ZZ9":
                continue
            put(("cut", k, seed_id(tr.id)), (round((tr.stats.starttime - start) * 1e6), (tr.data.astype(float) - case["offset"]) / case["scale"]))
        put(("map", k), np.load(loc / "marginalised_coalescence_maps" / f"{uid}.npy"))
    for e in read_quakemigrate(str(root), case["unit"]):
        k = order.index(str(e.resource_id).split("/")[-1])
        o = e.preferred_origin() or e.origins[0]
        put(("catalogue", k), tuple(float(x) for x in (o.longitude, o.latitude, o.depth)))
        put(("catalogue", k, "time"), ("time", o.time - start))
        for n, p in enumerate(sorted(e.picks, key=lambda p: (station(p.waveform_id.station_code), p.phase_hint, p.time))):
            put(("catalogue", k, "pick", n), f"{station(p.waveform_id.station_code)} {p.phase_hint}")
            put(("catalogue", k, "pick time", n), ("time", p.time - start))
    put("files", sorted(str(f.relative_to(loc).parent) for f in loc.rglob("*") if f.is_file() and "logs" not in f.parts))
    return out


def differs(a, b, tol):
    """a: the reference. tol: relative, of values."""
    if isinstance(a, float) and isinstance(b, float):
        return not (a == b or (np.isnan(a) and np.isnan(b)) or abs(a - b) <= tol * max(abs(a), 1.0))
    if isinstance(a, tuple) and len(a) == 3:
        return any(differs(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, tuple) and a[0] == "length":
        return differs(a[1], b[1], max(tol, 6e-4))        # written to the metre in kilometres
    if isinstance(a, tuple) and a[0] == "time" and isinstance(b, tuple):
        return abs(a[1] - b[1]) > 2e-6 + tol
    if isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], np.ndarray):
        return a[0] != b[0] or len(a[1]) != len(b[1]) or np.abs(a[1] - b[1]).max() > 1e-9 * np.abs(a[1]).max()
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == 2 and isinstance(a[1], int):
        return a[0] != b[0] or abs(a[1] - b[1]) > tol * max(abs(a[1]), 1e5)
    if isinstance(a, np.ndarray):
        return a.shape != b.shape or not np.allclose(a, b, rtol=0, atol=tol * np.abs(a).max(), equal_nan=True)
    return a != b


REFERENCE = {}


def reference(ctx, config):
    if config not in REFERENCE:
        d = ctx.tmp()
        r = REFERENCE[config] = run(dict(DEFAULT, config=config), d)
        shutil.rmtree(d)
        picks = [v for k, v in r.items() if k[0] == "pick" and k[-1] == "PickTime" and v != -1]
        amps = [v for k, v in r.items() if k[0] == "amplitude" and k[-1] == "S_amp" and v == v]
        assert len(r["located"]) >= 3 and len(picks) >= 12 and len(amps) >= 12, (r["located"], picks, amps)
    return REFERENCE[config]


def run_case(case, ctx):
    for change in case["changes"]:
        ref = reference(ctx, change.get("config", "a"))
        full = dict(DEFAULT, **change)
        d = ctx.tmp()
        try:
            got = run(full, d)
        except Exception as e:
            ctx.fail("results-unreadable", f"{change}: {type(e).__name__}: {e}")
        shutil.rmtree(d)
        ctx.count(repr(change), nontrivial=bool(change))
        tol = case["tol"]
        missing = sorted(map(str, set(ref) ^ set(got)))
        ctx.check(not missing, "not-the-same-results", lambda: f"{change}: only on one side: {missing[:3]}")
        bad = [k for k in ref if differs(ref[k], got[k], tol)]
        ctx.check(not bad, "value", lambda: f"{change}: {bad[0]}: {str(got[bad[0]])[:60]}, not {str(ref[bad[0]])[:60]} "
                                            f"({len(bad)} differ)")
        ctx.add(values_compared=len(ref))
    ctx.sample(**case)


def parts(changes, tol, n, second=True):
    changes = list(changes)
    if second:
        changes += [dict(c, config="b") for c in changes]
    for k in range(n):
        if changes[k::n]:
            yield dict(changes=changes[k::n], tol=tol)


def storage_cases(tier):
    ch = [{}]
    for fmt in FORMATS:
        for split in ("channel", "station"):
            if (fmt == "SeisComp3" and split != "channel") or (fmt.startswith("/STATION") and split == "channel"):
                continue
            for extra in (False, True, "read"):
                ch.append(dict(fmt=fmt, split=split, extra=extra, reverse=extra is True))
    ch += [dict(split="day", reverse=r) for r in (False, True)]
    n = I1 - I0 + 1
    cuts = list(range(1, n, 1 if tier == "thorough" else 41))
    for x in cuts:
        for overlap in ((0, 1, 7) if tier == "thorough" else (0, 7)):
            ch.append(dict(cut=[x], overlap=overlap, reverse=bool(x % 2)))
    ch += [dict(cut=list(range(k, n, k)), split=s) for k in (5, 20, 99, 300) for s in ("channel", "station")]
    ch += [dict(encode=e, split=s) for e in ("steim1", "steim2-little", "plain", "float64") for s in ("channel", "station")]
    ch += [dict(encode="gse2")]
    yield from parts(ch, 0.0, 16 if tier == "quick" else 64)
    yield from parts([dict(encode=e, cut=c) for e in ("float32", "sac", "mixed") for c in ([], [177, 500])], 1e-3, 6)


def order_cases(tier):
    perms = [list(p) for p in itertools.permutations(range(3))]
    ch = [dict(sorder=a, lorder=b, phases=p) for a in perms for b in perms for p in (["P", "S"], ["S", "P"])
          if tier == "thorough" or perms.index(a) in (0, perms.index(b), 5) or p == ["P", "S"] and b == [2, 0, 1]]
    cols = DEFAULT["columns"]
    ch += [dict(columns=list(c)) for c in itertools.permutations(cols)][1::1 if tier == "thorough" else 4]
    ch += [dict(absent=k, sorder=a, lorder=a) for k in range(4) for a in (perms[0], perms[3])]
    ch += [dict(columns=cols[:k] + ["Remark"] + cols[k:]) for k in range(5)]
    yield from parts(ch, 2e-5, 16)


def label_cases(tier):
    names = [["S3", "S2", "S1"], ["S2", "S3", "S1"], ["a", "B", "C1"], ["1", "2", "3"], ["10", "9", "1"],
             ["AAAAA", "AAAA", "AAA"], ["P", "S", "Z"], ["HHZ", "HHN", "HHE"], ["NAN", "NA", "INF"],
             ["001", "01", "1"], ["1e3", "1000", "0x1"], ["True", "None", "nan"], ["N1", "N01", "N10"],
             ["S_1", "S_2", "S_10"], ["A_P", "A_S", "A"], ["A", "A_", "_A"], ["_", "__", "P_S_P"]]
    ch = [dict(names=n, split=s) for n in names for s in ("channel", "station")]
    ch += [dict(net=n, loc=loc, band=b, comps=c) for n in ("", "X", "AA") for loc in ("", "00", "--")
           for b in ("HH", "BH", "EL") for c in ("ZNE", "Z12")
           if tier == "thorough" or sum((n != "AA", loc != "", b != "HH", c != "ZNE")) in (1, 4)]
    yield from parts(ch, 2e-5, 16)


def time_cases(tier):
    ch = []
    # every place of midnight in the span (12 s is the reference)
    step = 0.05 if tier == "thorough" else 0.75
    ch += [dict(shift=round(12 - step * k, 6)) for k in range(round(24 / step) + 1)]
    ch += [dict(shift=round(12 - x, 6)) for x in (-0.05, 0.05, 0.1, 23.9, 23.95, 24.05, 24.1)]
    for day in ("1970-01-03", "1999-12-31", "2016-02-29", "2016-03-01", "2015-03-01", "2016-06-30", "2016-07-01",
                "2017-01-01", "2038-01-19", "2050-10-10"):
        for at in (0, 40000, 86400 - 30, 86400 - 12, 11647):
            if tier == "quick" and at not in (0, 86400 - 12):
                continue
            ch.append(dict(shift=float(UTCDateTime(day) + at - START)))
    yield from parts(ch, 0.0, 16 if tier == "quick" else 48)


def given_cases(tier):
    ch = [dict(given=g) for g in ("numpy", "narrow", "wide", "object", "space", "julian", "compact", "naive")]
    ch += [dict(threads=k) for k in (2, 3, 4, 8)]
    hows = [["reverse", 0]] + [["rotate", k] for k in range(9)] + [["stride", k] for k in (2, 3, 4, 5, 6, 7)]
    ch += [dict(listing=h, split=s, cut=c) for h in hows for s, c in
           ((("channel", []), ("channel", [177, 500])) if tier == "quick" else
            itertools.product(("channel", "station", "day"), ([], [177], [177, 500], [120, 250, 480, 481])))]
    yield from parts(ch, 2e-5, 16)


def physics_cases(tier):
    ch = [dict(unit="m")]
    for scale in (2.0, 10.0, 8.0, 1000.0, 0.5, 0.001):
        # (magnitudes are written to two decimals, so shifts are by whole numbers)
        for gain in (1.0, scale) if scale in (10.0, 1000.0) else (scale,):
            for enc in ("int32", "float64") if scale == int(scale) else ("float64",):
                ch.append(dict(scale=scale, gain=gain, encode=enc))
    ch += [dict(gain=g) for g in (10.0, 100.0, 0.1)]
    ch += [dict(offset=x, encode=e) for x in (1.0, -777.0, 50000.0) for e in ("int32", "float64")]
    ch += [dict(c, unit="m", shift=-3600.0) for c in ch[1:]] if tier == "thorough" else []
    yield from parts(ch, 2e-4, 16)


def mixed_cases(tier):
    """Several changes at once"""
    one = [dict(fmt="SeisComp3"), dict(split="station"), dict(cut=[177, 500], overlap=7), dict(encode="steim1"),
           dict(extra="read"), dict(sorder=[2, 0, 1]), dict(lorder=[1, 2, 0]), dict(phases=["S", "P"]),
           dict(names=["AAAAA", "AAAA", "AAA"]), dict(net="", loc="00", band="EL", comps="Z12"), dict(shift=7.25),
           dict(shift=float(UTCDateTime("2016-02-29") - START)), dict(listing=["reverse", 0]), dict(given="numpy"),
           dict(threads=3), dict(config="b"), dict(scale=10.0, gain=10.0), dict(unit="m"), dict(absent=1),
           dict(fmt="/STATION/STATION.YearMonthDay", split="station"), dict(offset=1000.0), dict(names=["3", "2", "1"])]
    if tier == "quick":
        one = one[2:14] + one[15:20]
    ch = []
    for n in ((2,) if tier == "quick" else (2, 3)):
        for some in itertools.combinations(one, n):
            keys = [k for c in some for k in c]
            if len(keys) == len(set(keys)) and not ("cut" in keys and {"fmt"} & set(keys)):
                ch.append({k: v for c in some for k, v in c.items()})
    yield from parts(ch, 2e-4, 32, second=False)


def groups():
    return [Group("given", given_cases, run_case, timeout=400),
            Group("physics", physics_cases, run_case, timeout=400),
            Group("storage", storage_cases, run_case, timeout=400), Group("orders", order_cases, run_case, timeout=400),
            Group("labels", label_cases, run_case, timeout=400), Group("times", time_cases, run_case, timeout=400),
            Group("mixed", mixed_cases, run_case, timeout=600)]
