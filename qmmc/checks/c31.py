import functools
import itertools

import numpy as np
from obspy import Stream, UTCDateTime, read

from qmmc import archlib, locatelib, triglib, world
from qmmc.core import Group

LEVEL = "exploration"
RULE = ("one evaluation = one real locate() of one or two events over an archive on disk with one "
        "combination of cut lengths, products, units, format, magnitudes and channel layout; every "
        "sample of every file of cut waveforms is compared with the archived samples (an integer code "
        "of channel and sample number), or with the response removed from exactly those; the other "
        "outputs must be those of a run that cuts nothing. Non-trivial: a cut is asked for, or a "
        "channel has a gap or ends inside the window.")
ASSUMPTIONS = ["ObsPy's response removal and simulation are what the documentation names",
               "without cut lengths the window is the one read for the event; real and Wood-Anderson "
               "waveforms may then be those made for the magnitude"]

SR = 50
MW = 0.5
PRE, POST = 0.6, 2.0
STATIONS, PHASES = locatelib.STATIONS, locatelib.PHASES
CHANNELS = ("HHE", "HHN", "HHZ")
T0 = UTCDateTime("2015-12-31T23:59:40")
SENS = {"HHE": 2.0e3, "HHN": 5.0e3, "HHZ": 3.0e4}
WA = {"poles": [-6.283185 - 4.712j, -6.283185 + 4.712j], "zeros": [0j, 0j], "gain": 1.0,
      "sensitivity": 2080}
ZEROS, POLES = [0j, 0j], [-0.037 + 0.037j, -0.037 - 0.037j, -251.33 + 0j]
NORM = abs(1 / ((2j * np.pi) ** 2 / np.prod([2j * np.pi - p for p in POLES])))

# [(from, to)] in seconds relative to the event, of each special channel; others are complete
LAYOUTS = {
    "complete": {},
    "gap-before": {("AA1", "HHZ"): [(-60, -5), (-3, 60)], ("B2", "HHE"): [(-60, -1.6), (-0.9, 60)]},
    "gap-after": {("AA1", "HHN"): [(-60, 1.0), (1.4, 60)], ("C", "HHZ"): [(-60, 4), (5.5, 60)]},
    "late": {("B2", "HHZ"): [(1.0, 60)], ("C", "HHE"): [(-0.2, 60)]},
    "early": {("B2", "HHZ"): [(-60, -0.8)], ("AA1", "HHE"): [(-60, 0.7)], ("C", "HHN"): [(-60, -2)]},
    "missing": {("B2", "HHE"): [], ("B2", "HHN"): [], ("B2", "HHZ"): [], ("C", "HHN"): []},
    "short": {("AA1", "HHZ"): [(-0.1, -0.1)], ("B2", "HHN"): [(-0.3, 0.2), (0.26, 0.3)]},
    "outside": {(s, c): [(-60, -1.2)] for s in STATIONS for c in CHANNELS},
}
CUTS = [None, 0.0, 0.25, 1.0, 2.5, 9.3]
# time of the event within its sample, and the sampling rates and offsets of the channels
GRIDS = {"on-sample": dict(shift=0.0, rates={}, offset=0.0),
         "between": dict(shift=0.0073, rates={}, offset=0.0),
         "off-sample": dict(shift=0.003, rates={}, offset=0.004),
         "mixed": dict(shift=0.011, rates={"B2": 100, "C": 25}, offset=0.0)}


def value(sta, cha, idx):
    if (sta, cha) == ("C", "HHE"):
        return np.full(len(idx), 1234, dtype=np.int32)      # a dead channel
    return archlib.code_value(sta, cha, idx)


@functools.lru_cache(None)
def inventory():
    from obspy.core.inventory import Channel, Inventory, Network, Response, Station

    stations = []
    for s in ("AA1", "C"):          # no response for B2
        chans = []
        for c in CHANNELS:
            r = Response.from_paz(ZEROS, POLES, stage_gain=SENS[c], stage_gain_frequency=1.0,
                                  normalization_factor=NORM, normalization_frequency=1.0)
            r.instrument_sensitivity.value = SENS[c]
            chans.append(Channel(c, "", 6.2, 116.7, 0, 0, sample_rate=SR, response=r))
        stations.append(Station(s, 6.2, 116.7, 0, channels=chans))
    return Inventory([Network("AA", stations)])


def arrange(case, d):
    """Writes the archive; returns {seed id: [(time in ns, sample), ...]} and the events' times."""
    g = GRIDS[case["grid"]]
    rates, offs, segs = {}, {}, {}
    base = T0 + case.get("at", 0.0)
    for s in STATIONS + ("X9",):
        for c in CHANNELS:
            rates[s, c] = r = g["rates"].get(s, SR)
            offs[s, c] = g["offset"] if s != "C" else 0.0
            segs[s, c] = [(round((base.ns / 1e9 + a) * r), round((base.ns / 1e9 + b) * r))
                          for a, b in LAYOUTS[case["layout"]].get((s, c), [(-60, 60)])]
    segs = {k: v for k, v in segs.items() if v}
    archlib.write_archive(d / "archive", rates, segs, value=value, offset=offs)
    data = {}
    for (s, c), ranges in segs.items():
        t, y = [], []
        for a, b in ranges:
            idx = np.arange(a, b + 1)
            t.append(np.array([archlib.time_of(i, rates[s, c]).ns for i in idx])
                     + round(offs[s, c] * 1e9))
            y.append(value(s, c, idx))
        data[f"AA.{s}..{c}"] = (np.concatenate(t), np.concatenate(y), rates[s, c])
    return data, [base + g["shift"]] + ([base + g["shift"] + 14.0] if case.get("two") else [])


def locate(case, d, arch, times, cut=True):
    from quakemigrate.io import Archive
    from quakemigrate.signal.local_mag import LocalMag

    lut = locatelib.default_lut()
    src = locatelib.Source(lut, SR, [(t, (1, 3, 2), 5.0) for t in times])
    # the data choose nothing here: onsets are given, waveforms come from the archive
    onset = world.onset_class()(STATIONS, PHASES, SR, src, pre=PRE, post=POST)
    archive = Archive(arch, archlib.station_frame(STATIONS), archive_format="YEAR/JD/*_STATION_*",
                      read_all_stations=case.get("all", False),
                      response_inv=inventory() if case.get("inv", True) else None,
                      response_removal_params=dict(remove_full_response=case.get("full", False)))
    mags = None
    if case.get("mags"):
        mags = LocalMag(dict(signal_window=1.0, noise_window=1.5),
                        dict(A0="Hutton-Boore", use_hyp_dist=True), plot_amplitudes=False)
    kw = {}
    if cut:
        kw = dict(write_cut_waveforms="raw" in case["types"],
                  write_real_waveforms="real" in case["types"],
                  write_wa_waveforms="wa" in case["types"], cut_waveform_format=case.get("fmt", "MSEED"),
                  real_waveform_units=case.get("real_units", "displacement"),
                  wa_waveform_units=case.get("wa_units", "displacement"))
    scan = locatelib.make_scan(d, lut, archive, onset, mags=mags, mw=MW, **kw)
    if cut:
        scan.pre_cut, scan.post_cut = case["pre"], case["post"]
    rows = locatelib.trigger_rows([t + 0.13 for t in times])
    scan.locate(trigger_file=locatelib.write_trigger_file(d / "t.csv", rows))
    return rows


def cut_files(d, kind, uid, fmt):
    root = d / "run" / "locate" / f"{kind}_cut_waveforms"
    suffix = {"MSEED": ".m", "SAC": ".sac", "GSE2": ".gse2"}.get(fmt, ".waveforms")
    st = Stream()
    if root.exists():
        for f in sorted(root.iterdir()):
            if f.name.startswith(uid):
                assert f.suffix == suffix, f
                st += read(str(f), format=fmt)
    return st


def restored(ctx, label, data, tid, t, kind, units, full):
    """The archived samples at times t, with the response removed (and Wood-Anderson simulated)."""
    from obspy import Trace

    times, y, rate = data[tid]
    k = np.searchsorted(times, t[0] - 1e6)
    tr = Trace(y[k:k + len(t)].copy(), header=dict(
        network="AA", station=tid.split(".")[1], channel=tid.split(".")[3], sampling_rate=rate,
        starttime=UTCDateTime(ns=int(times[k]))))
    tr.detrend("linear")
    if kind == "wa":
        tr.detrend("linear")
    velocity = units == "velocity"
    if full:
        tr.remove_response(inventory=inventory(), output="VEL" if velocity else "DISP",
                           water_level=60.0, taper=True)
    else:
        paz = {"poles": POLES, "zeros": ZEROS + ([] if velocity else [0j]), "gain": NORM,
               "sensitivity": SENS[tr.stats.channel]}
        tr.simulate(paz_remove=paz, water_level=60.0, taper=True, sacsim=True, pitsasim=False)
    if kind == "wa":
        tr.simulate(paz_simulate=WA, water_level=60.0, taper=True, sacsim=True, pitsasim=False)
    return tr.data


def verify(ctx, label, case, d, data, rows):
    """Every file of cut waveforms of every event."""
    out = locatelib.outputs(d)
    fmt = case.get("fmt", "MSEED")
    ctx.check(len(out["events"]) == len(rows), "located", lambda: f"{label}: {list(out['events'])}")
    for row in rows:
        uid = row["EventID"]
        otime = UTCDateTime(out["events"][uid][0]["DT"])
        trig = UTCDateTime(row["CoaTime"])
        for kind in case["types"]:
            st = cut_files(d, kind, uid, fmt)
            verify_one(ctx, f"{label}, {uid} {kind}", case, st, data, otime, trig, kind, fmt)
    for kind in ("raw", "real", "wa"):
        if kind not in case["types"]:
            p = d / "run" / "locate" / f"{kind}_cut_waveforms"
            ctx.check(not p.exists(), "unasked-product", lambda: f"{label}: {kind}")


def verify_one(ctx, label, case, st, data, otime, trig, kind, fmt):
    pre, post = case["pre"] or None, case["post"] or None
    tol = 1_500_000 if fmt != "MSEED" else 10_000      # ns
    units = case.get(f"{kind}_units", "displacement")
    reused = kind != "raw" and case.get("mags") and pre is None and post is None
    seen = {}
    for tr in st:
        seen.setdefault(tr.id, []).append(tr)
    for tid, (times, y, rate) in data.items():
        sta = tid.split(".")[1]
        if sta not in STATIONS and not case.get("all"):
            ctx.check(tid not in seen, "unrequested-station", lambda: f"{label}: {tid}")
            continue
        dt = 1_000_000_000 // rate
        lo = otime.ns - round(pre * 1e9) if pre else trig.ns - round((2 * MW + PRE) * 1e9)
        hi = otime.ns + round(post * 1e9) if post else trig.ns + round((2 * MW + POST) * 1e9)
        must = np.flatnonzero((times >= lo) & (times <= hi))
        trs = sorted(seen.pop(tid, []), key=lambda tr: tr.stats.starttime.ns)
        for tr in trs:
            ctx.check(tr.stats.npts > 0 and tr.stats.sampling_rate == rate, "trace",
                      lambda: f"{label}: {tr}")
        if kind != "raw" and sta not in ("AA1", "C"):
            ctx.check(not trs, "no-response", lambda: f"{label}: {tid} has no response, wrote {trs}")
            continue
        have = [np.array([tr.stats.starttime.ns + round(n * 1e9 / rate) for n in range(tr.stats.npts)])
                for tr in trs]
        flat = np.concatenate(have) if have else np.array([], dtype=np.int64)
        at = np.clip(np.searchsorted(times, flat - dt // 2), 0, len(times) - 1)
        ctx.check(bool(np.all(np.abs(times[at] - flat) <= tol)), "sample-times",
                  lambda: f"{label}: {tid} has samples at times the archive does not")
        ctx.check(len(set(at)) == len(at), "duplicate-samples", lambda: f"{label}: {tid}")
        if pre and len(flat):
            ctx.check(flat.min() > lo - dt - tol, "starts-early",
                      lambda: f"{label}: {tid} starts {(flat.min() - otime.ns) / 1e9} s from the origin")
        if post and len(flat):
            ctx.check(flat.max() < hi + dt + tol, "ends-late",
                      lambda: f"{label}: {tid} ends {(flat.max() - otime.ns) / 1e9} s from the origin")
        if kind == "raw":
            miss = np.setdiff1d(must, at)
            ctx.check(not len(miss), "missing-samples",
                      lambda: f"{label}: {tid} lacks {len(miss)} of {len(must)} archived samples, first "
                              f"{(times[miss[0]] - otime.ns) / 1e9} s from the origin")
            got = np.concatenate([tr.data for tr in trs]) if trs else np.array([])
            ctx.check(bool(np.all(got == y[at])), "samples", lambda: f"{label}: {tid} other values")
        else:
            # one stretch of data at a time; dead and single-sample ones have nothing to restore
            for run in np.split(must, np.flatnonzero(np.diff(times[must]) > 1.5 * dt) + 1):
                if reused or not len(run) or np.ptp(y[run]) == 0:
                    continue
                ctx.check(bool(np.isin(run, at).all()), "missing-samples",
                          lambda: f"{label}: {tid} lacks archived samples")
            for tr, t in zip(trs, have):
                if np.ptp(y) == 0:
                    continue        # rounding errors of a dead channel
                want = restored(ctx, label, data, tid, t, kind, units, case.get("full", False))
                scale = np.abs(want).max()
                ctx.check(len(want) == tr.stats.npts and
                          bool(np.all(np.abs(want - tr.data) <= 1e-5 * scale)), "restored-values",
                          lambda: f"{label}: {tid} ({units}) up to "
                                  f"{np.abs(want - tr.data).max()} off, largest {scale}")
        ctx.add(samples_compared=int(len(flat)))
    ctx.check(not seen, "unknown-channel", lambda: f"{label}: {sorted(seen)}")


def run(case, ctx):
    d = ctx.tmp()
    data, times = arrange(case, d)
    rows = locate(case, d, d / "archive", times)
    ctx.count(str(sorted(case.items(), key=str)),
              nontrivial=bool(case["pre"] or case["post"] or case["layout"] != "complete"))
    verify(ctx, str(case), case, d, data, rows)
    if case.get("same"):
        e = ctx.tmp()
        locate(case, e, d / "archive", times, cut=False)
        a = {k: v for k, v in world.tree(d / "run" / "locate").items() if "cut_waveforms" not in k}
        b = world.tree(e / "run" / "locate")
        ctx.check(a == b, "other-products-changed",
                  lambda: f"{case}: {[k for k in set(a) | set(b) if a.get(k) != b.get(k)]}")
        for kind in case["types"]:
            e = ctx.tmp()
            locate(dict(case, types=(kind,)), e, d / "archive", times)
            sub = f"locate/{kind}_cut_waveforms"
            p, q = d / "run" / sub, e / "run" / sub
            ctx.check((world.tree(p) if p.exists() else {}) == (world.tree(q) if q.exists() else {}),
                      "product-depends-on-others", lambda: f"{case}: {kind} alone differs")
    ctx.sample(**case)


def raw_cases(tier):
    cuts = CUTS if tier == "quick" else CUTS + [0.02, 0.5, 1.6, 5.0, 25.0]
    for grid, layout, (pre, post) in itertools.product(GRIDS, LAYOUTS, itertools.product(cuts, cuts)):
        if tier == "quick" and grid not in ("on-sample", "mixed") and (cuts.index(pre) + cuts.index(post)) % 3:
            continue
        yield dict(grid=grid, layout=layout, pre=pre, post=post, types=("raw",))


def midnight_cases(tier):
    # the event (23:59:40) moved to around midnight
    for at in (14.0, 18.9, 19.99, 20.0, 20.7, 24.0):
        for pre, post in itertools.product((None, 0.25, 2.5, 9.3), repeat=2):
            for grid in GRIDS:
                for layout in (("complete", "gap-before") if tier == "quick" else LAYOUTS):
                    yield dict(grid=grid, layout=layout, pre=pre, post=post, types=("raw",), at=at,
                               all=bool((int(at) + list(GRIDS).index(grid)) % 2), two=at < 19)


def product_cases(tier):
    units = ("displacement", "velocity")
    cuts = ((None, None), (2.5, None), (None, 1.0), (1.0, 9.3)) if tier == "quick" else \
        tuple(itertools.product((None, 0.25, 1.0, 9.3), repeat=2))
    for mags, full, (ru, wu), (pre, post) in itertools.product(
            (False, True), (False, True), itertools.product(units, units), cuts):
        for layout in ("complete", "gap-after", "early", "short", "missing") if tier == "quick" else LAYOUTS:
            for k, types in enumerate((("raw", "real", "wa"), ("real",), ("wa",), ("real", "wa"))):
                if k and (tier == "quick" and layout != "complete"):
                    continue
                yield dict(grid="on-sample" if ru == wu else "between", layout=layout, pre=pre,
                           post=post, types=types, mags=mags, full=full, real_units=ru, wa_units=wu,
                           same=not k and ru != wu, two=bool(k))


def format_cases(tier):
    for fmt in ("MSEED", "SAC", "GSE2", "PICKLE"):
        for layout in LAYOUTS:
            for pre, post in itertools.product((None, 1.0, 9.3), repeat=2):
                for types in (("raw",), ("raw", "real", "wa")):
                    if fmt == "GSE2" and len(types) > 1:
                        continue            # integers only
                    yield dict(grid="between", layout=layout, pre=pre, post=post, types=types, fmt=fmt)


def refuse_cases(tier):
    for types in (("real",), ("wa",), ("raw", "real"), ("raw", "wa")):
        for pre, post in itertools.product((None, 1.0), repeat=2):
            yield dict(grid="between", layout="complete", pre=pre, post=post, types=types, inv=False)


def refuse_run(case, ctx):
    d = ctx.tmp()
    data, times = arrange(case, d)
    ctx.count(str(sorted(case.items(), key=str)))
    try:
        locate(case, d, d / "archive", times)
    except AttributeError as e:
        ctx.check("response" in str(e), "message", lambda: f"{case}: {e}")
    else:
        ctx.fail("accepted", f"{case}: restored waveforms without a response inventory")
    ctx.check(not cut_files(d, case["types"][-1], "2015", "MSEED"), "written", str(case))
    ctx.sample(**case)


def groups():
    return [Group("raw", raw_cases, run),
            Group("midnight", midnight_cases, run),
            Group("products", product_cases, run),
            Group("formats", format_cases, run),
            Group("no-response", refuse_cases, refuse_run)]


_ = triglib
