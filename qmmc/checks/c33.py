import copy
import itertools
import pickle

import numpy as np
import pandas as pd
from obspy import UTCDateTime

from qmmc import detectlib, world
from qmmc.core import Group
from qmmc.checks import c22
from qmmc.checks.c15 import make
from qmmc.checks.c28 import quiet

LEVEL = "exploration"
RULE = ("one evaluation = one sequence of settings through superseded and current names (or one "
        "old-format lookup table and reader), after every step of which the values read under "
        "every name, and the behaviour they produce, must equal those of a reference state set "
        "through the current names only. Non-trivial: a superseded name is used.")
ASSUMPTIONS = ["old-format tables are those the code names: tables under maps/TIME_<phase>, grid "
               "under _cell_count/_cell_size, with or without phases and fraction_tt"]

T0 = UTCDateTime("2021-03-04T05:06:07")


# -- onset parameters ---------------------------------------------------------------------

WIN = ([0.1, 0.9], [0.3, 1.7])
FILT = ([1.5, 9.0, 2], [0.5, 4.0, 3])
OLD_ONSET = {
    "onset_centred": ("position", (True, False)),
    "p_bp_filter": ("P", FILT), "s_bp_filter": ("S", FILT),
    "p_onset_win": ("P", WIN), "s_onset_win": ("S", WIN),
}


def onset_moves():
    for name, (_, vals) in OLD_ONSET.items():
        for k in (0, 1):
            yield name, k
    for k in (0, 1):
        yield "position", k
        yield "bandpass_filters", k
        yield "sta_lta_windows", k
    yield "other-object", 0


def onset_cases(tier):
    depth = 2 if tier == "quick" else 3
    moves = list(onset_moves())
    for cls in ("STALTAOnset", "CentredSTALTAOnset", "ClassicSTALTAOnset"):
        for n in range(depth + 1):
            for seq in itertools.product(moves, repeat=n):
                yield [cls, [list(m) for m in seq]]


def new_value(name, k):
    return {"position": ("centred", "classic")[k],
            "bandpass_filters": {"P": [2.0, 8.0 + k, 2], "S": [1.0, 6.0 + k, 2]},
            "sta_lta_windows": {"P": [0.2, 1.0 + k], "S": [0.2, 1.5 + k]}}[name]


def apply_ref(ref, name, k):
    if name in ("position", "bandpass_filters", "sta_lta_windows"):
        ref[name] = new_value(name, k)
    elif name == "onset_centred":
        ref["position"] = "centred" if OLD_ONSET[name][1][k] else "classic"
    elif name != "other-object":
        kind = "bandpass_filters" if "filter" in name else "sta_lta_windows"
        ref[kind][OLD_ONSET[name][0]] = list(OLD_ONSET[name][1][k])


def look(ctx, onset, ref, label):
    ctx.check(onset.position == ref["position"], "position",
              lambda: f"{label}: {onset.position} expected {ref['position']}")
    for kind in ("bandpass_filters", "sta_lta_windows"):
        have = {p: list(v) for p, v in getattr(onset, kind).items()}
        ctx.check(have == ref[kind], kind, lambda: f"{label}: {have} expected {ref[kind]}")
    for name in ("p_bp_filter", "s_bp_filter", "p_onset_win", "s_onset_win"):
        kind = "bandpass_filters" if "filter" in name else "sta_lta_windows"
        have = list(getattr(onset, name))
        ctx.check(have == ref[kind][name[0].upper()], "read:" + name, lambda: f"{label}: {have}")
    ctx.check(onset.onset_centred in ("centred", True) if ref["position"] == "centred" else
              onset.onset_centred in ("classic", False), "read:onset_centred", label)


def run_onset(case, ctx):
    import quakemigrate.signal.onsets as onsets
    from quakemigrate.signal.onsets import STALTAOnset

    cls, seq = case
    with quiet():
        onset = getattr(onsets, cls)(sampling_rate=50)
        base = STALTAOnset(sampling_rate=50)
    ref = dict(position="centred" if cls.startswith("Centred") else "classic",
               bandpass_filters={p: list(v) for p, v in base.bandpass_filters.items()},
               sta_lta_windows={p: list(v) for p, v in base.sta_lta_windows.items()})
    start = copy.deepcopy(ref)
    ctx.count(str(case), nontrivial=cls != "STALTAOnset" or any(m[0] in OLD_ONSET for m in seq))
    look(ctx, onset, ref, f"{cls}()")
    for n, (name, k) in enumerate(seq):
        label = f"{cls}: {seq[:n + 1]}"
        with quiet():
            if name == "other-object":         # the settings of one object are its own
                other = STALTAOnset(sampling_rate=50, p_bp_filter=[3.0, 7.0, 4], s_onset_win=[0.4, 2.0])
                other.p_onset_win = [0.5, 3.0]
            elif name in OLD_ONSET:
                v = OLD_ONSET[name][1][k]
                setattr(onset, name, list(v) if isinstance(v, list) else v)
            else:
                setattr(onset, name, new_value(name, k))
        apply_ref(ref, name, k)
        look(ctx, onset, ref, label)
    with quiet():
        fresh = STALTAOnset(sampling_rate=50)
    look(ctx, fresh, dict(start, position="classic"), f"fresh object after {seq}")
    # pads follow the values
    with quiet():
        want = STALTAOnset(sampling_rate=50, **copy.deepcopy(ref))
    for ttmax, n in ((3.3, 120.0), (0.0, 4.0)):
        for o in (onset, want):
            o.post_pad = ttmax
        ctx.check((onset.pre_pad, onset.post_pad) == (want.pre_pad, want.post_pad), "pads",
                  lambda: f"{label}: {onset.pre_pad, onset.post_pad}")
        ctx.check(onset.pad(n) == want.pad(n), "pad", lambda: f"{seq}: {onset.pad(n)}")
    ctx.sample(cls=cls, sequence=seq)


def kwarg_cases(tier):
    names = list(OLD_ONSET)
    for cls in ("STALTAOnset", "CentredSTALTAOnset", "ClassicSTALTAOnset"):
        for bits in itertools.product((None, 0, 1), repeat=len(names)):
            if tier == "quick" and bits.count(1) > 2:
                continue
            yield [cls, list(bits)]


def waveforms(sr=50, n=600):
    from obspy import Stream, Trace

    rng = np.arange(n)
    st = Stream()
    for c, comp in enumerate("ZNE"):
        tr = Trace(np.sin(rng * (0.7 + 0.31 * c)) + 0.3 * np.sin(rng * rng * 0.011 * (c + 1))
                   + 6.0 * np.exp(-((rng - 300 - 40 * c) / 9.0) ** 2) * np.sin(rng * 1.1))
        tr.stats.update(dict(network="NW", station="A", channel="HH" + comp, sampling_rate=sr,
                             starttime=T0))
        st += tr
    return st


def run_kwargs(case, ctx):
    """Superseded keyword arguments: same settings, same onset functions."""
    import quakemigrate.signal.onsets as onsets
    from quakemigrate.io.data import WaveformData
    from quakemigrate.signal.onsets import STALTAOnset

    cls, bits = case
    kw = {n: OLD_ONSET[n][1][b] for n, b in zip(OLD_ONSET, bits) if b is not None}
    with quiet():
        onset = getattr(onsets, cls)(sampling_rate=50, **copy.deepcopy(kw))
        base = STALTAOnset(sampling_rate=50)
    ref = dict(position={"C": "centred", "l": "classic"}.get(
                   "C" if cls.startswith("Cen") else "l" if cls.startswith("Cla") else "", "classic"),
               bandpass_filters={p: list(v) for p, v in base.bandpass_filters.items()},
               sta_lta_windows={p: list(v) for p, v in base.sta_lta_windows.items()})
    for n, b in zip(OLD_ONSET, bits):
        if b is not None and not (n == "onset_centred" and cls != "STALTAOnset"):
            apply_ref(ref, n, b)
    label = f"{cls}({kw})"
    ctx.count(str(case), nontrivial=bool(kw) or cls != "STALTAOnset")
    look(ctx, onset, ref, label)
    with quiet():
        want = STALTAOnset(sampling_rate=50, **copy.deepcopy(ref))
    out = []
    for o in (onset, want):
        st = waveforms()
        o.post_pad = 1.0
        data = WaveformData(starttime=T0, endtime=T0 + 599 / 50, stations=pd.Series(["A"]))
        data.waveforms = st
        got, meta = o.calculate_onsets(data)
        out.append((np.array(got), dict(meta.availability)))
    ctx.check(out[0][1] == out[1][1] and np.array_equal(out[0][0], out[1][0]), "onset-functions",
              lambda: f"{label}: {np.abs(out[0][0] - out[1][0]).max()}")
    ctx.check(len(out[0][0]) == 2, "no-onsets", label)
    ctx.sample(cls=cls, kwargs=kw)


# -- scan parameters ----------------------------------------------------------------------

SCAN_OPS = [("time_step", 7.0), ("timestep", 11.0), ("time_step", None), ("n_cores", 3),
            ("threads", 2), ("n_cores", None), ("sampling_rate", 99), ("sampling_rate", None),
            ("sampling_rate", 10), ("scan_rate", 99), ("scan_rate", 10), ("scan_rate", None)]


def scan_cases(tier):
    depth = 2 if tier == "quick" else 3
    for n in range(depth + 1):
        for seq in itertools.product(range(len(SCAN_OPS)), repeat=n):
            yield ["set", list(seq)]
    opts = [(None, 5.0), (None, 9.0), (None, 2), (None, 4), (None, 10, 99)]
    for v in itertools.product(*opts):
        yield ["kwargs", list(v)]


def run_scan(case, ctx):
    how, seq = case
    d = ctx.tmp()
    lut = detectlib.default_lut(10)
    archive = world.FakeArchive(detectlib.STATIONS)
    onset = world.onset_class()(detectlib.STATIONS, detectlib.PHASES, 10, world.hash_onset())
    ref = dict(timestep=120.0, threads=1)

    def look_scan(scan, label):
        for new, old in (("timestep", "time_step"), ("threads", "n_cores")):
            for n in (new, old):
                ctx.check(getattr(scan, n) == ref[new], n,
                          lambda: f"{label}: {n} is {getattr(scan, n)} expected {ref[new]}")
        for n in ("scan_rate", "sampling_rate"):
            ctx.check(getattr(scan, n) == 10, n, lambda: f"{label}: {n} {getattr(scan, n)}")

    if how == "kwargs":
        ts, old_ts, th, cores, rate = seq
        kw = dict(timestep=ts, time_step=old_ts, threads=th, n_cores=cores, sampling_rate=rate)
        kw = {k: v for k, v in kw.items() if v is not None}
        with quiet():
            scan = detectlib.make_scan(d, lut, archive, onset, **kw)
        for new, old in (("timestep", "time_step"), ("threads", "n_cores")):
            ref[new] = kw.get(old, kw.get(new, ref[new]))
        ctx.count(str(case), nontrivial=old_ts is not None or cores is not None)
        look_scan(scan, str(kw))
        return
    with quiet():
        scan = detectlib.make_scan(d, lut, archive, onset)
    ctx.count(str(case), nontrivial=len(seq) > 0)
    look_scan(scan, "default")
    for n, k in enumerate(seq):
        name, v = SCAN_OPS[k]
        with quiet():
            setattr(scan, name, v)
        if v is not None or name in ("timestep", "threads"):
            new = {"time_step": "timestep", "n_cores": "threads"}.get(name, name)
            if new in ref:
                ref[new] = v
        look_scan(scan, str([SCAN_OPS[i] for i in seq[:n + 1]]))


def detect_cases(tier):
    for sr, step in ((10, 20), (4, 10), (50, 50)):
        for outcomes in itertools.product(("ok", "gap"), repeat=2 if tier == "quick" else 4):
            yield [sr, step, list(outcomes)]


def run_detect(case, ctx):
    """A detect run set up through the superseded names stores the same coalescence."""
    sr, step, outcomes = case
    d = ctx.tmp()
    got = []
    for old in (0, 1):
        r = detectlib.DetectRun(d / str(old), sr, step, "2021-06-01T23:59:55", outcomes, False)
        if old:
            r.scan.timestep, r.scan.threads = 1e6, 1
            with quiet():
                r.scan.time_step, r.scan.n_cores = step / sr, 2
        r.run()
        got.append(detectlib.collect(d / str(old) / "run", sr))
        ctx.count((case, old), nontrivial=bool(old))
    a, b = got
    ctx.check(sorted(a) == sorted(b) and len(a) == 5, "channels", lambda: f"{sorted(a)} {sorted(b)}")
    for ch in a:
        ctx.check(np.array_equal(a[ch][0], b[ch][0]) and np.array_equal(a[ch][1], b[ch][1]),
                  "coalescence", lambda: f"{case}: {ch}")


# -- trigger parameters -------------------------------------------------------------------

TRIG_OPS = [("marginal_window", 1.0), ("marginal_window", 3.0), ("minimum_repeat", 2.5),
            ("minimum_repeat", 6.0), ("minimum_repeat", 1.0), ("min_event_interval", 5.0),
            ("min_event_interval", 2.0), ("threshold_method", "dynamic"),
            ("threshold_method", "mad"), ("threshold_method", "static"),
            ("threshold_method", "median"), ("threshold_method", "median_ratio")]


def trigger_cases(tier):
    depth = 3 if tier == "quick" else 4
    for n in range(depth + 1):
        for seq in itertools.product(range(len(TRIG_OPS)), repeat=n):
            if n == depth and seq[0] != min(seq) and tier == "quick":
                continue
            yield ["set", list(seq)]
    for v in itertools.product((None, 1.0, 3.0), (None, 2.5, 6.0), (None, 2.5, 6.0, 7.0),
                               (None, "dynamic", "mad", "static", "median_ratio")):
        yield ["kwargs", list(v)]


def run_trigger(case, ctx):
    from quakemigrate.signal import Trigger

    how, seq = case
    d = ctx.tmp()
    lut = detectlib.default_lut(10)
    ref = dict(marginal_window=2.0, min_event_interval=4.0, threshold_method="static")

    def look_trig(t, label):
        for n, key in (("marginal_window",) * 2, ("min_event_interval",) * 2,
                       ("minimum_repeat", "min_event_interval"), ("threshold_method",) * 2):
            ctx.check(getattr(t, n) == ref[key], n,
                      lambda: f"{label}: {n} is {getattr(t, n)} expected {ref[key]}")

    if how == "kwargs":
        mw, mei, rep, method = seq
        kw = dict(marginal_window=mw, min_event_interval=mei, minimum_repeat=rep,
                  threshold_method=method)
        kw = {k: v for k, v in kw.items() if v is not None}
        ctx.count(str(case), nontrivial=rep is not None or method == "dynamic")
        m = kw.get("marginal_window", 2.0)
        bad = kw.get("min_event_interval", 4.0) < 2 * m or kw.get("minimum_repeat", 1e9) < 2 * m
        try:
            with quiet():
                t = Trigger(lut, str(d), "run", **kw)
        except ValueError:
            ctx.check(bad, "refused", str(kw))
            return
        ctx.check(not bad, "accepted", str(kw))
        ref.update(marginal_window=m,
                   min_event_interval=kw.get("minimum_repeat", kw.get("min_event_interval", 4.0)),
                   threshold_method={"dynamic": "mad"}.get(method, method or "static"))
        look_trig(t, str(kw))
        return
    with quiet():
        t = Trigger(lut, str(d), "run")
    ctx.count(str(case), nontrivial=any(TRIG_OPS[k][0] == "minimum_repeat"
                                        or TRIG_OPS[k][1] == "dynamic" for k in seq))
    for n, k in enumerate(seq):
        name, v = TRIG_OPS[k]
        label = str([TRIG_OPS[i] for i in seq[:n + 1]])
        bad = (v == "median" or name in ("minimum_repeat", "min_event_interval")
               and v < 2 * ref["marginal_window"])
        try:
            with quiet():
                setattr(t, name, v)
        except Exception as e:
            if name == "marginal_window":         # may be refused by the event interval
                ctx.check(2 * v > ref["min_event_interval"], "refused", lambda: f"{label}: {e!r}")
                continue
            ctx.check(bad, "refused", lambda: f"{label}: {e!r}")
        else:
            ctx.check(not bad, "accepted", label)
            ref[{"minimum_repeat": "min_event_interval"}.get(name, name)] = \
                "mad" if v == "dynamic" else v
        look_trig(t, label)


# -- picker -------------------------------------------------------------------------------

def picker_cases(tier):
    seps = [(1.0, 1.3), (0.5, 2.0), (2.0, 3.4)]
    for f, lut_f in itertools.product((0.0, 0.05, 0.3, 1.0), (0.1, 0.5)):
        for how in ("argument", "attribute", "argument-attribute"):
            for sep in seps if tier == "quick" else c22.SEPS:
                yield [f, lut_f, how, list(sep)]


def run_picker(case, ctx):
    """fraction_tt given to the picker acts as if the lookup table carried that fraction."""
    f, lut_f, how, sep = case
    shapes = [("gauss", 0.0, 9.0, 3.0), ("gauss", -7.0, 14.0, 2.0), ("gauss", 12.0, 14.0, 2.0),
              ("gauss", 31.0, 30.0, 3.0)]
    for ph in ("P", "S"):
        for use in itertools.product((0, 1), repeat=len(shapes)):
            mine = [s for s, u in zip(shapes, use) if u]
            table = {"A": {"P": ((), "noisy"), "S": ((), "noisy")}}
            table["A"][ph] = (mine, "noisy")
            with quiet():
                a = c22.pick(ctx, {"A": tuple(sep)}, table, "MAD", 3.0, frac=f)[1]
                b = c22.pick(ctx, {"A": tuple(sep)}, table, "MAD", 3.0, frac=lut_f,
                             override=(how, f))[1]
            ctx.count((case, ph, use), nontrivial=bool(mine))
            ctx.check(a == b, "picks", lambda: f"{case} {ph} {mine}: {b} instead of {a}")
            ctx.add(made=sum(r["PickTime"] != "-1" for r in a))


# -- old lookup tables --------------------------------------------------------------------

def lut_cases(tier):
    shapes = [(3, 2, 2), (2, 3, 4), (1, 1, 1), (4, 1, 2)]
    if tier == "thorough":
        shapes = [s for s in itertools.product((1, 2, 3, 4), repeat=3)]
    for shape in shapes:
        for stations in (["A"], ["A", "B2", "ZZ"], ["ZZ", "A"]):
            for phases in (["P", "S"], ["P"]):
                for maps, cells, meta in itertools.product((0, 1), (0, 1), (0, 1)):
                    for kind in ("lcc_km", "utm_m"):
                        yield [list(shape), stations, phases, maps, cells, meta, kind]


def run_lut(case, ctx):
    from quakemigrate.io import read_lut
    from quakemigrate.lut import LUT, update_lut

    shape, stations, phases, maps, cells, meta, kind = case
    if phases == ["P"] and not meta:
        phases = ["P", "S"]            # without a record of the phases, both are meant
    fraction = 0.23 if meta else 0.1
    new = make(stations, phases, 2, tuple(shape), fraction, kind)
    d = ctx.tmp()
    old = dict(copy.deepcopy(new.__dict__))
    if maps:
        old["maps"] = {s: {f"TIME_{p}": t for p, t in v.items()}
                       for s, v in old.pop("traveltimes").items()}
    if cells:
        old["_cell_count"], old["_cell_size"] = old.pop("_node_count"), old.pop("_node_spacing")
    if not meta:
        del old["phases"], old["fraction_tt"]
    f = d / "old.LUT"
    f.write_bytes(pickle.dumps(old, 4))
    before = f.read_bytes()
    label = str(case)

    def compare(lut, how):
        where = f"{label} {how}"
        for a in ("node_count", "cell_count", "node_spacing", "cell_size", "grid_corners",
                  "stations_xyz", "precision"):
            ref = {"cell_count": "node_count", "cell_size": "node_spacing"}.get(a, a)
            ctx.check(np.array_equal(getattr(lut, a), getattr(new, ref)), a,
                      lambda: f"{where}: {getattr(lut, a)} expected {getattr(new, ref)}")
        ctx.check(bool(lut == new), "not-equal", where)
        ctx.check(list(lut.phases) == list(new.phases), "phases",
                  lambda: f"{where}: {lut.phases} expected {new.phases}")
        ctx.check(lut.fraction_tt == fraction, "fraction",
                  lambda: f"{where}: {lut.fraction_tt} expected {fraction}")
        ctx.check(lut.max_traveltime == new.max_traveltime, "max-traveltime", where)
        for sr in (7, 100):
            ctx.check(np.array_equal(lut.serve_traveltimes(sr), new.serve_traveltimes(sr)),
                      "served", where)
        av = {f"{s}_{p}": (i + j) % 3 != 1 for i, s in enumerate(stations)
              for j, p in enumerate(phases)}
        ctx.check(np.array_equal(lut.serve_traveltimes(9, av), new.serve_traveltimes(9, av)),
                  "served-available", where)
        for s in stations:
            for p in phases:
                mine = lut[s][p] if p in lut[s] else lut[s][f"TIME_{p}"]
                ctx.check(np.array_equal(mine, new[s][p]), "table", lambda: f"{where} {s} {p}")
        if min(shape) > 1:
            for ijk in ([0, 0, 0], [0.5, 0.25, 0.75], [n - 1 for n in shape]):
                for p in phases:
                    for st in (None, stations[-1], stations):
                        ctx.check(np.array_equal(lut.traveltime_to(p, [ijk], st),
                                                 new.traveltime_to(p, [ijk], st)),
                                  "traveltime-to", lambda: f"{where} {p} {ijk} {st}")

    with quiet():
        read = read_lut(str(f))
        compare(read, "read_lut")
        compare(LUT(lut_file=str(f)), "LUT(lut_file)")
        again = LUT()
        again.load(str(f))
        compare(again, "load")
        update_lut(str(f), str(d / "new.LUT"))
        ctx.check(f.read_bytes() == before, "original-changed", label)
        up = read_lut(str(d / "new.LUT"))
        compare(up, "update_lut")
        ctx.check(not hasattr(up, "maps") and sorted(up.traveltimes) == sorted(stations)
                  and all(sorted(t) == sorted(phases) for t in up.traveltimes.values()),
                  "not-updated", lambda: f"{label}: {sorted(up.__dict__)}")
        ctx.check(not any(hasattr(up, a) for a in ("_cell_count", "_cell_size")), "not-updated", label)
        dec = up.decimate([2, 1, 2])
        want = new.decimate([2, 1, 2])
        ctx.check(all(np.array_equal(dec[s][p], want[s][p]) for s in stations for p in phases),
                  "decimated", label)
        update_lut(str(d / "new.LUT"), str(d / "new2.LUT"))
        compare(read_lut(str(d / "new2.LUT")), "update_lut twice")
    ctx.count(str(case), nontrivial=bool(maps or cells))
    ctx.sample(case=case)


# -- functions ----------------------------------------------------------------------------

def func_cases(tier):
    for name in ("stations", "1dsweep", "cell"):
        yield [name]


def run_func(case, ctx):
    import warnings

    import quakemigrate.io as qio
    from quakemigrate.lut import compute_traveltimes

    d = ctx.tmp()
    ctx.count(str(case))
    if case[0] == "stations":
        f = d / "st.csv"
        f.write_text("Name,Latitude,Longitude,Elevation\n001,64.1,-20.5,0.25\nNA,64.2,-20.25,-0.5\n")
        with quiet():
            a = qio.stations(str(f)) if hasattr(qio, "stations") else None
            if a is None:
                from quakemigrate.io.core import stations
                a = stations(str(f))
        b = qio.read_stations(str(f))
        ctx.check(a.equals(b), "stations", lambda: f"{a} {b}")
        with quiet():
            from quakemigrate.io.core import stations
            a = stations(str(f), nrows=1)
        ctx.check(a.equals(qio.read_stations(str(f), nrows=1)), "stations-kwargs", str(a))
    elif case[0] == "1dsweep":
        import os

        from qmmc.checks import c16
        out = []
        for n, method in enumerate(("1dnlloc", "1dsweep")):
            gs, ll = c16.spec((4, 3, 3), np.array([0.5] * 3), "lcc_km", -0.5)
            st = c16.stations(ll, "lcc_km", [np.array((0.6, 0.7, 0.3))])
            w = d / f"w{n}"
            w.mkdir()
            bins = c16.programs(w / "bin", "path")
            os.chdir(w)
            with quiet(), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                lut = compute_traveltimes(gs, st, method, phases=["P"],
                                          vmod=c16.vmod(c16.MODELS[2][1]), nlloc_path=str(bins))
            out.append(lut.traveltimes)
        (s,) = out[0]
        ctx.check(np.array_equal(out[0][s]["P"], out[1][s]["P"]), "1dsweep", "tables differ")
    else:
        for kind in ("lcc_km", "utm_m"):
            lut = make(["A"], ["P"], 1, (3, 2, 2), 0.1, kind)
            with quiet():
                for v in ([4, 5, 6], None, [2, 2, 2]):
                    was = list(lut.node_count)
                    lut.cell_count = v
                    want = was if v is None else v
                    ctx.check(list(lut.node_count) == want == list(lut.cell_count), "cell_count",
                              str(v))
                for v in ([0.5, 1.0, 2.0], None, 3.0):
                    was = list(lut.node_spacing)
                    lut.cell_size = v
                    want = was if v is None else v if isinstance(v, list) else [v] * 3
                    ctx.check(list(lut.node_spacing) == want == list(lut.cell_size), "cell_size",
                              str(v))


def groups():
    return [
        Group("onset-settings", onset_cases, run_onset),
        Group("onset-arguments", kwarg_cases, run_kwargs),
        Group("scan-settings", scan_cases, run_scan),
        Group("detect", detect_cases, run_detect),
        Group("trigger-settings", trigger_cases, run_trigger),
        Group("picker", picker_cases, run_picker),
        Group("old-tables", lut_cases, run_lut),
        Group("functions", func_cases, run_func),
    ]
