"""Optional outputs and plots never change the results, and are written where asked for."""

import copy
import functools
import itertools

import numpy as np
from obspy import UTCDateTime

from qmmc import archlib, locatelib, triglib
from qmmc.core import Group

LEVEL = "exploration"
RULE = ("one evaluation = one run of locate or trigger with one set of optional outputs over one "
        "arrangement of data, stations, phases, grid and settings: its results (events, picks, amplitudes; "
        "triggered events) must be byte for byte those of the run without any option, every requested "
        "output must be there for every event in its own place with the bytes it has when requested "
        "alone (plots: present), and no other output. All subsets of the six outputs other than plots, "
        "all subsets of the three plots with none and all of the others, and everything at once for "
        "every arrangement; thorough adds all 512 subsets. Saved coalescence maps are compared with the "
        "values in the event file. Non-trivial: at least one option is on.")
ASSUMPTIONS = ["the looks of plots are outside the property; where subsets are enumerated the figure is "
               "made but its file is written by a stand-in",
               "log files are only required to exist",
               "the marginalised map may leave out the last sample of the marginal window"]

SR = 20
T0 = UTCDateTime("2015-12-31T23:59:48")
STATIONS = locatelib.STATIONS
NODE = (1, 3, 2)
SOURCES = (T0 + 3.2, T0 + 15.4)
OPTIONS = ("cut", "real", "wa", "coa", "marg", "event", "picks", "amps", "log")
PLACES = {"cut": ("raw_cut_waveforms/",), "real": ("real_cut_waveforms/",), "wa": ("wa_cut_waveforms/",),
          "coa": ("coalescence_maps/",), "marg": ("marginalised_coalescence_maps/",),
          "event": ("summaries/",), "picks": ("pick_plots/",), "amps": ("amplitude_plots/",),
          "log": ("logs/",)}

VARIANTS = {
    "full": {}, "station-out": {"gone": [("B2", None)]}, "no-z": {"gone": [("AA1", "HHZ")]},
    "no-h": {"gone": [("AA1", "HHN"), ("AA1", "HHE")]}, "one-h": {"gone": [("C", "HHN")]},
    "z-only": {"gone": [(None, "HHN"), (None, "HHE")]}, "h-only": {"gone": [(None, "HHZ")]},
    "one-station": {"gone": [("B2", None), ("C", None)]},
    "p-only": {"phases": ["P"]}, "s-only": {"phases": ["S"]}, "s-p": {"phases": ["S", "P"]},
    "no-picks": {"percentile": 1.0, "noise": True}, "flat-z": {"shape": (6, 7, 1)}, "one-x": {"shape": (1, 7, 5)},
    "metres": {"kind": "lcc_m"}, "no-response": {"response": ["AA1"]}, "no-responses": {"response": ["AA1", "C"]},
    "no-mags": {"mags": False}, "cuts": {"cuts": (0.5, 2.0)}, "no-mags-cuts": {"mags": False, "cuts": (0.5, 2.0)},
    "fewer-stations": {"stations": ("AA1", "C")}, "noise-filter": {"mag": dict(noise_filter=1e9)},
    "hyp": {"mag": dict(use_hyp_dist=True, weighted_mean=True)}, "p-amp": {"mag": dict(amp_feature="P_amp")},
    "dist-filter": {"mag": dict(dist_filter=5.0)}, "centred": {"position": "centred"},
    "used-stations": {"plot_all": False}, "used-stations-out": {"plot_all": False, "gone": [("B2", None)]},
    "xy-files": {"xy": True}, "bandpass": {"amp": dict(bandpass_filter=True, bandpass_lowcut=2.0, bandpass_highcut=8.0)},
    "subname": {"subname": "sub"},
    # some or all of the magnitudes rejected
    "one-trace": {"mag": dict(trace_filter=".*H[N]$")}, "one-station-trace": {"mag": dict(trace_filter=".*C.*[N,E]$")},
    "stations-rejected": {"mag": dict(station_filter=["AA1"])}, "two-rejected": {"mag": dict(station_filter=["AA1", "C"])},
    "near-only": {"mag": dict(dist_filter=3.0)}, "picked-only": {"mag": dict(pick_filter=True), "percentile": 1.0},
    "r2-all": {"mag": dict(station_filter=["B2"], r2_only_used=False)},
    "quiet-rejected": {"mag": dict(noise_filter=20.0)}, "quieter-rejected": {"mag": dict(noise_filter=30.0)},
    "corrections": {"mag": dict(station_corrections={"AA1": 0.5}, station_filter=["C"])},
    "h-gone-rejected": {"gone": [("B2", "HHN")], "mag": dict(station_filter=["AA1"])},
    # which channels feed the onsets
    "numbers": {"maps": {"P": "*Z", "S": "*[1,2]"}, "names": {"HHN": "HH1", "HHE": "HH2"}},
    "mixed-names": {"names": {("B2", "HHN"): "HH1", ("B2", "HHE"): "HH2"}},
    "three-numbers": {"maps": {"P": "*[Z,3]", "S": "*[1,2]"}, "names": {"HHN": "HH1", "HHE": "HH2", "HHZ": "HH3"}},
    "more-components": {"maps": {"P": "*Z", "S": "*[N,E,1,2,3]"}},
    "more-letters": {"maps": {"P": "*Z", "S": "*[N,E,R,T]"}}, "more-pairs": {"maps": {"P": "*Z", "S": "*[N,E,R,1,2,3]"}},
    "one-component": {"maps": {"P": "*Z", "S": "*N"}}, "one-in-brackets": {"maps": {"P": "*[Z]", "S": "*[E]"}},
    "z-for-both": {"maps": {"P": "*Z", "S": "*Z"}, "events": 1}, "all-for-s": {"maps": {"P": "*Z", "S": "*[Z,N,E]"}},
    "no-commas": {"maps": {"P": "*Z", "S": "*[NE]"}}, "whole-names": {"maps": {"P": "HHZ", "S": "HH[N,E]"}},
    "question": {"maps": {"P": "HHZ", "S": "HH?"}}, "star": {"maps": {"P": "*Z", "S": "*"}},
    "p-map": {"phases": ["P"], "maps": {"P": "*Z"}}, "s-map": {"phases": ["S"], "maps": {"S": "*[N,E]"}},
}


@functools.lru_cache(None)
def table(shape, kind):
    return locatelib.default_lut(shape=shape, kind=kind)


def value(sta, cha, idx, noise=False):
    lut = table((6, 7, 5), "lcc_km")
    t = idx / SR
    y = 40 * np.sin(0.9 * idx + 3 * ord(sta[0])) + 25 * np.sin(2.3 * idx + ord(cha[-1]))
    for k, o in enumerate(() if noise else SOURCES):
        for ph, size in (("P", 900 if cha == "HHZ" else 90), ("S", 60 if cha == "HHZ" else 1100)):
            dt = t - o.ns / 1e9 - lut.traveltimes[sta][ph][NODE]
            y = y + size * (1 + 0.3 * k) * np.where(dt > 0, dt / 0.08 * np.exp(1 - dt / 0.08), 0) * np.sin(25 * dt)
    return np.round(y).astype(np.int32)


def build(root, v):
    i0, i1 = round((T0.ns / 1e9 - 10) * SR), round((T0.ns / 1e9 + 44) * SR)
    gone = v.get("gone", [])
    have = {(s, c): [(i0, i1)] for s in STATIONS for c in ("HHZ", "HHN", "HHE")
            if not any(g in (s, None) and h in (c, None) for g, h in gone)}
    names = v.get("names", {})
    old = {}
    for (s, c) in list(have):
        new = names.get((s, c), names.get(c, c))
        old[s, new] = c
        have[s, new] = have.pop((s, c))
    archlib.write_archive(root, SR, have,
                          value=lambda s, c, i: value(s, old[s, c], i, v.get("noise", False)))


def locate(path, archive_path, v, options):
    from quakemigrate.io import Archive
    from quakemigrate.signal import QuakeScan
    from quakemigrate.signal.local_mag import LocalMag
    from quakemigrate.signal.onsets import STALTAOnset
    from quakemigrate.signal.pickers import GaussianPicker
    from qmmc.checks.c31 import inventory

    lut = table(v.get("shape", (6, 7, 5)), v.get("kind", "lcc_km"))
    inv = copy.deepcopy(inventory())
    for net in inv:
        if "mag" in v or "names" in v:
            net.stations.append(copy.deepcopy(net.stations[0]))
            net.stations[-1].code = "B2"
        net.stations = [st for st in net.stations if st.code not in v.get("response", ())]
        for st in net.stations:
            for ch in st.channels:
                ch.code = v.get("names", {}).get((st.code, ch.code), v.get("names", {}).get(ch.code, ch.code))
    archive = Archive(archive_path, archlib.station_frame(v.get("stations", STATIONS)),
                      archive_format="YEAR/JD/*_STATION_*", response_inv=inv,
                      response_removal_params=dict(water_level=60.0))
    phases = v.get("phases", ["P", "S"])
    maps_ = {"channel_maps": dict(v["maps"])} if "maps" in v else {}
    onset = STALTAOnset(position=v.get("position", "classic"), sampling_rate=SR, phases=phases, **maps_)
    onset.bandpass_filters = {p: [2, 8, 2] for p in phases}
    onset.sta_lta_windows = {p: [0.2, 1.0] for p in phases}
    picker = GaussianPicker(onset=onset, plot_picks="picks" in options)
    picker.percentile_pick_threshold = v.get("percentile", 1.0)
    mags = None
    if v.get("mags", True):
        mags = LocalMag(dict(signal_window=1.0, noise_window=1.0, **v.get("amp", {})),
                        dict(dict(A0="Hutton-Boore"), **v.get("mag", {})), plot_amplitudes="amps" in options)
    scan = QuakeScan(archive, lut, onset, str(path), "run", run_subname=v.get("subname", ""), picker=picker,
                     mags=mags, marginal_window=0.4, plot_event_summary="event" in options, threads=1,
                     write_cut_waveforms="cut" in options, write_real_waveforms="real" in options,
                     write_wa_waveforms="wa" in options, write_coalescence="coa" in options,
                     write_marginal_coalescence="marg" in options, log="log" in options,
                     plot_all_stns=v.get("plot_all", True))
    if v.get("cuts"):
        scan.pre_cut, scan.post_cut = v["cuts"]
    if v.get("xy"):
        (path / "line.csv").write_text("# a line\n1.0,2.0\n1.1,2.1\n")
        (path / "xy.csv").write_text(f"# files\n{path / 'line.csv'},black,0.5,-\n")
        scan.xy_files = str(path / "xy.csv")
    locatelib.write_trigger_file(path / "t.csv", locatelib.trigger_rows([SOURCES[0] + 0.1, SOURCES[1] - 0.1]))
    scan.locate(trigger_file=str(path / "t.csv"))
    root = path / "run" / "locate"
    return {str(f.relative_to(root / v.get("subname", ""))): f.read_bytes() for f in sorted(root.rglob("*"))
            if f.is_file()}


class Stub:
    """Stands in for the writing of figure files."""

    def __init__(self, on):
        self.on = on

    def __enter__(self):
        import matplotlib.figure as mf

        self.mf, self.real = mf, mf.Figure.savefig
        if self.on:
            mf.Figure.savefig = lambda fig, fname, *a, **kw: open(fname, "w").write("figure")

    def __exit__(self, *exc):
        self.mf.Figure.savefig = self.real


CORE = ("events/", "picks/", "amplitudes/")


def place(f):
    for o, ps in PLACES.items():
        if f.startswith(ps):
            return o
    return "core" if f.startswith(CORE) else "unknown:" + f


def attempt(ctx, archive, v, options, stub=True):
    """(files, None) or (None, error)"""
    import shutil

    import matplotlib.pyplot as plt

    d = ctx.tmp()
    try:
        with Stub(stub):
            return locate(d, archive, v, options), None
    except Exception as e:
        import traceback

        return None, f"{e!r} at {traceback.extract_tb(e.__traceback__)[-1][:3]}"
    finally:
        plt.close("all")
        shutil.rmtree(d)


def compare(ctx, label, v, options, files, base, single):
    """The run with the options against the one without, and those with one option each."""
    got = {}
    for f, b in files.items():
        got.setdefault(place(f), {})[f] = b
    unknown = [k for k in got if k.startswith("unknown")]
    ctx.check(not unknown, "unknown-output", lambda: f"{label}: {unknown[:3]}")
    want = {f: b for f, b in base.items() if place(f) == "core"}
    core = got.get("core", {})
    diff = sorted(f for f in set(core) | set(want) if core.get(f) != want.get(f))
    ctx.check(not diff, "results-change",
              lambda: f"{label}: {diff[:3]} differ from those without optional outputs")
    for o in OPTIONS:
        if o not in options:
            ctx.check(not got.get(o), "not-requested", lambda: f"{label}: {sorted(got[o])[:3]}")
            continue
        if o in single:
            alone = {f: b for f, b in single[o].items() if place(f) == o}
            # log files are named after the time of the run
            ctx.check(o == "log" or set(got.get(o, {})) == set(alone), "outputs-differ",
                      lambda: f"{label}: for {o} there are {sorted(got.get(o, {}))[:4]}, alone "
                              f"{sorted(alone)[:4]}")
            if o != "log":
                diff = [f for f in alone if got[o][f] != alone[f]]
                ctx.check(not diff, "output-depends-on-options",
                          lambda: f"{label}: {diff[:3]} differ from those requested alone")
        ctx.add(outputs_compared=len(got.get(o, {})))


def expected(ctx, label, v, options, files):
    """Which outputs a single request must give for the events there are."""
    events = sorted(f[7:-6] for f in files if f.startswith("events/"))
    for o in options:
        names = [f for f in files if place(f) == o]
        if o == "log":
            ctx.check(bool(names), "output-missing", lambda: f"{label}: no log file")
            continue
        want = events
        if o == "amps":
            # only for events with a magnitude
            want = [u for u in events if v.get("mags", True) and magnitude(files, u)]
        elif o in ("real", "wa") and set(v.get("response", ())) >= {"AA1", "C"}:
            want = []
        elif o == "picks":
            pairs = {(u, s) for u in events for s in picked(files, u)}
            ctx.check({(f.split("/")[1], f.split("_")[-1][:-4]) for f in names} == pairs, "pick-plots",
                      lambda: f"{label}: {sorted(names)}, picked at {sorted(pairs)}")
            continue
        elif o == "coa":
            # written before an event is discarded for being outside its marginal window
            ctx.check(all(f"coalescence_maps/{u}.npy" in names for u in events) and len(names) <= len(SOURCES),
                      "output-missing", lambda: f"{label}: for coa there are {sorted(names)}, events {events}")
            continue
        ctx.check(len(names) == len(want) and all(any(u in f for f in names) for u in want),
                  "output-missing", lambda: f"{label}: for {o} there are {sorted(names)}, events {want}")
    if "coa" in options or "marg" in options:
        maps(ctx, label, v, options, files, events)


def table_of(b):
    import csv
    import io

    return list(csv.DictReader(io.StringIO(b.decode())))


def magnitude(files, uid):
    ml = table_of(files[f"events/{uid}.event"])[0].get("ML", "")
    return ml not in ("", "nan")


def picked(files, uid):
    return {r["Station"] for r in table_of(files[f"picks/{uid}.picks"])}


MW = 0.4


def maps(ctx, label, v, options, files, events):
    import io

    def load(f):
        return np.load(io.BytesIO(files[f]))

    times = {t["EventID"]: UTCDateTime(t["CoaTime"]) for t in
             locatelib.trigger_rows([SOURCES[0] + 0.1, SOURCES[1] - 0.1])}
    shape = v.get("shape", (6, 7, 5))
    for u in events:
        row = table_of(files[f"events/{u}.event"])[0]
        if "coa" not in options:
            continue
        m4 = load(f"coalescence_maps/{u}.npy")
        n = round(4 * MW * SR) + 1
        ctx.check(m4.shape == shape + (n,), "map-shape", lambda: f"{label}: {m4.shape} for {shape + (n,)}")
        series = m4.reshape(-1, n).max(axis=0)
        k = int(series.argmax())
        t = times[u] - 2 * MW + k / SR
        ctx.check(abs(UTCDateTime(row["DT"]) - t) < 1e-3, "map-time",
                  lambda: f"{label}: the maximum of the map is at {t}, the event at {row['DT']}")
        ctx.check(abs(float(row["COA"]) - series[k]) <= 1.5e-3 * series[k], "map-value",
                  lambda: f"{label}: the maximum of the map is {series[k]}, the event's {row['COA']}")
        ctx.add(maps_compared=1)
        if "marg" not in options:
            continue
        m3 = load(f"marginalised_coalescence_maps/{u}.npy")
        w = round(MW * SR)
        lo = max(k - w, 0)
        ok = False
        for hi in (k + w, k + w + 1, k + w - 1):
            s = m4[..., lo:min(hi, n)].sum(axis=-1)
            ok = ok or (m3.shape == s.shape and np.allclose(m3, s / s.max(), rtol=1e-9, atol=0))
        ctx.check(ok, "marginal-map", lambda: f"{label}: not the sum of the map over the marginal window")


def run(case, ctx):
    v = VARIANTS[case["variant"]]
    archive = ctx.tmp()
    build(archive, v)
    base, err = attempt(ctx, archive, v, ())
    ctx.check(err is None, "run-fails", lambda: f"{case['variant']}: {err}")
    label = case["variant"]
    ctx.count((label, ()), nontrivial=False)
    ctx.check(len([f for f in base if f.startswith("events/")]) == v.get("events", 2)
              or v.get("noise"), "events-missing", lambda: f"{label}: {sorted(base)}")
    single = {}
    for o in sorted({o for opts in case["sets"] for o in opts}):
        if o in ("event", "picks", "amps") and len(case["sets"]) < 3:
            continue        # a plot's file: one set only
        files, err = attempt(ctx, archive, v, (o,))
        ctx.count((label, (o,)))
        ctx.check(err is None, "option-fails", lambda: f"{label}, {o}: {err}")
        compare(ctx, f"{label} with {o}", v, (o,), files, base, {})
        expected(ctx, f"{label} with {o}", v, (o,), files)
        single[o] = files
    for opts in case["sets"]:
        if len(opts) == 1 and opts[0] in single:
            continue
        stub = not case.get("figures")
        files, err = attempt(ctx, archive, v, tuple(opts), stub=stub)
        ctx.count((label, tuple(opts)), nontrivial=bool(opts))
        what = f"{label} with {'+'.join(opts)}"
        ctx.check(err is None, "option-fails", lambda: f"{what}: {err}")
        compare(ctx, what, v, opts, files, base, single)
        expected(ctx, what, v, opts, files)
    ctx.sample(**{k: v for k, v in case.items() if k != "sets"}, sets=len(case["sets"]))


TRIG_START = UTCDateTime("2015-12-31T23:58:30")
TRIG_SR = 5
TRIG_PEAKS = ((30, 9.0, 0.2), (75, 7.0, 0.8), (120, 8.0, 0.5), (150, 6.0, 0.25))


def trig_scan(root, v):
    """A scan of two days with peaks at several places, and its availability files."""
    n = 180 * TRIG_SR
    k = np.arange(n)
    coa = 2 + 0.3 * np.sin(0.7 * k)
    coan = 1.2 + 0.1 * np.sin(0.3 * k)
    lut = table((6, 7, 5), "lcc_km")
    ll, ur = lut.grid_extent
    xyz = np.tile((np.asarray(ll) + np.asarray(ur)) / 2, (n, 1))
    for t, a, f in () if v.get("quiet") else TRIG_PEAKS:
        i = round(t * TRIG_SR)
        coa += (a - 2) * np.exp(-((k - i) / 3) ** 2)
        coan += (a / 3 - 1) * np.exp(-((k - i) / 3) ** 2)
        m = abs(k - i) < 20
        xyz[m] = np.asarray(ll) + f * (np.asarray(ur) - np.asarray(ll))
    triglib.write_scan(root, TRIG_START, TRIG_SR, coa, coan, xyz)
    kind = v.get("availability", "none")
    if kind == "none":
        return
    d = root / "detect" / "availability"
    d.mkdir(parents=True)
    frac = 0.25 if kind == "fraction" else 0.0
    cols = {"both": ["AA1_P", "B2_P", "C_P", "AA1_S", "B2_S", "C_S"], "old": ["AA1", "B2", "C"],
            "p": ["AA1_P", "B2_P", "C_P"], "s": ["AA1_S", "B2_S", "C_S"],
            "three": ["AA1_P", "AA1_S", "AA1_R"]}.get(kind, ["AA1_P", "B2_P", "C_P", "AA1_S", "B2_S", "C_S"])
    days = {}
    for step in range(0, 180, 30):
        t = TRIG_START + step + frac
        stamp = t.datetime.strftime("%Y-%m-%d %H:%M:%S" + (".%f" if frac else ""))
        if kind == "gone":
            row = [0] * len(cols)
        elif kind in ("differs", "fraction"):
            row = [int((step // 30 + i) % 3 > 0) for i in range(len(cols))]
        else:
            row = [int((step // 30 + "ABC".index(c[0])) % 3 > 0) for c in cols]
        days.setdefault((t.year, t.julday), []).append((stamp, row))
    for (y, j), rows in days.items():
        if kind == "one-day" and y == 2016:
            continue
        with open(d / f"{y}_{j:03d}_StationAvailability.csv", "w") as f:
            f.write("," + ",".join(cols) + "\n")
            for stamp, row in rows:
                f.write(stamp + "," + ",".join(str(x) for x in row) + "\n")


def region(name):
    lut = table((6, 7, 5), "lcc_km")
    ll, ur = (np.asarray(x, float) for x in lut.grid_extent)

    def at(lo, hi):
        return [*(ll + lo * (ur - ll)), *(ll + hi * (ur - ll))]

    return {"none": None, "all": at(-1, 2), "part": at(0.4, 0.9), "empty": at(1.5, 2)}[name]


def trigger_run(d, v, options):
    from quakemigrate.signal import Trigger

    kw = {k: v[k] for k in ("threshold_method", "static_threshold", "normalise_coalescence", "smooth_coa",
                            "write_event_time_windows", "plot_all_stns", "mad_multiplier", "mad_window_length",
                            "median_multiplier", "median_window_length") if k in v}
    trig_scan(d / "run", v)
    if v.get("xy"):
        (d / "line.csv").write_text("# a line\n1.0,2.0\n1.1,2.1\n")
        (d / "xy.csv").write_text(f"# files\n{d / 'line.csv'},black,0.5,-\n")
        kw["xy_files"] = str(d / "xy.csv")
    t = Trigger(table((6, 7, 5), "lcc_km"), str(d), "run", trigger_name=v.get("subname", ""), pad=10.0,
                marginal_window=0.6, min_event_interval=1.2, plot_trigger_summary="plot" in options,
                log="log" in options, **kw)
    a, b = v.get("span", (10, 170))
    t.trigger(TRIG_START + a, TRIG_START + b, region=region(v.get("region", "none")))
    root = d / "run" / "trigger"
    sub = root / v.get("subname", "")
    return {str(f.relative_to(sub)): f.read_bytes() for f in sorted(root.rglob("*")) if f.is_file()}


AVAILABILITY = ("none", "both", "differs", "old", "p", "s", "gone", "one-day", "fraction", "three")
EDGES = dict(threshold=[dict(threshold_method="static", static_threshold=3.0),
                        dict(threshold_method="mad", mad_multiplier=8.0, mad_window_length=60.0),
                        dict(threshold_method="median_ratio", median_multiplier=1.5, median_window_length=60.0),
                        dict(threshold_method="static", static_threshold=1.7, normalise_coalescence=True)],
             span=[(10, 170), (10, 60), (10, 90), (90, 170), (100, 101)])


def trigger_cases(tier):
    rest = [dict(), dict(smooth_coa=True), dict(write_event_time_windows=True), dict(plot_all_stns=False),
            dict(xy=True), dict(subname="sub"), dict(quiet=True), dict(static_threshold=100.0)]
    for av in AVAILABILITY:
        for reg in ("none", "all", "part", "empty"):
            for r in rest:
                yield dict({"static_threshold": 3.0, "availability": av, "region": reg}, **r)
    for thr in EDGES["threshold"]:
        for span in EDGES["span"]:
            for quiet in (False, True):
                for reg in ("none", "part"):
                    yield dict(thr, span=span, quiet=quiet, region=reg, availability="differs")


def trigger_parts(tier):
    cases = list(trigger_cases(tier))
    if tier == "quick":
        # every availability with each region, every setting with each region, every span and threshold
        cases = [c for i, c in enumerate(cases) if "span" in c or i % 5 == 0 or c["availability"] == "both"]
    sets = [(), ("plot",), ("plot", "log")] + ([("log",)] if tier != "quick" else [])
    for part in chunks(cases, 16):
        yield dict(cases=part, options=sets)


def run_trigger(case, ctx):
    import shutil

    import matplotlib.pyplot as plt

    for v in case["cases"]:
        label = ", ".join(f"{k} {x}" for k, x in v.items())
        base = None
        for options in case["options"]:
            d = ctx.tmp()
            try:
                with Stub(not case.get("figures")):
                    files, err = trigger_run(d, v, options), None
            except Exception as e:
                import traceback

                files, err = None, f"{e!r} at {traceback.extract_tb(e.__traceback__)[-1][:3]}"
            finally:
                plt.close("all")
                shutil.rmtree(d)
            ctx.count((label, options), nontrivial=bool(options))
            what = f"trigger with {'+'.join(options) or 'no option'}: {label}"
            ctx.check(err is None, "option-fails" if options else "run-fails", lambda: f"{what}: {err}")
            got = {k: {f: b for f, b in files.items() if f.startswith(k)} for k in ("events/", "summaries/", "logs/")}
            if base is None:
                base = got["events/"]
            ctx.check(got["events/"] == base, "results-change",
                      lambda: f"{what}: {sorted(got['events/'])} are not those of the run without options")
            ctx.check(sum(map(len, got.values())) == len(files), "unknown-output", lambda: f"{what}: {sorted(files)}")
            a, b = v.get("span", (10, 170))
            days, t = [], TRIG_START + a
            stem = "run_" + v["subname"] if v.get("subname") else "run"
            while t < TRIG_START + b:
                days.append(f"summaries/{stem}_{t.year}_{t.julday:03d}_Trigger.pdf")
                t = UTCDateTime(t.date) + 86400
            ctx.check(sorted(got["summaries/"]) == (days if "plot" in options else []), "summary-plots",
                      lambda: f"{what}: {sorted(got['summaries/'])}, for {days if 'plot' in options else []}")
            ctx.check(bool(got["logs/"]) == ("log" in options), "log-files", lambda: f"{what}: {sorted(got['logs/'])}")
            ctx.add(trigger_files=len(files))
    ctx.sample(cases=len(case["cases"]))


def figure_cases(tier):
    yield dict(cases=[dict(static_threshold=3.0, availability="differs", region="part"),
                      dict(static_threshold=3.0, availability="none", xy=True),
                      dict(static_threshold=100.0, availability="both", region="all")], figures=True,
               options=[(), ("plot",), ("log",), ("plot", "log")])


OTHERS = ("cut", "real", "wa", "coa", "marg", "log")
PLOTS = ("event", "picks", "amps")


def subsets(xs):
    return [list(c) for r in range(len(xs) + 1) for c in itertools.combinations(xs, r)]


def chunks(xs, n):
    return [xs[i::n] for i in range(n)]


def output_cases(tier):
    for v in ("full", "cuts", "no-mags", "no-mags-cuts"):
        for part in chunks(subsets(OTHERS), 2):
            yield dict(variant=v, sets=part)
    if tier != "quick":
        for part in chunks(subsets(OPTIONS), 32):
            yield dict(variant="full", sets=part)
        for v in ("cuts", "no-mags", "no-mags-cuts", "station-out"):
            for part in chunks([s for s in subsets(OPTIONS) if len(s) <= 2 or len(s) >= 8], 4):
                yield dict(variant=v, sets=part)


def plot_cases(tier):
    for v in ("full",) if tier == "quick" else ("full", "cuts", "no-mags", "station-out", "no-picks"):
        for part in chunks([p + list(r) for p in subsets(PLOTS) if p for r in ((), OTHERS)], 7):
            yield dict(variant=v, sets=part)


def all_cases(tier):
    for v in VARIANTS:
        yield dict(variant=v, sets=[list(OPTIONS)], figures=True)


def groups():
    return [Group("everything", all_cases, run, timeout=300), Group("plots", plot_cases, run, timeout=300),
            Group("outputs", output_cases, run, timeout=300),
            Group("trigger", trigger_parts, run_trigger, timeout=300),
            Group("trigger-figures", figure_cases, run_trigger, timeout=300)]

