"""Figures show the data they summarise."""

import csv
import io
import math
import re
import shutil

import numpy as np
from obspy import UTCDateTime

from qmmc import triglib
from qmmc.checks import c32
from qmmc.core import Group

LEVEL = "exploration"
RULE = ("one evaluation = one figure drawn by a real run of trigger or locate; its artists (lines, marks, "
        "bands, boxes, images, texts) are read back when the figure is saved and compared with the result "
        "files, the scan, the availability and the tables: every quantity the figure summarises must be "
        "there, at its time or place, on axes that also show what it belongs with. All arrangements of the "
        "optional-outputs property for locate; for trigger all combinations of availability, region and "
        "setting, and every threshold with every span. Non-trivial: at least one event is on the figure.")
ASSUMPTIONS = ["colours, sizes, labels of axes and the layout are outside the property",
               "figures are read back as they are saved; the drawing of artists is matplotlib's",
               "channel maps that list components as in the documentation (letters or digits with commas)"]

DAY = 86400.0
EPS = 3e-6          # s: the time axis holds days as doubles


def num(t):
    return UTCDateTime(t).ns / 1e9


# -- reading a figure back -------------------------------------------------------------------------


def floats(x):
    import matplotlib.dates as md

    x = np.asarray(x)
    if x.dtype == object or x.dtype.kind == "M":
        x = md.date2num(x)
    return np.asarray(x, float)


class Axes:
    def __init__(self, ax):
        self.box = ax.get_position().bounds
        self.title = ax.get_title()
        self.xlim, self.ylim = sorted(ax.get_xlim()), sorted(ax.get_ylim())
        self.ticks = dict(zip([t.get_text() for t in ax.get_yticklabels()], ax.get_yticks()))
        self.lines, self.vlines, self.hlines, self.marks, self.bands = [], [], [], [], []
        self.ellipses, self.meshes, self.bars = [], [], []
        for ln in ax.lines:
            x, y = floats(ln.get_xdata(orig=False)), floats(ln.get_ydata(orig=False))
            tr = ln.get_transform()
            if len(x) == 2 and tr == ax.get_xaxis_transform(which="grid") and x[0] == x[1]:
                self.vlines.append(x[0])
            elif len(x) == 2 and tr == ax.get_yaxis_transform(which="grid") and y[0] == y[1]:
                self.hlines.append(y[0])
            else:
                self.lines.append((x, y, ln.get_drawstyle(), ln.get_label()))
        for c in ax.collections:
            kind = type(c).__name__
            if kind == "QuadMesh":
                xy = np.asarray(c.get_coordinates())
                mid = (xy[1:, 1:] + xy[1:, :-1] + xy[:-1, 1:] + xy[:-1, :-1]) / 4
                self.meshes.append((mid.reshape(-1, 2), np.ma.filled(np.ma.ravel(c.get_array()), np.nan),
                                    xy.reshape(-1, 2)))
            elif kind == "LineCollection":
                self.bars.extend(np.asarray(s, float) for s in c.get_segments())
            else:
                off = np.ma.filled(np.ma.asarray(c.get_offsets(), float), np.nan)
                self.marks.append((off, None if c.get_array() is None else np.asarray(c.get_array(), float)))
        for p in ax.patches:
            if type(p).__name__ == "Ellipse":
                self.ellipses.append((p.center[0], p.center[1], p.width, p.height))
            else:
                xs = p.get_path().transformed(p.get_patch_transform()).vertices[:, 0]
                self.bands.append((xs.min(), xs.max()))
        self.notes = [(t.get_text(), t.xy if hasattr(t, "xy") else t.get_position()) for t in ax.texts]
        self.texts = [t for t, _ in self.notes]


class Recorder:
    """Stands in for the writing of figure files: keeps what is on the figure."""

    def __init__(self):
        self.figures = {}

    def __enter__(self):
        import matplotlib.figure as mf

        self.mf, self.real = mf, mf.Figure.savefig

        def save(fig, fname, *args, **kw):
            self.figures[str(fname)] = [Axes(a) for a in fig.axes]
            with open(fname, "w") as out:
                out.write("figure")

        mf.Figure.savefig = save
        return self

    def __exit__(self, *exc):
        self.mf.Figure.savefig = self.real


def same(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all((abs(a - b) <= tol) | (np.isnan(a) & np.isnan(b))))


def series_in(axes, t, y, tol, drawstyle=None):
    """Axes with a line through all the samples (t in s, y)."""
    out = []
    for ax in axes:
        for x, v, _, _ in ax.lines:
            s = x * DAY
            if len(s) < len(t) or not len(t):
                continue
            m = (s > t[0] - EPS * 10) & (s < t[-1] + EPS * 10)
            if same(s[m], t, EPS) and same(v[m], y, tol):
                out.append(ax)
                break
    return out


def points(rows, tol=1e-9):
    return sorted(tuple(float(x) for x in r) for r in rows)


def has_marks(axes, pts, tol, values=None):
    """Axes with one set of marks that is exactly these points."""
    pts = np.asarray(pts, float).reshape(-1, 2)
    out = []
    for ax in axes:
        for off, arr in ax.marks:
            if off.shape != pts.shape:
                continue
            i, j = np.lexsort(off.T[::-1].round(7)), np.lexsort(pts.T[::-1].round(7))
            if same(off[i], pts[j], tol) and (values is None or arr is not None and
                                              same(np.sort(arr), np.sort(values), 1e-3)):
                out.append(ax)
                break
    return out


def union(bands):
    out = []
    for a, b in sorted(bands):
        if out and a <= out[-1][1] + EPS:
            out[-1][1] = max(out[-1][1], b)
        else:
            out.append([a, b])
    return out


def table_of(b):
    return list(csv.DictReader(io.StringIO(b.decode())))


STATION_XYZ = None


def stations_of(lut, names=None):
    d = lut.station_data
    return {r.Name: (float(r.Longitude), float(r.Latitude), float(r.Elevation)) for r in d.itertuples()
            if names is None or r.Name in names}


PANELS = ((0, 1), (0, 2), (2, 1))


# -- trigger ---------------------------------------------------------------------------------------


def availability_steps(v, start, end, run):
    """{phase or "*": [(time, stations)]} from the files, or None."""
    d = run / "detect" / "availability"
    rows = []
    for f in sorted(d.iterdir()) if d.exists() else []:
        day = UTCDateTime(year=int(f.name[:4]), julday=int(f.name[5:8]))
        if day + 86400 <= start or day > end:
            continue
        with open(f) as fh:
            for r in csv.DictReader(fh):
                t = UTCDateTime(r.pop(""))
                cols = {(k if "_" in k else f"{k}_{p}"): int(x) for k, x in r.items()
                        for p in ("P", "S")}
                rows.append((t, cols))
    if not rows:
        return None, None
    phases = sorted({k.rsplit("_", 1)[1] for k in rows[0][1]})
    count = {p: [(num(t), sum(x for k, x in c.items() if k.endswith("_" + p))) for t, c in rows] for p in phases}
    seen = sorted({k.rsplit("_", 1)[0] for _, c in rows for k, x in c.items() if x == 1 or v.get("plot_all_stns", True)})
    return count, seen


def scan_data(v):
    """The written scan: times (s), COA, COA_N"""
    n = 180 * c32.TRIG_SR
    k = np.arange(n)
    coa = 2 + 0.3 * np.sin(0.7 * k)
    coan = 1.2 + 0.1 * np.sin(0.3 * k)
    for t, a, _ in () if v.get("quiet") else c32.TRIG_PEAKS:
        i = round(t * c32.TRIG_SR)
        coa += (a - 2) * np.exp(-((k - i) / 3) ** 2)
        coan += (a / 3 - 1) * np.exp(-((k - i) / 3) ** 2)
    return num(c32.TRIG_START) + k / c32.TRIG_SR, np.round(coa * 1e5) / 1e5, np.round(coan * 1e5) / 1e5


def smooth(x, v):
    if not v.get("smooth_coa"):
        return x
    from scipy.ndimage import gaussian_filter1d

    return gaussian_filter1d(x, 0.2 * c32.TRIG_SR, truncate=4.0)


def trigger_once(d, v, region):
    """(files, figures)"""
    v = dict(v, write_event_time_windows=True, region=region)
    with Recorder() as rec:
        files = c32.trigger_run(d, v, ("plot",))
    return files, rec.figures


def events_of(files):
    return [r for f, b in sorted(files.items()) if f.startswith("events/") for r in table_of(b)]


def attempt(ctx, fn):
    import matplotlib.pyplot as plt

    d = ctx.tmp()
    try:
        return fn(d), None
    except Exception as e:
        import traceback

        return None, f"{e!r} at {traceback.extract_tb(e.__traceback__)[-1][:3]}"
    finally:
        plt.close("all")
        shutil.rmtree(d)


def run_trigger(case, ctx):
    for v in case["cases"]:
        label = ", ".join(f"{k} {x}" for k, x in v.items())

        def both(d):
            (d / "a").mkdir()
            files, figures = trigger_once(d / "a", v, v.get("region", "none"))
            everything = events_of(files)
            if v.get("region", "none") != "none":
                (d / "b").mkdir()
                everything = events_of(trigger_once(d / "b", v, "none")[0])
            a, b = (c32.TRIG_START + x for x in v.get("span", (10, 170)))
            days, t = [], a
            while t < b:
                e = min(b, UTCDateTime(t.date) + 86400)
                last = e - 1 / c32.TRIG_SR if (e.hour, e.minute, e.second, e.microsecond) == (0, 0, 0, 0) else e
                days.append((t, last, *availability_steps(v, t, last, d / "a" / "run")))
                t = e
            return files, figures, everything, days

        got, err = attempt(ctx, both)
        ctx.check(err is None, "figure-fails", lambda: f"{label}: {err}")
        files, figures, everything, days = got
        kept = events_of(files)
        for start, end, steps, seen in days:
            name = [f for f in figures if f"_{start.year}_{start.julday:03d}_" in f]
            ctx.check(len(name) == 1, "no-figure", lambda: f"{label}: {sorted(figures)} for {start.date}")
            check_trigger(ctx, f"trigger, {start.date}: {label}", v, figures[name[0]], start, end, steps, seen,
                          [e for e in kept if start <= UTCDateTime(e["CoaTime"]) <= end],
                          [e for e in everything if start <= UTCDateTime(e["CoaTime"]) <= end])
    ctx.sample(cases=len(case["cases"]))


def check_trigger(ctx, label, v, fig, start, end, steps, seen, kept, everything):
    lut = c32.table((6, 7, 5), "lcc_km")
    a, b = num(start), num(end)
    t, coa, coan = scan_data(v)
    lo, hi = (c32.TRIG_START + x for x in v.get("span", (10, 170)))
    # the data of the batch: the day's part of the span with the pad
    ctx.count((label,), nontrivial=bool(kept))
    i0 = max(0, math.ceil((a - 10.0 - t[0]) * c32.TRIG_SR - 1e-6))
    bend = b if abs((b + 1 / c32.TRIG_SR) % DAY) > 1e-6 else b + 1 / c32.TRIG_SR
    i1 = min(len(t), math.floor((bend + 10.0 - t[0]) * c32.TRIG_SR + 1e-6) + 1)
    t, coa, coan = t[i0:i1], smooth(coa[i0:i1], v), smooth(coan[i0:i1], v)
    m = (t >= a - EPS) & (t <= b + EPS)
    tr = [series_in(fig, t[m], y[m], 2e-5) for y in (coa, coan)]
    ctx.check(tr[0] and tr[1] and tr[0][0] is not tr[1][0], "trace-missing",
              lambda: f"{label}: the {'coalescence' if not tr[0] else 'normalised coalescence'} trace is not shown")
    tr = [x[0] for x in tr]
    for ax in tr:
        ctx.check(same(np.array(ax.xlim) * DAY, [a, b], 0.25), "time-axis",
                  lambda: f"{label}: axis from {UTCDateTime(ax.xlim[0] * DAY)} to {UTCDateTime(ax.xlim[1] * DAY)}")
    # threshold
    use = 1 if v.get("normalise_coalescence") else 0
    y = (coa, coan)[use]
    method = v.get("threshold_method", "static")
    if method == "static":
        thr = np.full(len(y), v["static_threshold"])
    elif method == "mad":
        thr = triglib.mad_threshold(y, round(v["mad_window_length"] * c32.TRIG_SR), v["mad_multiplier"])
    else:
        thr = triglib.median_threshold(y, round(v["median_window_length"] * c32.TRIG_SR), v["median_multiplier"])
    hl = [h for h in tr[use].hlines]
    ok = series_in([tr[use]], t[m], thr[m], 5e-5) or (method == "static" and any(abs(h - thr[0]) < 1e-9 for h in hl))
    ctx.check(ok, "threshold", lambda: f"{label}: the threshold is not on the trace triggered on")
    # events and windows
    region = c32.region(v.get("region", "none"))
    key = lambda e: num(e["CoaTime"])  # noqa: E731
    shown = sorted(map(key, everything if region is not None else kept))
    for ax in tr:
        lines = sorted(x * DAY for x in ax.vlines if a - EPS <= x * DAY <= b + EPS)
        ctx.check(same(lines, shown, EPS), "event-lines",
                  lambda: f"{label}: lines at {[str(UTCDateTime(x)) for x in lines]}, events at "
                          f"{[str(UTCDateTime(x)) for x in shown]}")
        bands = [(p * DAY, q * DAY) for p, q in ax.bands]
        for e in kept:
            c = key(e)
            ctx.check(any(abs(p - c + 0.6) < EPS and abs(q - c - 0.6) < EPS for p, q in bands), "marginal-band",
                      lambda: f"{label}: no band for the marginal window of {e['EventID']}")
        for e in (everything if region is not None else kept):
            p, q = num(e["MinTime"]), num(e["MaxTime"])
            ctx.check(any(x <= p + EPS and q <= z + EPS for x, z in union(bands)), "event-band",
                      lambda: f"{label}: no band from {e['MinTime']} to {e['MaxTime']}")
    if not everything and region is None:
        ctx.check(not [q for ax in tr for q in ax.bands], "event-band", lambda: f"{label}: a band without events")
    xyz = {e["EventID"]: [float(e[f"COA_{c}"]) for c in "XYZ"] for e in everything}
    coas = [float(e["TRIG_COA"]) for e in kept]
    out = [e for e in everything if e["EventID"] not in {k["EventID"] for k in kept}]
    panels = []
    names = None if steps is None else seen
    sta = stations_of(lut, names)
    for i, j in PANELS:
        pts = [(s[i], s[j]) for s in sta.values()]
        cand = has_marks(fig, pts, 1e-9) if pts else [x for x in fig if any(len(o) == 0 for o, _ in x.marks)]
        ctx.check(cand, "stations", lambda: f"{label}: no panel shows the stations at {pts}")
        if kept:
            cand = has_marks(cand, [(xyz[e["EventID"]][i], xyz[e["EventID"]][j]) for e in kept], 1e-5, coas)
            ctx.check(cand, "event-marks", lambda: f"{label}: the events are not marked in {'XYZ'[i]}, {'XYZ'[j]}")
        if region is not None and out:
            cand = [ax for ax in cand if all(
                any(np.any((abs(o[:, 0] - xyz[e["EventID"]][i]) < 1e-5) & (abs(o[:, 1] - xyz[e["EventID"]][j]) < 1e-5))
                    for o, arr in ax.marks) for e in out)]
            ctx.check(cand, "discarded-marks",
                      lambda: f"{label}: the events outside the region are not marked in {'XYZ'[i]}, {'XYZ'[j]}")
        if region is not None:
            box = [region[i], region[i + 3], region[j], region[j + 3]]
            cand = [ax for ax in cand if any(
                len(x) >= 4 and same([x.min(), x.max(), y.min(), y.max()], box, 1e-9) for x, y, _, _ in ax.lines)]
            ctx.check(cand, "region-box", lambda: f"{label}: the region is not drawn in {'XYZ'[i]}, {'XYZ'[j]}")
        panels.append(cand[0])
        ext = np.asarray(lut.get_grid_extent(cells=True), float)
        ctx.check(same([*cand[0].xlim, *cand[0].ylim], [*sorted(ext[:, i]), *sorted(ext[:, j])], 1e-6),
                  "panel-extent", lambda: f"{label}: {'XYZ'[i]}, {'XYZ'[j]}: {cand[0].xlim}, {cand[0].ylim}, "
                                          f"for the grid {ext[:, i]}, {ext[:, j]}")
    ctx.check(len({id(p) for p in panels}) == 3, "panels", lambda: f"{label}: panels are shared")
    ctx.check({x for x in panels[0].texts if x in stations_of(lut)} == set(sta), "station-names",
              lambda: f"{label}: {panels[0].texts}")
    if v.get("xy"):
        ctx.check(any(same(x, [1.0, 1.1], 1e-12) and same(y, [2.0, 2.1], 1e-12) for x, y, _, _ in panels[0].lines),
                  "xy-files", lambda: f"{label}: the line of the xy file is not on the map")
    # availability
    if steps is not None:
        at = [s for s, _ in next(iter(steps.values()))]
        at = sorted(x + 0.01 for x in at if x + 0.01 <= b)

        def value(x, y, s):
            k = np.searchsorted(x * DAY, s, side="right") - 1
            return y[k] if k >= 0 else None

        for p, st in steps.items():
            want = [[n for q, n in st if q <= s + EPS][-1] for s in at]
            ok = any(style == "steps-post" and [value(x, y, s) for s in at] == want and
                     same([x[-1] * DAY], [b], EPS)
                     for ax in fig if ax not in tr for x, y, style, _ in ax.lines)
            ctx.check(ok, "availability", lambda: f"{label}: no steps for {p}: {want} at {at}")
    texts = " | ".join(x for ax in fig for x in ax.texts)
    found = re.search(r"Triggered (\d+) event", texts)
    ctx.check(found and int(found[1]) == len(kept), "event-count", lambda: f"{label}: {texts!r} for {len(kept)} events")
    for want in (start.strftime("%Y-%m-%d %H:%M:%S"), end.strftime("%Y-%m-%d %H:%M:%S"), "0.6 s", "1.2 s"):
        ctx.check(want in texts, "summary-text", lambda: f"{label}: {want!r} is not in {texts!r}")
    if method == "static":
        ctx.check(re.search(rf"\b{v['static_threshold']}\b", texts), "summary-text",
                  lambda: f"{label}: the threshold {v['static_threshold']} is not in {texts!r}")
    ctx.add(trigger_figures=1)


def trigger_parts(tier):
    cases = [c for c in c32.trigger_cases(tier) if not c.get("write_event_time_windows")]
    if tier == "quick":
        cases = [c for i, c in enumerate(cases) if "span" in c or i % 4 == 0]
    for part in c32.chunks(cases, 16):
        if part:
            yield dict(cases=part)


# -- locate ----------------------------------------------------------------------------------------


def components(v):
    """Last letters of the channels drawn with each phase, in panels."""
    maps = v.get("maps", {"P": "*Z", "S": "*[N,E,1,2]"})
    return {p: m.strip("*[]").split(",") for p, m in maps.items()}


def run_locate(case, ctx):
    import copy

    from quakemigrate.signal.local_mag import LocalMag
    from quakemigrate.signal.local_mag.magnitude import Magnitude
    from quakemigrate.signal.pickers import GaussianPicker

    v = c32.VARIANTS.get(case["variant"]) or VARIANTS.get(case["variant"], {})
    label = f"locate, {case['variant']}"
    archive = ctx.tmp()
    c32.build(archive, v)
    kept = {}
    real = GaussianPicker.pick_phases

    def keep(self, event, *args, **kw):
        out = real(self, event, *args, **kw)
        ev = out[0] if isinstance(out, tuple) else event
        od = ev.onset_data
        kept[str(ev.uid)] = dict(
            event=ev, picks=copy.deepcopy(ev.picks), onsets=copy.deepcopy(od.onsets), start=od.starttime,
            sr=od.sampling_rate, waveforms=copy.deepcopy(od.filtered_waveforms),
            availability=copy.deepcopy(od.availability), coa=ev.coa_data.copy(), otime=ev.otime,
            hypocentre=np.array(ev.hypocentre), phases=list(od.phases))
        return out

    current, magnitudes = [None], {}
    real_calc, real_mean = LocalMag.calc_magnitude, Magnitude.mean_magnitude

    def calc(self, event, *args, **kw):
        current[0] = str(event.uid)
        return real_calc(self, event, *args, **kw)

    def mean(self, *args, **kw):
        out = real_mean(self, *args, **kw)
        magnitudes[current[0]] = out[3].copy()
        return out

    GaussianPicker.pick_phases = keep
    LocalMag.calc_magnitude, Magnitude.mean_magnitude = calc, mean
    try:
        with Recorder() as rec:
            files, err = attempt(ctx, lambda d: c32.locate(d, archive, v, ("marg", "event", "picks", "amps")))
    finally:
        GaussianPicker.pick_phases = real
        LocalMag.calc_magnitude, Magnitude.mean_magnitude = real_calc, real_mean
    ctx.check(err is None, "figure-fails", lambda: f"{label}: {err}")
    lut = c32.table(v.get("shape", (6, 7, 5)), v.get("kind", "lcc_km"))
    events = sorted(f[7:-6] for f in files if f.startswith("events/"))
    ctx.check(events or v.get("noise"), "no-events", lambda: f"{label}: no event")
    for u in events:
        row = table_of(files[f"events/{u}.event"])[0]
        picks = table_of(files[f"picks/{u}.picks"])
        marg = np.load(io.BytesIO(files[f"marginalised_coalescence_maps/{u}.npy"]))
        k = kept[u]
        of = {f: axes for f, axes in rec.figures.items() if u in f}
        summary = [axes for f, axes in of.items() if "EventSummary" in f]
        ctx.check(len(summary) == 1, "no-figure", lambda: f"{label}: {sorted(of)}")
        ctx.count((label, u, "summary"))
        check_summary(ctx, f"{label}, {u}", v, lut, summary[0], row, picks, marg, k)
        for s in k["onsets"]:
            pf = [axes for f, axes in of.items() if "pick_plots" in f and f.endswith(f"_{s}.pdf")]
            ctx.check(len(pf) == 1, "no-figure", lambda: f"{label}: {sorted(of)} for {s}")
            ctx.count((label, u, s))
            check_picks(ctx, f"{label}, {u}, {s}", v, lut, pf[0], u, s, row, [p for p in picks if p["Station"] == s], k)
        amps = [axes for f, axes in of.items() if "amplitude_plots" in f]
        if c32.magnitude(files, u) and amps:
            ctx.count((label, u, "amplitudes"))
            check_amplitudes(ctx, f"{label}, {u}", v, lut, amps[0], u, row, table_of(files[f"amplitudes/{u}.amps"]),
                             magnitudes[u]["Used"].to_dict())
        ctx.add(event_figures=len(of))
    shutil.rmtree(archive)
    ctx.sample(variant=case["variant"], events=len(events))


def unit(lut):
    return 1000.0 / lut.unit_conversion_factor


def check_summary(ctx, label, v, lut, fig, row, picks, marg, k):
    otime = num(row["DT"])
    # the coalescence trace
    t = np.array([num(x) for x in k["coa"]["DT"]])
    y = np.asarray(k["coa"]["COA"], float)
    tr = series_in(fig, t, y, 1e-9)
    ctx.check(tr, "trace-missing", lambda: f"{label}: the coalescence trace is not shown")
    ctx.check(any(abs(x * DAY - otime) < 2e-6 for x in tr[0].vlines), "origin-time",
              lambda: f"{label}: no line at {row['DT']} on the coalescence trace: {tr[0].vlines}")
    # the maps
    best = np.unravel_index(int(np.nanargmax(marg)), marg.shape)
    ext = np.asarray(lut.get_grid_extent(cells=True), float)
    hyp = k["hypocentre"]
    ctx.check(same(hyp / [1, 1, unit(lut)], [float(row["X"]), float(row["Y"]), float(row["Z"]) / unit(lut)], 1e-3),
              "hypocentre", lambda: f"{label}: {hyp}, {row}")
    if v.get("plot_all", True):
        names = None
    else:
        names = {s.rsplit("_", 1)[0] for s, ok in k["availability"].items() if ok == 1}
    if names is None:
        names = set(c32.STATIONS if "stations" not in v else v["stations"])
    sta = stations_of(lut, names)
    panels = []
    for i, j in PANELS:
        n = (marg.shape[i], marg.shape[j])
        mids = [ext[0, c] + (np.arange(m) + 0.5) / m * (ext[1, c] - ext[0, c]) for c, m in zip((i, j), n)]
        rest = ({0, 1, 2} - {i, j}).pop()
        sl = np.take(marg, best[rest], axis=rest)
        if i > j:
            sl = sl.T
        want = sorted(((x, z, sl[p, q]) for p, x in enumerate(mids[0]) for q, z in enumerate(mids[1])),
                      key=lambda r: (round(r[0], 6), round(r[1], 6)))
        cand = []
        for ax in fig:
            for mid, val, corners in ax.meshes:
                if len(val) != len(want):
                    continue
                o = np.lexsort((mid[:, 1].round(6), mid[:, 0].round(6)))
                if same(np.column_stack([mid[o], val[o]]), want, 1e-6):
                    cand.append(ax)
                    break
        ctx.check(cand, "map-slice", lambda: f"{label}: no slice through the map in {'XYZ'[i]}, {'XYZ'[j]}")
        cand = [ax for ax in cand if any(abs(x - hyp[i]) < 1e-9 for x in ax.vlines)
                and any(abs(x - hyp[j]) < 1e-9 for x in ax.hlines)]
        ctx.check(cand, "crosshair", lambda: f"{label}: no cross at the hypocentre in {'XYZ'[i]}, {'XYZ'[j]}")
        cand = has_marks(cand, [(s[i], s[j]) for s in sta.values()], 1e-9)
        ctx.check(cand, "stations", lambda: f"{label}: the stations are not in {'XYZ'[i]}, {'XYZ'[j]}")
        g = [float(row[f"GAU_{c}"]) for c in "XYZ"]
        err = np.asarray(k["event"].get_loc_uncertainty("gaussian"), float)
        at = lut.coord2grid(np.asarray(g))[0]
        d = abs(np.asarray(g) - lut.coord2grid(at + err, inverse=True)[0])
        cand = [ax for ax in cand if any(
            same(e, [g[i], g[j], 2 * d[i], 2 * d[j]], 2e-3 * (1 if max(i, j) < 2 else unit(lut))) for e in ax.ellipses)]
        ctx.check(cand, "ellipse", lambda: f"{label}: no ellipse at {g} with {d} in {'XYZ'[i]}, {'XYZ'[j]}")
        panels.append(cand[0])
    ctx.check(len({id(p) for p in panels}) == 3, "panels", lambda: f"{label}: panels are shared")
    ctx.check({x for x in panels[0].texts if x in stations_of(lut)} == set(sta), "station-names",
              lambda: f"{label}: {panels[0].texts}")
    if v.get("xy"):
        ctx.check(any(same(x, [1.0, 1.1], 1e-12) and same(y, [2.0, 2.1], 1e-12) for x, y, _, _ in panels[0].lines),
                  "xy-files", lambda: f"{label}: the line of the xy file is not on the map")
    # the gather
    model = {(s, p): otime + float(lut.traveltime_to(p, np.array([best]), s)[0])
             for s in sta for p in k["phases"]}
    gather = [ax for ax in fig if set(ax.ticks) == set(sta) and ax not in panels]
    ctx.check(gather, "gather", lambda: f"{label}: no gather with the stations {sorted(sta)}")
    ax = gather[0]
    ctx.check(any(abs(x * DAY - otime) < 2e-6 for x in ax.vlines), "origin-time",
              lambda: f"{label}: no line at {row['DT']} on the gather")
    first = k["phases"][0]
    order = sorted(sta, key=lambda s: model[s, first])
    ctx.check(all(ax.ticks[p] > ax.ticks[q] or model[p, first] == model[q, first]
                  for p, q in zip(order, order[1:])), "gather-order",
              lambda: f"{label}: {ax.ticks}, by distance {order}")
    for p in k["phases"]:
        want = sorted((model[s, p] / DAY, float(ax.ticks[s])) for s in sta)
        ok = any(same(np.array(sorted(map(tuple, off)))[:, 1:], np.array(want)[:, 1:], 1e-9) and
                 same(np.array(sorted(map(tuple, off)))[:, 0] * DAY, np.array(want)[:, 0] * DAY, 1e-3)
                 for off, _ in ax.marks if off.shape == (len(want), 2))
        ctx.check(ok, "modelled-arrivals", lambda: f"{label}: the modelled {p} arrivals {want} are not marked")
    if "maps" in v and not v.get("plain", True):
        return
    far = max(model.values())
    for trace in k["waveforms"]:
        s, c = trace.stats.station, trace.stats.channel[-1]
        if s not in sta or not any(c in cs for p, cs in drawn(v, k["phases"]).items()):
            continue
        tt = trace.stats.starttime.ns / 1e9 + np.arange(len(trace.data)) / trace.stats.sampling_rate
        m = (tt >= otime) & (tt <= min(otime + 1.2 * (far - otime), tt[-1] - 0.1))
        ok = False
        for x, y, _, _ in ax.lines:
            sec = x * DAY
            i = np.searchsorted(sec, tt[m][0] - 1e-3) if m.any() else 0
            part = y[i:i + m.sum()]
            if len(part) != m.sum() or not same(sec[i:i + m.sum()], tt[m], 1e-4):
                continue
            base = part - ax.ticks[s]
            d = trace.data[m].astype(float)
            scale = base @ d / (d @ d)
            if scale > 0 and np.max(abs(base - scale * d)) <= 1e-6 * max(1e-9, np.max(abs(base))):
                ok = True
                break
        ctx.check(ok, "gather-waveform", lambda: f"{label}: the waveform of {trace.id} is not at its station's line")
        ctx.add(gather_waveforms=1)
    # texts
    texts = "\n".join(x for a in fig for x in a.texts)
    ctx.check(f"{row['EventID']}" in texts, "summary-text", lambda: f"{label}: the event's name is not in {texts!r}")
    ot = UTCDateTime(row["DT"])
    want = ot.strftime("%Y-%m-%d %H:%M:%S.") + f"{ot.microsecond // 1000:03d}"
    ctx.check(want in texts, "summary-text", lambda: f"{label}: {want} is not in {texts!r}")
    deg = "\u00b0"
    found = re.search(rf"([-\d.]+){deg}N \u00b1 ([\d.]+) km\s+([-\d.]+){deg}E \u00b1 ([\d.]+) km\s+([-\d.e]+) \u00b1 "
                      r"([\d.]+) km", texts)
    km = [float(row[c]) / unit(lut) for c in ("GAU_ErrY", "GAU_ErrX", "GAU_ErrZ")]
    want = [hyp[1], km[0], hyp[0], km[1], float(row["Z"]) / unit(lut), km[2]]
    ctx.check(found and same([float(x) for x in found.groups()], want, 2e-3), "hypocentre-text",
              lambda: f"{label}: {texts!r} for {want}")
    if row.get("ML") not in (None, "", "nan"):
        found = re.search(r"([-\d.]+) \u00b1 ([-\d.]+|nan)\s+r\u00b2 = ([-\d.e]+|nan)", texts)
        want = [float(row[c] or "nan") for c in ("ML", "ML_Err", "ML_r2")]
        ctx.check(found and same([float(x) for x in found.groups()], want, 6e-3), "magnitude-text",
                  lambda: f"{label}: {texts!r} for {want}")
    ctx.add(summaries=1)


def drawn(v, phases):
    """Components shown for each phase: two pairs at most for the S phase."""
    c = components(v)
    out = {"P": c.get("P", [])}
    s = c.get("S", [])
    alpha, digits = [x for x in s if not x.isnumeric()], [x for x in s if x.isnumeric()]
    out["S"] = alpha[:2] + digits[:2]
    return {p: out.get(p, []) for p in ("P", "S")}


def check_picks(ctx, label, v, lut, fig, uid, station, row, picks, k):
    otime = num(k["otime"])
    texts = "\n".join(x for a in fig for x in a.texts)
    ctx.check(uid in texts and station in texts, "pick-text", lambda: f"{label}: {texts!r}")
    used = {}
    for ph, onset in k["onsets"][station].items():
        t = num(k["start"]) + np.arange(len(onset)) / k["sr"]
        win = k["picks"]["pick_windows"][station][ph]
        m = slice(max(win[0], 0), min(win[2], len(onset) - 1) + 1)
        axes = [a for a in series_in(fig, t[m], onset[m], 1e-9)]
        ctx.check(axes, "onset-missing", lambda: f"{label}: the {ph} onset is not shown over its pick window")
        axes = [a for a in axes if any(x.startswith(ph) for x in a.texts)]
        ctx.check(axes, "onset-name", lambda: f"{label}: the {ph} onset is not on the axes that name it")
        ax = axes[0]
        ctx.check(ax.xlim[0] * DAY <= t[m][0] + 1e-3 and ax.xlim[1] * DAY >= t[m][-1] - 1e-3, "onset-axis",
                  lambda: f"{label}: the pick window is outside the axis")
        gau = k["picks"]["gaussfits"][station][ph]
        ctx.check(any(abs(h - gau["PickThreshold"]) < 1e-9 for h in ax.hlines), "pick-threshold",
                  lambda: f"{label}: no line at the threshold of {ph}: {ax.hlines}")
        pick = [p for p in picks if p["Phase"] == ph]
        ctx.check(len(pick) == 1, "pick-rows", lambda: f"{label}: {len(pick)} picks of {ph}")
        pick = pick[0]
        column = [a for a in fig if abs(a.box[0] - ax.box[0]) < 0.02 and (a.lines or a.vlines)]
        title = [a.title for a in column if a.title]
        ctx.check(title and title[0].startswith(ph), "column", lambda: f"{label}: {ph} is in the column {title}")
        model = num(pick["ModelledTime"])
        for a in column:
            if a is not ax and not a.lines:
                continue
            ctx.check(any(abs(x * DAY - model) < 5e-6 for x in a.vlines), "modelled-arrival",
                      lambda: f"{label}: no line at the modelled {ph} arrival")
            ctx.check(any(abs(p * DAY - t[win[0]]) < 1e-3 and abs(q * DAY - t[min(win[2], len(t) - 1)]) < 1e-3
                          for p, q in a.bands), "pick-window",
                      lambda: f"{label}: no band over the {ph} pick window")
            if pick["PickTime"] not in ("-1", "-1.0"):
                at, e = num(pick["PickTime"]), float(pick["PickError"])
                for x, tol in ((at, 5e-6), (at - e / 2, 6e-4), (at + e / 2, 6e-4)):
                    ctx.check(any(abs(y * DAY - x) < tol for y in a.vlines), "pick-lines",
                              lambda: f"{label}: no line at {UTCDateTime(x)} for the {ph} pick: "
                                      f"{[str(UTCDateTime(y * DAY)) for y in a.vlines]}")
        if gau["PickValue"] != -1:
            x = np.asarray(gau["xdata"], float)
            h, mu, sig = gau["popt"][:3]
            y = h * np.exp(-((x - mu) ** 2) / (2 * sig ** 2))
            tx = np.array([num(q) for q in gau["xdata_dt"]])
            ctx.check(series_in([ax], tx, y, 1e-6), "gaussian-fit", lambda: f"{label}: no curve of the fit to {ph}")
            ctx.check(re.search(rf"Pick time: {re.escape(str(UTCDateTime(pick['PickTime'])))}", texts), "pick-text",
                      lambda: f"{label}: {pick['PickTime']} is not in {texts!r}")
            nums = [float(x) for x in re.findall(r"Pick SNR:\s+([-\d.]+)", texts)]
            ctx.check(any(abs(x - float(pick["SNR"])) < 2e-3 + 5e-3 * abs(x) for x in nums), "pick-text",
                      lambda: f"{label}: SNR {pick['SNR']}, shown {nums}")
        nums = [float(x) for x in re.findall(r"Pick threshold:\s+([-\d.]+)", texts)]
        ctx.check(any(abs(x - gau["PickThreshold"]) < 2e-3 for x in nums), "pick-text",
                  lambda: f"{label}: threshold {gau['PickThreshold']}, shown {nums}")
        used[ph] = column
    ctx.check(sum(1 for a in fig for _ in a.hlines) == len(used), "extra-phase",
              lambda: f"{label}: thresholds of {sum(1 for a in fig for _ in a.hlines)} phases, onsets of {sorted(used)}")
    comps = drawn(v, list(used))
    lo = min(w[0] for w in k["picks"]["pick_windows"][station].values())
    hi = max(w[2] for w in k["picks"]["pick_windows"][station].values())
    for trace in k["waveforms"].select(station=station):
        c = trace.stats.channel[-1]
        for ph, column in used.items():
            if c not in comps[ph]:
                continue
            t = trace.stats.starttime.ns / 1e9 + np.arange(len(trace.data)) / trace.stats.sampling_rate
            m = slice(max(lo, 0), min(hi, len(t) - 1) + 1)
            axes = series_in(column, t[m], np.asarray(trace.data[m], float), 1e-9)
            ctx.check(axes and any(trace.id in x for a in axes for x in a.texts), "pick-waveform",
                      lambda: f"{label}: the waveform of {trace.id} is not shown (with its name) for {ph}")
            ctx.add(pick_waveforms=1)
    ctx.add(pick_figures=1)


def attenuation(r):
    return 1.11 * np.log10(r / 100.0) + 0.00189 * (r - 100.0) + 3.0


def check_amplitudes(ctx, label, v, lut, fig, uid, row, amps, used):
    ax = fig[0]
    feature = v.get("mag", {}).get("amp_feature", "S_amp")
    hyp = v.get("mag", {}).get("use_hyp_dist", False)

    def val(r, c):
        return float(r[c]) if r[c] not in ("", "nan") else np.nan

    corr = v.get("mag", {}).get("station_corrections", {})
    data = []
    for r in amps:
        if r["id"] not in used:
            continue        # no magnitude for it
        epi, z = val(r, "epi_dist"), val(r, "z_dist")
        dist = math.hypot(epi, z) if hyp else epi
        f = 10 ** corr.get(r["id"], 0.0) * v.get("mag", {}).get("amp_multiplier", 1.0)
        gain = val(r, f"{feature[0]}_filter_gain")
        noise = val(r, "Noise_amp") / (1.0 if np.isnan(gain) else gain)
        data.append((r["id"], dist, val(r, feature) * f, noise * f, bool(used[r["id"]])))
    ml, err, r2 = (float(row[c] or "nan") for c in ("ML", "ML_Err", "ML_r2"))
    use = [d for d in data if d[4]]
    rej = [d for d in data if not d[4]]

    def close(a, b):
        a, b = np.asarray(a, float), np.asarray(b, float)
        return a.shape == b.shape and bool(np.all((abs(a - b) <= 2e-3 * abs(b)) | (np.isnan(a) & np.isnan(b))))

    def curve(pts):
        pts = sorted(pts)
        return any(len(x) == len(pts) and close(sorted(zip(x, y)), pts) for x, y, _, _ in ax.lines)

    ctx.check(curve([(d[1], d[2]) for d in use]), "used-amplitudes",
              lambda: f"{label}: the used amplitudes {[d[:3] for d in use]} are not shown")
    if rej:
        ctx.check(curve([(d[1], d[2]) for d in rej]), "rejected-amplitudes",
                  lambda: f"{label}: the rejected amplitudes {[d[:3] for d in rej]} are not shown")
    noise = sorted((d[1], d[3]) for d in data)
    ctx.check(any(len(o) == len(noise) and close(sorted(map(tuple, o)), noise) for o, _ in ax.marks), "noise",
              lambda: f"{label}: the noise amplitudes {noise} are not shown")
    ctx.check(any(close([h], [np.median([d[3] for d in data])]) for h in ax.hlines), "median-noise",
              lambda: f"{label}: no line at the median noise")
    dist = [d[1] for d in data]
    for m in (ml, ml + err, ml - err) if err == err else (ml,):
        ok = False
        for x, y, _, _ in ax.lines:
            if len(x) < 50 or x.min() > min(dist) or x.max() < max(dist):
                continue
            ok = ok or bool(np.all(abs(np.log10(y) - (m - attenuation(x))) < 6e-3 + 1e-3 * abs(m)))
        ctx.check(ok, "predicted", lambda: f"{label}: no curve of the amplitudes for ML {m}")
    for _, d, a, n, _ in data:
        ok = any(s.shape == (2, 2) and close(s[:, 0], [d, d]) and close([max(s[:, 1])], [a + n]) for s in ax.bars)
        ctx.check(ok, "error-bars", lambda: f"{label}: no bar to {a + n} at {d}")
    if v.get("mag", {}).get("dist_filter"):
        ctx.check(any(abs(x - v["mag"]["dist_filter"]) < 1e-9 for x in ax.vlines), "distance-filter",
                  lambda: f"{label}: no line at the distance filter")
    # a label for each station with the components that were used, at its greatest amplitude
    labels = 0
    for group in (use, rej):
        for s in sorted({d[0][:-1] for d in group}):
            if group is rej and s in {d[0][:-1] for d in use}:
                continue
            mine = [d for d in group if d[0][:-1] == s]
            name = f"{s}[{','.join(d[0][-1] for d in mine)}]"
            at = (mine[0][1], max(d[2] for d in mine))
            found = [xy for x, xy in ax.notes if x == name]
            labels += 1
            ctx.check(len(found) == 1 and close(found[0], at), "station-label",
                      lambda: f"{label}: {name} at {found}, for {at}; there are {ax.texts}")
    ctx.check(sum(x.endswith("]") for x in ax.texts) == labels, "station-label",
              lambda: f"{label}: {ax.texts} for {labels} stations")
    ctx.check(r2 != r2 or any(abs(float(n) - r2) <= 0.0051 * max(1, abs(r2)) for x in ax.texts if "squared" in x
                  for n in re.findall(r"-?\d+\.?\d*", x)), "r-squared", lambda: f"{label}: {ax.texts}")
    ctx.check(uid in ax.title, "amplitude-title", lambda: f"{label}: {ax.title}")
    lo, hi = ax.xlim
    ctx.check(all(lo <= d <= hi for d in dist), "amplitude-axis", lambda: f"{label}: {ax.xlim} for {dist}")
    lo, hi = ax.ylim
    ctx.check(all(lo <= d[2] <= hi for d in data if d[2] == d[2]), "amplitude-axis", lambda: f"{label}: {ax.ylim}")
    ctx.add(amplitude_figures=1)


VARIANTS = {
    # one station, one trace, one per station, the last with one
    "single-trace": {"mag": dict(trace_filter=".*C.*N$")}, "single-first": {"mag": dict(trace_filter=".*AA1.*E$")},
    "last-single": {"gone": [("C", "HHE"), ("C", "HHZ")]}, "first-single": {"gone": [("AA1", "HHE"), ("AA1", "HHZ")]},
    "last-single-rejected": {"mag": dict(trace_filter=".*(AA1|B2|C..HHN).*")},
    "s-p-maps": {"phases": ["S", "P"], "maps": {"S": "*[N,E]", "P": "*Z"}},
    "s-p-h-only": {"phases": ["S", "P"], "gone": [("AA1", "HHZ"), ("B2", "HHN"), ("B2", "HHE")]},
    "s-p-metres": {"phases": ["S", "P"], "kind": "lcc_m"},
    "metres-used": {"kind": "lcc_m", "plot_all": False, "gone": [("C", None)]},
    "hyp-corrections": {"mag": dict(use_hyp_dist=True, station_corrections={"AA.AA1..HHN": 0.5, "AA.C..HHE": -0.25})},
    "corrections-rejected": {"mag": dict(station_filter=["C"], station_corrections={
        "AA.AA1..HHN": 0.5, "AA.C..HHE": -0.75, "AA.C..HHN": 1.0})},
    "multiplier": {"mag": dict(amp_multiplier=3.0)},
    "p-bandpass": {"mag": dict(amp_feature="P_amp"), "amp": dict(bandpass_filter=True, bandpass_lowcut=2.0,
                                                                 bandpass_highcut=8.0)},
}


def locate_cases(tier):
    for v in [*c32.VARIANTS, *VARIANTS]:
        if v in SKIP:
            continue
        yield dict(variant=v)


# channel maps whose components are not listed with commas
SKIP = {"no-commas", "whole-names", "question", "star"}


def groups():
    return [Group("locate", locate_cases, run_locate, timeout=200),
            Group("trigger", trigger_parts, run_trigger, timeout=300)]
