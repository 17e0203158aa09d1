"""An event in the data is found at the place and time it came from."""

import csv
import itertools
import shutil

import numpy as np
from obspy import UTCDateTime

from qmmc import archlib, locatelib, world
from qmmc.core import Group

LEVEL = "exploration"
RULE = ("one evaluation = one event (a sharp P arrival on the vertical and a sharp S arrival on the horizontal channels "
        "of every station, at the traveltimes from one node after one origin time, over weak noise) in archives that "
        "together have an event at every node of the grid, through the real detect, trigger and locate. Exactly one "
        "event must be triggered for it and none besides; the peak of the coalescence in detect and in locate must be "
        "at its node, the spline location within half a node, the Gaussian location near it, the origin time later by the onset's "
        "delay only (the same for all events to a sample), the automatic picks at the arrivals to the same delay, "
        "the modelled arrivals at origin time plus traveltime, the coalescence in locate that of detect, and the catalogue "
        "read from the run must have the same events. Non-trivial: all.")
ASSUMPTIONS = ["arrivals are sharp and well above noise, and stations surround the grid, so that the node is the only "
               "place that explains all arrivals",
               "the Gaussian location is a fit to the smoothed coalescence, and on a grid of 6 x 7 x 5 nodes is pulled towards its "
               "middle (or out of it): within three nodes of the event is all that is asked of it"]

STATIONS = ("AA1", "B2", "C", "D44", "EE", "F")
WHERE = [(-1.5, 0.3, -0.4), (7.2, 1.1, -0.1), (2.6, 8.3, 0.2), (-0.8, 6.4, 5.6), (3.1, -1.4, 4.9), (6.3, 7.2, 5.2)]
SHAPE = (6, 7, 5)
VP, VS = 5.0, 2.9
SR = 50
MW = 0.6
STEP = 13.3             # between events
NODES = list(itertools.product(*(range(n) for n in SHAPE)))

CONFIGS = {
    # phases, onset position, unit, archive sampling rate factor, decimation, trigger keywords, time step
    "centred": dict(),
    "classic": dict(position="classic"),
    "metres": dict(unit="m", position="classic", factor=2),
    "P": dict(phases=("P",)),
    "S": dict(phases=("S",), position="classic", transform="env_squared"),
    "coarse": dict(decimate=(1, 2, 2), step=17.0),
    "coarser": dict(decimate=(3, 3, 4)),
    "uneven": dict(decimate=(2, 4, 2), position="classic"),
    "smooth": dict(smooth=True, step=60.0, transform="abs"),
    "utm": dict(kind="utm_km", fraction_sample=0.5),
    "off": dict(offset=0.004, transform="env"),
    "normalised": dict(normalise=True, step=9.0),
}
DEFAULT = dict(phases=("P", "S"), position="centred", unit="km", factor=1, decimate=None, smooth=False, step=30.0,
               kind=None, fraction_sample=0.0, transform="energy", normalise=False, offset=0.0)


def table(cf):
    u = 1000.0 if cf["unit"] == "m" else 1.0
    lut = world.make_lut(SHAPE, (u, u, u), STATIONS, ("P", "S"), kind=cf["kind"] or "lcc_" + cf["unit"], zmin=-0.5 * u,
                         tt=locatelib.homogeneous(VP * u, VS * u, WHERE, (u, u, u)), fraction_tt=0.1)
    return lut


def arrival(s, phase, node):
    d = np.sqrt(sum((g - x) ** 2 for g, x in zip(node, WHERE[STATIONS.index(s)])))
    return d / (VP if phase == "P" else VS)


def build(cf, root, start, sources):
    """sources: [(seconds after start, node)]"""
    sr = SR * cf["factor"]
    t0 = start.ns / 1e9
    first, last = round((t0 - 12) * sr), round((t0 + sources[-1][0] + 35 + cf["step"]) * sr)
    base = round(t0 * sr)

    def value(s, c, idx):
        t = (np.asarray(idx, dtype=float) - base) / sr + cf["offset"]
        y = 6 * np.sin(17.3 * t + 2 * ord(s[0]) + ord(c[-1])) + 5 * np.sin(29.1 * t * (1 + 0.01 * ord(s[-1])) + ord(c[-1]))
        for at, node in sources:
            for ph, size in (("P", 4000 if c == "HHZ" else 0), ("S", 0 if c == "HHZ" else 4000)):
                x = t - at - arrival(s, ph, node)
                k = (x >= 0) & (x < 2.5)
                y[k] += size * np.exp(-x[k] / 0.07) * np.sin(2 * np.pi * 8 * x[k])
        return np.round(y).astype(np.int32)

    archlib.write_archive(root, sr, {(s, c): [(first, last)] for s in STATIONS for c in ("HHZ", "HHN", "HHE")},
                          value=value, offset=cf["offset"])


def csv_rows(f):
    with open(f, newline="") as fh:
        return list(csv.DictReader(fh))


def run_case(case, ctx):
    from quakemigrate.export.to_obspy import read_quakemigrate
    from quakemigrate.io import Archive
    from quakemigrate.signal import QuakeScan, Trigger
    from quakemigrate.signal.onsets import STALTAOnset
    from quakemigrate.signal.pickers import GaussianPicker

    cf = dict(DEFAULT, **CONFIGS[case["config"]])
    d = ctx.tmp()
    start = UTCDateTime(case["start"])
    sources = []
    for k, node in enumerate(case["nodes"]):
        # origin times at all kinds of places within samples, steps and days
        at = 4.0 + STEP * k + [0.0, 0.02, 0.007, 0.36, 0.113][k % 5]
        if cf["fraction_sample"]:
            at = round(at * SR) / SR + cf["fraction_sample"] / SR
        sources.append((at, tuple(node)))
    build(cf, d / "archive", start, sources)
    end = start + sources[-1][0] + 10
    full = table(cf)
    archive = Archive(d / "archive", world.station_table(list(STATIONS)), archive_format="YEAR/JD/*_STATION_*")
    onset = STALTAOnset(position=cf["position"], sampling_rate=SR, signal_transform=cf["transform"])
    onset.phases = list(cf["phases"])
    onset.bandpass_filters = {p: [2, 20, 2] for p in cf["phases"]}
    onset.sta_lta_windows = {p: [0.1, 1.0] for p in cf["phases"]}
    kw = dict(marginal_window=MW, plot_event_summary=False, threads=1, timestep=cf["step"], write_marginal_coalescence=True)
    lut = full.decimate(list(cf["decimate"])) if cf["decimate"] else full
    QuakeScan(archive, lut, onset, str(d), "run", **kw).detect(str(start), str(end))
    smooth = dict(smooth_coa=True, smoothing_kernel_sigma=0.05, smoothing_kernel_width=2) if cf["smooth"] else {}
    Trigger(lut, str(d), "run", plot_trigger_summary=False, marginal_window=MW, min_event_interval=4.0, pad=5.0,
            threshold_method="static", static_threshold=case.get("threshold", 2.0 if not cf["normalise"] else 1.8),
            normalise_coalescence=cf["normalise"], **smooth).trigger(str(start), str(end))
    scan = QuakeScan(archive, full, onset, str(d), "run", picker=GaussianPicker(onset=onset, plot_picks=False), **kw)
    scan.locate(starttime=str(start), endtime=str(end))

    events = sorted((r for f in sorted((d / "run" / "trigger" / "events").glob("*.csv")) for r in csv_rows(f)),
                    key=lambda r: UTCDateTime(r["CoaTime"]))
    label = f"{case['config']} from {start}"
    got = [UTCDateTime(r["CoaTime"]) - start for r in events]
    want = [a for a, _ in sources]
    ctx.check(len(got) == len(want) and all(abs(g - w) < 0.5 for g, w in zip(got, want)), "triggered",
              lambda: f"{label}: events at {want[:6]}..., triggered {got[:6]}... ({len(want)}, {len(got)})")
    delays, pick_delays = [], {}
    coarse = np.array(cf["decimate"] or (1, 1, 1))
    for (at, node), row in zip(sources, events):
        uid = row["EventID"]
        where = f"{label}, event {at:.3f} s at node {node}"
        ctx.count((case["config"], case["start"], node))
        # detect and trigger
        ijk = lut_index(lut, row, ("COA_X", "COA_Y", "COA_Z")) * coarse + first_node(full, lut)
        ctx.check(np.all(np.abs(ijk - node) <= case.get("near", 0.01) + (coarse - 1)), "detected-node",
                  lambda: f"{where}: detected at node {ijk}")
        # locate
        (ev,) = csv_rows(d / "run" / "locate" / "events" / f"{uid}.event")
        ctx.check(cf["smooth"] or abs(float(ev["COA"]) / float(row["COA"]) - 1) <= 0.02, "coalescence",
                  lambda: f"{where}: coalescence {row['COA']} in detect, {ev['COA']} in locate")
        marg = np.load(d / "run" / "locate" / "marginalised_coalescence_maps" / f"{uid}.npy")
        peak = np.unravel_index(np.nanargmax(marg), marg.shape)
        ctx.check(tuple(peak) == node, "located-node", lambda: f"{where}: located at node {tuple(map(int, peak))}")
        spl = lut_index(full, ev, ("X", "Y", "Z"))
        ctx.check(np.all(np.abs(spl - node) <= 0.5), "spline", lambda: f"{where}: spline location at {spl}")
        gau = lut_index(full, ev, ("GAU_X", "GAU_Y", "GAU_Z"))
        ctx.check(np.all(np.abs(gau - node) <= 3), "gaussian",
                  lambda: f"{where}: Gaussian location at {gau}")
        o = UTCDateTime(ev["DT"]) - start
        delays.append(o - at)
        picks = csv_rows(d / "run" / "locate" / "picks" / f"{uid}.picks")
        ctx.check(len(picks) == len(STATIONS) * len(cf["phases"]), "picks", lambda: f"{where}: {len(picks)} rows of picks")
        for p in picks:
            tt = arrival(p["Station"], p["Phase"], node)
            m = UTCDateTime(p["ModelledTime"]) - start - o
            ctx.check(abs(m - tt) <= 0.5 * np.sqrt(3) / VS / 2 + 0.02, "modelled",
                      lambda: f"{where}: {p['Station']} {p['Phase']} modelled {m:.3f} s after origin, traveltime {tt:.3f}")
            ctx.check(p["PickTime"] != "-1", "not-picked", lambda: f"{where}: no {p['Phase']} pick at {p['Station']}")
            pick_delays.setdefault(p["Phase"], []).append(UTCDateTime(p["PickTime"]) - start - at - tt)
        ctx.add(picks=len(picks))
    # the catalogue
    cat = sorted(read_quakemigrate(str(d / "run"), units=full.unit_name), key=lambda e: e.origins[0].time)
    ctx.check(len(cat) == len(events), "catalogue", lambda: f"{label}: {len(cat)} events in the catalogue")
    for (at, node), e, late in zip(sources, cat, delays):
        o = e.preferred_origin() or e.origins[0]
        lon, lat, dep = full.index2coord([node])[0]
        u = 1000.0 if full.unit_name == "km" else 1.0
        ctx.check(abs(o.time - start - at - late) < 1e-5 and abs(o.longitude - lon) < 0.006 and
                  abs(o.latitude - lat) < 0.006 and abs(o.depth - dep * u) < 501, "catalogue",
                  lambda: f"{label}: event {at:.3f} s at {lon}, {lat}, {dep}: in the catalogue {o}")
    mid = float(np.median(delays))
    ctx.check(abs(mid) <= 0.12, "delay", lambda: f"{label}: origin times are {mid:.3f} s late")
    bad = [k for k, x in enumerate(delays) if abs(x - mid) > 1.6 / SR]
    ctx.check(not bad, "origin-time", lambda: f"{label}: event {sources[bad[0]]}: origin time {delays[bad[0]]:.3f} s late, "
                                              f"others {mid:.3f}")
    for ph, x in pick_delays.items():
        mid = float(np.median(x))
        ctx.check(abs(mid) <= 0.12, "pick-delay", lambda: f"{label}: {ph} picks are {mid:.3f} s late")
        w = max(abs(v - mid) for v in x)
        ctx.check(w <= 2.5 / SR, "pick-time", lambda: f"{label}: a {ph} pick is {w:.3f} s from where others are")
    ctx.sample(config=case["config"], start=case["start"], events=len(sources), delay=mid)
    shutil.rmtree(d)


def lut_index(lut, row, names):
    """Grid coordinates of a written location"""
    from pyproj import Transformer

    x, y, z = (float(row[n]) for n in names)
    gx, gy = Transformer.from_proj(lut.coord_proj, lut.grid_proj).transform(x, y)
    return (np.array([gx, gy, z]) - lut.ll_corner) / lut.node_spacing


def first_node(full, lut):
    return np.round((np.array(lut.ll_corner) - full.ll_corner) / full.node_spacing, 6)


def cases(tier):
    starts = ["2015-12-31T23:55:00", "2016-02-29T11:07:13.42", "2020-07-01T00:00:00"]
    per = 27
    for n, (name, cf) in enumerate(CONFIGS.items()):
        nodes = NODES
        if "decimate" in cf:        # those that detect has in its table
            has = [range((m - f * ((m - 1) // f) - 1) // 2, m, f) for m, f in zip(SHAPE, cf["decimate"])]
            nodes = list(itertools.product(*has))
        # in another order for each, so that neighbours in time differ
        nodes = [nodes[(k * 37 + 11 * n) % len(nodes)] for k in range(len(nodes))]
        assert len(set(nodes)) == len(nodes)
        if tier == "quick" and n > 1:
            nodes = nodes[:54]
        for st in starts if tier == "thorough" else [starts[n % 3]]:
            for k in range(0, len(nodes), per):
                yield dict(config=name, start=st, nodes=nodes[k:k + per])


def groups():
    return [Group("events", cases, run_case, timeout=600)]

