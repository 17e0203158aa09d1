import csv
import itertools

import numpy as np
import pandas as pd
from obspy import UTCDateTime

from qmmc import locatelib, world
from qmmc.core import Group

LEVEL = "exploration"
RULE = ("one evaluation = one onset function (station, phase) picked by the real GaussianPicker: every "
        "placement of pulses and steps of every shape in the alphabet about the modelled arrivals, for "
        "every P-S separation, both threshold methods, both phase orders and missing phases; the pick "
        "row is compared with the window rule and a threshold computed separately, and, for clean "
        "Gaussian pulses, with the pulse itself. Distinct by onset shape and settings; non-trivial: "
        "the onset is not constant.")
ASSUMPTIONS = ["window ends are compared to within one sample (the definition rounds times to samples)",
               "the onset function is finite and positive"]

SR = 50
MW = 0.24            # 12 samples
FRAC = 0.1
T0 = UTCDateTime("2015-12-31T23:59:59.5")
PRE, POST = 4.0, 8.0


def noise(idx, salt, kind):
    if kind == "flat":
        return np.ones(len(idx))
    if kind == "low":
        return np.full(len(idx), 0.7)
    h = (idx * 7919 + salt * 131) % 101
    return 0.8 + 0.6 * h / 100.0


# shapes: list of (kind, offset in samples from the modelled arrival, height, width)
def shape_value(x, shapes):
    out = np.zeros(len(x))
    for kind, off, height, width in shapes:
        d = x - off
        if kind == "gauss":
            out += height * np.exp(-0.5 * (d / width) ** 2)
        elif kind == "box":
            out += np.where((d >= 0) & (d < width), height, 0.0)
        elif kind == "ramp":       # sawtooth, rising then falling off a cliff
            out += np.where((d >= 0) & (d < width), height * (d + 1) / width, 0.0)
        elif kind == "step":
            out += np.where(d >= 0, height, 0.0)
        elif kind == "decay":
            out += np.where(d >= 0, height * np.exp(-np.maximum(d, 0) / width), 0.0)
    return out


class Onsets:
    """table: {station: {phase: (shapes, noise kind)}} relative to the modelled arrivals."""

    def __init__(self, table, arrivals, i0):
        self.table, self.arr, self.i0 = table, arrivals, i0

    def __call__(self, st, ph, idx):
        x = idx - self.arr[st][ph]
        shapes, nz = self.table[st][ph]
        return noise(idx, sum(map(ord, st + ph)), nz) + shape_value(x, shapes)


def pick(ctx, seps, table, method, level, order=("P", "S"), mw=MW, frac=FRAC, override=None):
    """Pick a whole set of onsets at once. seps: {station: (P traveltime, S traveltime)} s."""
    from quakemigrate.io import Run
    from quakemigrate.io.event import Event
    from quakemigrate.signal.pickers import GaussianPicker

    stations = sorted(seps)
    lut = world.make_lut((3, 3, 3), (1.0, 1.0, 1.0), stations, ("P", "S"), fraction_tt=frac,
                         tt=lambda s, ph, ijk: np.full(ijk[0].shape, seps[stations[s]][ph == "S"]))
    i_o = world.sample_index(T0, SR)
    arr = {s: {"P": i_o + round(seps[s][0] * SR), "S": i_o + round(seps[s][1] * SR)}
           for s in stations}
    start, end = T0 - 2 * mw - PRE, T0 + 2 * mw + POST
    value = Onsets(table, arr, i_o)
    avail = lambda s, p, d: p in table[s]  # noqa: E731
    onset = world.onset_class()(stations, order, SR, value, pre=0.0, available=avail, halfwidth=2.5)
    kw = dict(threshold_method=method)
    kw["percentile_pick_threshold" if method == "percentile" else "mad_pick_threshold"] = level
    how, value_tt = override or ("", None)
    if "argument" in how:
        kw["fraction_tt"] = value_tt if how == "argument" else 0.77
    picker = GaussianPicker(onset=onset, plot_picks=False, **kw)
    if "attribute" in how:
        picker.fraction_tt = value_tt
    d = ctx.tmp()
    run = Run(str(d), "run", "", "locate")
    ev = Event(mw, pd.Series(dict(EventID="20151231235959500", CoaTime=T0, TRIG_COA=1.0, COA=1.0,
                                  COA_NORM=1.0)))
    ev.add_waveform_data(world.FakeData(start, end))
    ev.otime = T0
    xyz = lut.index2coord([[1, 1, 1]])[0]
    ev.add_spline_location(xyz)
    ev, df = picker.pick_phases(ev, lut, run)
    with open(d / "run" / "locate" / "picks" / "20151231235959500.picks") as f:
        rows = list(csv.DictReader(f))
    i0, i1 = world.sample_index(start, SR), world.sample_index(end, SR)
    idx = np.arange(i0, i1 + 1)
    data = {(s, p): value(s, p, idx) for s in stations for p in table[s]}
    return df, rows, arr, data, i0


def windows(arr, tts, present, mw, frac, n):
    """[first, last] absolute samples of the pick windows by the rule (inclusive)."""
    out = {}
    for p in present:
        w = round((tts[p == "S"] * frac + mw) * SR)
        out[p] = [arr[p] - w, arr[p] + w]
    if len(present) == 2:
        mid = (arr["P"] + arr["S"]) / 2
        out["P"][1] = min(out["P"][1], mid)
        out["S"][0] = max(out["S"][0], mid)
    return out


def threshold(x, i0, wins, method, level, grow, grow2):
    keep = np.ones(len(x), bool)
    for a, b in wins.values():
        keep[max(0, int(np.ceil(a)) - i0 - grow):max(0, int(np.floor(b)) - i0 + 1 + grow2)] = False
    y = x[keep & (x > 1)]
    if not len(y):
        return None
    if method == "percentile":
        y = np.sort(y)
        pos = level * (len(y) - 1)
        lo = int(np.floor(pos))
        hi = min(lo + 1, len(y) - 1)
        return float(y[lo] + (pos - lo) * (y[hi] - y[lo]))
    med = float(np.median(y))
    return med + level * 1.4826 * float(np.median(np.abs(y - med)))


def check_picks(ctx, lab, seps, table, method, level, order=("P", "S"), mw=MW, frac=FRAC,
                clean=False):
    df, rows, arr, data, i0 = pick(ctx, seps, table, method, level, order, mw, frac)
    have = sorted((r["Station"], r["Phase"]) for r in rows)
    want = sorted((s, p) for s in table for p in table[s])
    ctx.check(have == want, "pick-rows", lambda: f"{lab}: {have}")
    ctx.check(len(df) == len(rows), "pick-table", lab)
    for k, r in enumerate(rows):
        s, p = r["Station"], r["Phase"]
        shapes, nz = table[s][p]
        what = f"{lab}; {s}_{p}, traveltimes {seps[s]}, shapes {table[s]}"
        x = data[s, p]
        ctx.count((str(table[s]), p, seps[s], method, level, order, mw, frac),
                  nontrivial=bool(shapes) or nz == "noisy")
        model = T0 + seps[s][p == "S"]
        ctx.check(abs(UTCDateTime(r["ModelledTime"]).ns - model.ns) < 2000, "modelled-time",
                  lambda: f"{what}: {r['ModelledTime']}, wanted {model}")
        w = windows(arr[s], seps[s], list(table[s]), mw, frac, len(x))
        lo, hi = w[p]
        made = r["PickTime"] != "-1"
        cells = [r[c] for c in ("PickTime", "PickError", "SNR", "Residual")]
        th = [threshold(x, i0, w, method, level, g, h) for g in (-1, 0, 1) for h in (-1, 0, 1)]
        th = [t for t in th if t is not None and np.isfinite(t)]
        inside = x[max(0, int(np.ceil(lo)) - i0):max(0, int(np.floor(hi)) - i0 + 1)]
        outer = x[max(0, int(np.ceil(lo)) - i0 - 1):max(0, int(np.floor(hi)) - i0 + 2)]
        if not made:
            ctx.check(all(float(c) == -1 for c in cells), "half-failed-pick", lambda: f"{what}: {cells}")
        else:
            t = UTCDateTime(r["PickTime"])
            at = (t.ns - T0.ns) * 1e-9 * SR + (arr[s][p] - round(seps[s][p == "S"] * SR))
            ctx.check(lo - 1 <= at <= hi + 1, "pick-outside-window",
                      lambda: f"{what}: at sample {at - arr[s][p]} from the arrival, window "
                              f"{lo - arr[s][p]}..{hi - arr[s][p]}")
            ctx.check(float(cells[1]) > 0 and np.isfinite(float(cells[1])), "pick-error",
                      lambda: f"{what}: {cells}")
            ctx.check(np.isfinite(float(cells[2])) and float(cells[2]) > 0, "pick-snr",
                      lambda: f"{what}: {cells}")
            ctx.check(abs(float(cells[3]) - (t - model)) < 2e-6, "residual",
                      lambda: f"{what}: {cells}, modelled {model}")
            if th:
                ctx.check(outer.max() > min(th) - 1e-9, "pick-below-threshold",
                          lambda: f"{what}: largest value in the window {outer.max()}, threshold {th}")
        ctx.add(made=int(made))
        if clean and len(shapes) == 1 and shapes[0][0] == "gauss":
            _, off, height, width = shapes[0]
            margin = 2 * width + 1
            own = [sh for q in table[s] if q != p for sh in table[s][q][0]]
            _ = own
            if lo + margin <= arr[s][p] + off <= hi - margin and th and height * 0.6 > max(th):
                ctx.check(made, "clear-pulse-not-picked", lambda: f"{what}: threshold {th}")
                ctx.check(abs(at - arr[s][p] - off) < 0.5, "pick-off-the-maximum",
                          lambda: f"{what}: at sample {at - arr[s][p]} from the arrival")
                ctx.check(0.5 < float(cells[1]) * SR / width < 2, "pick-error-size",
                          lambda: f"{what}: {cells[1]} s = {float(cells[1]) * SR} samples")
                ctx.check(abs(float(cells[2]) - inside.max()) < 0.2 * height, "pick-snr-size",
                          lambda: f"{what}: {cells[2]}, largest value {inside.max()}")
                ctx.add(clean_pulses=1)
    return rows


METHODS = [("MAD", 8.0), ("percentile", 1.0), ("percentile", 0.9), ("MAD", 1.0)]
# (P, S) traveltimes: S-P of 0 samples (coincident) to far apart
SEPS = [(1.0, 1.0), (1.0, 1.06), (1.0, 1.2), (1.0, 1.3), (1.02, 1.5), (1.0, 1.6), (0.5, 2.0), (0.0, 0.0),
        (0.0, 0.9), (2.0, 3.4)]


def clean_cases(tier):
    for (m, lv), sep in itertools.product(METHODS, SEPS):
        for order in (("P", "S"), ("S", "P")) if sep[0] != sep[1] else (("P", "S"),):
            for width in (2.0, 3.0) if tier == "quick" else (1.6, 2.0, 3.0, 4.0):
                yield [m, lv, list(sep), list(order), width]


def run_clean(case, ctx):
    m, lv, sep, order, width = case
    seps, table = {}, {}
    offs = list(range(-30, 31))
    for k, off in enumerate(offs):
        s = f"S{k:02d}"
        seps[s] = tuple(sep)
        kind = "noisy"
        table[s] = {"P": ([("gauss", off, 40.0, width)], kind),
                    "S": ([("gauss", -off, 40.0, width)], kind)}
        if k % 5 == 4:
            table[s] = {"P": table[s]["P"]}
        elif k % 5 == 3:
            table[s] = {"S": table[s]["S"]}
    check_picks(ctx, f"{m} {lv}, order {order}, width {width}", seps, table, m, lv, tuple(order),
                clean=True)
    ctx.sample(method=m, level=lv, traveltimes=sep, order=order, width=width)


SHAPES = [[], *[[("box", o, h, w)] for o in (-13, -12, -11, -1, 0, 5, 10, 11, 12, 13)
                for h in (0.5, 20.0) for w in (1, 2, 3, 30)],
          *[[("ramp", o, 20.0, w)] for o in (-20, -12, -5, 0, 6, 11) for w in (5, 12, 25)],
          *[[("step", o, h, 0)] for o in (-40, -12, 0, 11, 12) for h in (0.3, 20.0)],
          *[[("decay", o, 20.0, w)] for o in (-30, -12, 0, 8, 11) for w in (2, 8)],
          *[[("gauss", a, 20.0, 1.5), ("gauss", b, hb, 1.5)] for a in (-9, 0, 9) for b in (-6, 3, 11)
            for hb in (20.0, 19.9, 5.0)]]


def shape_cases(tier):
    for (m, lv), sep in itertools.product(METHODS, SEPS):
        for nz in ("noisy", "flat", "low"):
            for order in (("P", "S"), ("S", "P")) if tier != "quick" and sep[0] != sep[1] else (("P", "S"),):
                yield [m, lv, list(sep), nz, list(order), 30 if tier == "quick" else 2]


def run_shapes(case, ctx):
    m, lv, sep, nz, order, stride = case
    n = 0
    for start in range(0, len(SHAPES), 25):
        seps, table = {}, {}
        for k in range(start, min(start + 25, len(SHAPES))):
            for j in range(k % stride, len(SHAPES), stride):
                s = f"S{len(seps):04d}"
                seps[s] = tuple(sep)
                table[s] = {"P": (SHAPES[k], nz), "S": (SHAPES[j], nz)}
                if (k + j) % 7 == 0:
                    table[s].pop("P" if k % 2 else "S")
        n += len(seps)
        check_picks(ctx, f"{m} {lv}, {nz} noise", seps, table, m, lv, tuple(order))
    ctx.sample(method=m, level=lv, traveltimes=sep, noise=nz, order=order, stations=n)


def width_cases(tier):
    for mw in (0.0, 0.02, 0.1, 0.5, 1.0):
        for frac in (0.0, 0.1, 0.5, 1.0):
            for sep in SEPS:
                yield [mw, frac, list(sep)]


def run_width(case, ctx):
    """Window sizes: pulses just inside and outside for every marginal window and fraction."""
    mw, frac, sep = case
    seps, table = {}, {}
    for ph, tt in zip("PS", sep):
        w = round((tt * frac + mw) * SR)
        for off in sorted({w + d for d in (-9, -8, -7, -2, 0, 1, 3, 6)} |
                          {-w - d for d in (-9, -8, -7, -2, 0, 1, 3, 6)} | {0}):
            s = f"S{len(seps):03d}"
            seps[s] = tuple(sep)
            table[s] = {ph: ([("gauss", off, 40.0, 2.0)], "noisy")}
            s = f"S{len(seps):03d}"
            seps[s] = tuple(sep)
            table[s] = {"P": ([], "noisy"), "S": ([], "noisy")}
            table[s][ph] = ([("gauss", off, 40.0, 2.0)], "noisy")
    check_picks(ctx, f"marginal window {mw}, fraction {frac}", seps, table, "percentile", 1.0,
                mw=mw, frac=frac, clean=True)
    ctx.sample(marginal_window=mw, fraction=frac, traveltimes=sep)
    _ = locatelib


CHANNELS = ("HHZ", "BHZ", "HHN", "HHE")


def seed_cases(tier):
    for status in itertools.product(("good", "short", "none"), repeat=len(CHANNELS)):
        if "good" in status:
            yield list(status)


def run_seed(case, ctx):
    """With write_seed_ids every row names the channels its onset was computed from, and the
    picks are those made without."""
    import ast

    from obspy import Stream, Trace

    from quakemigrate.io import Run
    from quakemigrate.io.data import WaveformData
    from quakemigrate.io.event import Event
    from quakemigrate.signal.onsets import STALTAOnset
    from quakemigrate.signal.pickers import GaussianPicker

    stations = ("B2", "A")
    lut = world.make_lut((3, 3, 3), (1.0, 1.0, 1.0), stations, ("P", "S"), fraction_tt=0.1,
                         tt=lambda s, ph, ijk: np.full(ijk[0].shape, 1.0 + 0.6 * (ph == "S")))
    start, end = T0 - 12, T0 + 12
    n = 24 * SR + 1
    d = ctx.tmp()
    out = []
    for ids in (False, True):
        st = Stream()
        for s in stations:
            for k, cha in enumerate(CHANNELS):
                what = case[k] if s == "A" else "good"
                if what == "none":
                    continue
                i = np.arange(n if what == "good" else n - 40)
                at = (13.0 if cha[-1] == "Z" else 13.6) * SR
                y = np.sin(i * (1.7 + 0.3 * k)) + 40 * np.where(
                    i >= at, np.exp(-(i - at) / 20.0), 0) * np.sin(i * 1.3)
                st += Trace(y, dict(network="N", station=s, channel=cha, sampling_rate=SR,
                                    starttime=start))
        onset = STALTAOnset(sampling_rate=SR, position="centred", all_channels=False,
                            bandpass_filters={"P": [2, 16, 2], "S": [2, 14, 2]},
                            sta_lta_windows={"P": [0.2, 1.0], "S": [0.2, 1.0]})
        onset.post_pad = lut.max_traveltime
        picker = GaussianPicker(onset=onset, write_seed_ids=ids)
        ev = Event(MW, pd.Series(dict(EventID="20151231235959500", CoaTime=T0, TRIG_COA=1.0,
                                      COA=1.0, COA_NORM=1.0)))
        data = WaveformData(start, end, pd.Series(stations))
        data.waveforms = st
        ev.add_waveform_data(data)
        ev.otime = T0
        ev.add_spline_location(lut.index2coord([[1, 1, 1]])[0])
        run = Run(str(d), f"run{int(ids)}", "", "locate")
        ev, df = picker.pick_phases(ev, lut, run)
        with open(run.path / "locate" / "picks" / "20151231235959500.picks") as f:
            out.append(list(csv.DictReader(f)))
    ctx.count(case, nontrivial=case.count("good") < len(CHANNELS))
    plain, named = out
    rows = [(r["Station"], r["Phase"]) for r in named]
    good = [c for c, w in zip(CHANNELS, case) if w == "good"]
    use = {(s, p): [c for c in (CHANNELS if s == "B2" else good)
                    if (c[-1] == "Z") == (p == "P")] for s in stations for p in "PS"}
    want = {k: sorted(f"N.{k[0]}..{c}" for c in v) for k, v in use.items() if v}
    ctx.check(sorted(rows) == sorted(want), "pick-rows", lambda: f"{case}: {rows}")
    for a, b in zip(plain, named):
        have = ast.literal_eval(b["SEED_ids"])
        ctx.check(have == want[b["Station"], b["Phase"]], "seed-ids", lambda: f"{case}: {b}")
        ctx.check({k: v for k, v in b.items() if k != "SEED_ids"} == a, "picks-differ",
                  lambda: f"{case}: {a} {b}")
        ctx.add(made=int(a["PickTime"] != "-1"))


def groups():
    return [Group("clean-pulses", clean_cases, run_clean), Group("shapes", shape_cases, run_shapes),
            Group("window-size", width_cases, run_width),
            Group("seed-ids", seed_cases, run_seed)]
