import csv
import itertools
import math

import numpy as np
from obspy import UTCDateTime

from qmmc import archlib, detectlib, locatelib, world
from qmmc.core import Group

LEVEL = "exploration"
RULE = ("pads: one evaluation = Onset.pad for one sampling rate, window pair, maximum traveltime and "
        "time span; archive: one evaluation = one real detect over a real archive of complete data, "
        "STA/LTA onsets, every step of which must be computed, from requests of the right length; "
        "requests: one evaluation = one detect or locate of which only the data windows asked for are "
        "judged; synthetic / locate: one evaluation = one real detect / locate over onsets whose value "
        "identifies the absolute sample, so that number, time and value of every coalescence sample "
        "are compared with the definition. Distinct by parameters.")
ASSUMPTIONS = ["integer sampling rates; time steps, marginal windows and scan times on the sampling "
               "grid (the pads, STA/LTA windows and traveltimes need not be)"]

RATES = [10, 20, 25, 30, 40, 50, 60, 100, 125, 128, 200, 250]
STATIONS = ("AA1", "B2")


def onset_for(sr, stas, ltas, **kw):
    from quakemigrate.signal.onsets import STALTAOnset

    return STALTAOnset(position=kw.get("position", "classic"), sampling_rate=sr,
                       bandpass_filters={p: [sr * 0.1, sr * 0.3, 2] for p in "PS"},
                       sta_lta_windows={p: [a, b] for p, a, b in zip("PS", stas, ltas)})


WINDOWS = [((0.2, 0.2), (1.0, 1.0)), ((0.2, 0.3), (1.45, 1.0)), ((0.07, 0.1), (0.67, 1.13)),
           ((0.013, 0.02), (0.2, 0.333)), ((0.4, 0.8), (2.0, 4.01)), ((0.1, 0.1), (0.95, 0.55))]


# --- pads -----------------------------------------------------------------------------
def pad_cases(tier):
    for sr in RATES + [1, 2, 5, 500, 1000]:
        yield sr


def run_pad(sr, ctx):
    spans = [k / 100 for k in range(0, 1200, 7)] + [k / 3 for k in range(20)] + \
            [30, 60, 120, 299.99, 300, 750, 1800, 3600]
    for stas, ltas in WINDOWS:
        for tt in (0.0, 0.1, 1.0, 1.23, 3.999, 5.05, 17.3, 60.01):
            for span in spans:
                onset = onset_for(sr, stas, ltas)
                onset.post_pad = tt
                pre, post = onset.pad(span)
                lab = f"sr {sr}, STA {stas}, LTA {ltas}, max traveltime {tt}, span {span}"
                ctx.count((sr, stas, tt, span))
                for name, pad in (("pre", pre), ("post", post)):
                    ctx.check(abs(pad * sr - round(pad * sr)) < 1e-5, "pad-not-whole-samples",
                              lambda: f"{lab}: {name}-pad {pad} s = {pad * sr} samples")
                need_pre = max(ltas) + 3 * max(stas)
                need_post = math.ceil(tt + 2 * max(ltas))
                total = pre + span + post
                # the windows, plus the 5% of the data that is tapered at each end
                ctx.check(pre >= need_pre + 0.05 * total - 1e-9 and pre >= need_pre, "pre-pad-short",
                          lambda: f"{lab}: {pre}")
                ctx.check(post >= need_post + 0.05 * total - 1e-9 and post >= tt, "post-pad-short",
                          lambda: f"{lab}: {post}")
                ctx.check(pre <= need_pre + 0.08 * (span + need_pre + need_post) + 1 + 2 / sr
                          and post <= need_post + 0.08 * (span + need_pre + need_post) + 1 + 2 / sr,
                          "pad-too-long", lambda: f"{lab}: {pre}, {post}")
    ctx.sample(sampling_rate=sr)


# --- detect over a real archive ----------------------------------------------------------
def archive_cases(tier):
    lists = {"quick": [1.0, 0.51, 2.5, 7.13], "thorough": [0.29, 0.51, 0.57, 1.0, 1.13, 2.0, 2.5,
                                                            3.33, 4.35, 5.0, 7.13, 10.0]}
    for sr in RATES:
        for w in range(len(WINDOWS)):
            for tt in ((1.3,) if tier == "quick" else (0.4, 1.3, 2.77)):
                for start in ("2019-12-31T23:59:57", "2020-03-01T12:00:00.5"):
                    yield [sr, w, tt, lists[tier], start]


class Recorder:
    """Passes requests on to the real archive and remembers them."""

    def __init__(self, archive):
        self.archive = archive
        self.requests = []

    def __getattr__(self, name):
        return getattr(self.archive, name)

    def __str__(self, *a, **k):
        return str(self.archive)

    def read_waveform_data(self, *args, **kw):
        self.requests.append(args)
        return self.archive.read_waveform_data(*args, **kw)


def run_archive(case, ctx):
    from quakemigrate.io import Archive

    sr, w, tt, steps, start = case
    stas, ltas = WINDOWS[w]
    t0 = UTCDateTime(start)
    i0 = int(math.ceil(world.sample_index(t0, sr)))
    t0 = archlib.time_of(i0, sr)
    d = ctx.tmp()
    segs = {(s, c): [(i0 - 40 * sr, i0 + 60 * sr)] for s in STATIONS
            for c in ("HHZ", "HHN", "HHE")}
    archlib.write_archive(d / "a", sr, segs, archlib.noisy)
    lut = world.make_lut((2, 1, 2), (1.0, 1.0, 1.0), STATIONS, ("P", "S"), spread=tt / 2.0)
    ttmax = max(float(np.max(g)) for v in lut.traveltimes.values() for g in v.values())
    for k, step in enumerate(steps):
        n = max(1, round(step * sr))
        step = n / sr
        archive = Recorder(Archive(d / "a", archlib.station_frame(STATIONS),
                                   archive_format="YEAR/JD/*_STATION_*"))
        onset = onset_for(sr, stas, ltas)
        scan = detectlib.make_scan(d, lut, archive, onset, name=f"r{k}", timestep=step, threads=1)
        nsteps = 2
        scan.detect(str(t0), str(t0 + nsteps * step - 0.5 / sr))
        lab = f"sr {sr}, STA {stas}, LTA {ltas}, max traveltime {ttmax}, step {step}, start {t0}"
        ctx.count((sr, w, tt, step, start))
        nsteps = len(archive.requests)
        ctx.check(nsteps == 2, "steps", lambda: f"{lab}: {archive.requests}")
        for j, (a, b, *_) in enumerate(archive.requests):
            for t in (a, b):
                x = t.ns * sr / 1e9
                frac = abs(t.ns * sr % 1_000_000_000)
                frac = min(frac, 1_000_000_000 - frac) / 1e9
                ctx.check(frac < 1e-4, "request-off-sample", lambda: f"{lab}: {t} is {x} samples")
            ja, jb = world.sample_index(a, sr), world.sample_index(b, sr)
            ctx.check(ja <= i0 + j * n - sr * (max(ltas) + 3 * max(stas)) + 1e-6,
                      "request-starts-late", lambda: f"{lab}: {a}")
            ctx.check(jb >= i0 + (j + 1) * n - 1 + sr * ttmax, "request-ends-early",
                      lambda: f"{lab}: {b}")
        for f in sorted((d / f"r{k}" / "detect" / "availability").iterdir()):
            with open(f) as fh:
                for row in list(csv.reader(fh))[1:]:
                    ctx.check(all(int(v) == 1 for v in row[1:]), "complete-data-rejected",
                              lambda: f"{lab}: {row}")
        got = detectlib.collect(d / f"r{k}", sr)
        for ch, (idx, val, _) in got.items():
            ctx.check(np.array_equal(idx, np.arange(i0, i0 + nsteps * n)), "sample-count",
                      lambda: f"{lab}: {ch}: {len(idx)} samples from {idx[0] - i0} to "
                              f"{idx[-1] - i0}, wanted {nsteps * n}")
        ctx.check(bool(np.all(got["COA"][1] > 0)), "zero-coalescence", lab)
        ctx.add(samples=nsteps * n)
    ctx.sample(sampling_rate=sr, windows=WINDOWS[w], traveltime=tt, start=start)


# --- detect over synthetic onsets -----------------------------------------------------------
def synth_cases(tier):
    for sr in RATES:
        for pre in (0, 1, 3.3):
            for tt in (0.0, 0.15, 1.0, 1.23, 2.77):
                yield [sr, pre, tt, 5 if tier == "quick" else 25]


def run_synth(case, ctx):
    sr, pre, tt, nlen = case
    for n in range(1, nlen + 1):
        step = n if n < 4 else (n * sr) // 3 + 1
        for start in ("2020-01-01T00:00:00", "2019-12-31T23:59:59"):
            lut = world.make_lut((2, 1, 2), (1.0, 1.0, 1.0), STATIONS, ("P", "S"), spread=tt / 2.0)
            r = detectlib.DetectRun(ctx.tmp(), sr, step, start, ["ok", "ok"], False, lut=lut,
                                    pre=pre * 10)
            r.end = r.start + (2 * step - 0.5) / sr
            r.run()
            ctx.count((sr, pre, tt, n, start))
            detectlib.check_store(ctx, r, f"sr {sr}, pre-pad {pre}, traveltimes x {tt}, step {step} "
                                          f"samples, start {start}")
            ctx.clean()


# --- locate ----------------------------------------------------------------------------------
def locate_cases(tier):
    halves = [0.29, 0.57, 0.58, 1.13, 0.5, 1.0, 0.1, 1.45, 2.01] if tier == "quick" else \
        [k / 100 for k in range(6, 240, 3)] + [0.29, 0.57, 0.58, 1.13, 2.01]
    for sr in RATES:
        for mw in halves:
            for k, t in enumerate(("2020-03-01T12:00:00", "2019-12-31T23:59:59.9")):
                yield [sr, mw, t, (sr + k) % 3]


def picker_class():
    from quakemigrate.signal.pickers.base import PhasePicker

    class Capture(PhasePicker):
        def __init__(self):
            super().__init__(plot_picks=False)
            self.seen = []

        def pick_phases(self, event, lut, run):
            self.seen.append((event.coa_data.copy(), event.otime, event.trigger_time,
                              event.map4d.shape))
            return event, None

    return Capture()


def run_locate(case, ctx):
    sr, mw, t, off = case
    n = max(2, round(mw * sr))
    mw = n / sr
    i0 = world.sample_index(UTCDateTime(t), sr)
    t0 = archlib.time_of(i0, sr)
    lut = world.make_lut((2, 3, 2), (1.0, 1.0, 1.0), STATIONS, ("P", "S"), spread=0.3)
    src = locatelib.Source(lut, sr, [(archlib.time_of(i0 + off, sr), (1, 1, 0), 6.0)],
                           sigma=1.5 / sr)
    archive = world.FakeArchive(STATIONS)
    onset = world.onset_class()(STATIONS, ("P", "S"), sr, src, pre=0.2)
    picker = picker_class()
    d = ctx.tmp()
    scan = locatelib.make_scan(d, lut, archive, onset, picker=picker, mw=mw, write_coalescence=True)
    scan.locate(trigger_file=locatelib.write_trigger_file(d / "t.csv",
                                                          locatelib.trigger_rows([t0])))
    lab = f"sr {sr}, marginal window {mw} s ({n} samples), trigger {t0}, peak {off} samples later"
    ctx.count(str(case))
    coa, norm, coord, flat = detectlib.reference(lut, src, sr, i0 - 2 * n, i0 + 2 * n)
    k = int(coa.argmax())
    (npy,) = list((d / "run" / "locate").rglob("*.npy")) or [None]
    shape = np.load(npy).shape
    ctx.check(shape == (2, 3, 2, 4 * n + 1), "locate-map-length",
              lambda: f"{lab}: 4-D map {shape}, {4 * n + 1} samples wanted")
    m4 = np.load(npy).reshape(-1, 4 * n + 1)
    ctx.check(np.allclose(m4, flat, rtol=1e-6), "locate-map-values", lab)
    if abs(k - 2 * n) >= n:
        ctx.check(not picker.seen, "event-outside-window", lab)
        return
    ctx.check(len(picker.seen) == 1, "no-event", lab)
    data, otime, trig, mshape = picker.seen[0]
    ctx.check(world.sample_index(otime, sr) == i0 - 2 * n + k and
              abs(otime.ns - archlib.time_of(i0 - 2 * n + k, sr).ns) < 2000, "origin-time",
              lambda: f"{lab}: {otime}, peak at sample {k}")
    ctx.check(trig == t0, "trigger-time", lab)
    idx = np.array([world.sample_index(x, sr) for x in data["DT"]])
    want = np.arange(i0 - 2 * n + k - n, i0 - 2 * n + k + n + 1)
    # the first and last sample of the window may fall either side of rounding
    core = np.intersect1d(idx, want[1:-1])
    ctx.check(len(core) == len(want) - 2 and len(idx) <= len(want)
              and bool(np.all(np.isin(idx, want))), "marginal-window",
              lambda: f"{lab}: {len(idx)} samples {idx[0] - i0}..{idx[-1] - i0}, wanted {len(want)} "
                      f"{want[0] - i0}..{want[-1] - i0}")
    for col, ref in (("COA", coa), ("COA_NORM", norm)):
        bad = np.flatnonzero(np.abs(np.asarray(data[col], float) - ref[idx - i0 + 2 * n]) > 1e-6)
        ctx.check(not len(bad), "locate-values", lambda: f"{lab}: {col} at {data['DT'][bad[0]]}")
    ctx.sample(sampling_rate=sr, marginal_window=mw, trigger=str(t0))


# --- the data asked for ----------------------------------------------------------------
def request_cases(tier):
    rates = (20, 50, 128) if tier == "quick" else RATES
    for sr in rates:
        for w in range(len(WINDOWS)):
            for tt in (0.0, 1.23, 17.3):
                yield [sr, w, tt]


def run_requests(case, ctx):
    """What detect and locate read leaves room for the windows, traveltimes and tapering."""
    sr, w, tt = case
    stas, ltas = WINDOWS[w]
    need_pre, need_post = max(ltas) + 3 * max(stas), tt + 2 * max(ltas)
    lut = world.make_lut((2, 3, 2), (1.0, 1.0, 1.0), STATIONS, ("P", "S"), spread=0.0)
    for station in lut.traveltimes.values():
        for ph in station:
            station[ph] = np.full_like(station[ph], tt)

    def judge(lab, first, last, request):
        a, b = (x.ns / 1e9 for x in request[:2])
        first, last = first.ns / 1e9, last.ns / 1e9
        taper = 0.05 * (b - a)
        ctx.check(first - a >= need_pre + taper - 2 / sr, "request-starts-late",
                  lambda: f"{lab}: {first - a} s before the window, {need_pre} s and {taper} s of taper wanted")
        ctx.check(b - last >= need_post + taper - 2 / sr, "request-ends-early",
                  lambda: f"{lab}: {b - last} s after the window, {need_post} s and {taper} s of taper wanted")

    t0 = UTCDateTime("2019-12-31T23:59:50")
    for mw in (0.5, 2.0, 10.0, 30.0, 60.0):
        archive = world.FakeArchive(STATIONS, lambda n, a, b: "empty")
        d = ctx.tmp()
        scan = locatelib.make_scan(d, lut, archive, onset_for(sr, stas, ltas), picker=picker_class(), mw=mw)
        times = [t0, t0 + 5 * mw]
        scan.locate(trigger_file=locatelib.write_trigger_file(d / "t.csv", locatelib.trigger_rows(times)))
        lab = f"locate, sr {sr}, windows {stas} {ltas}, traveltime {tt}, marginal window {mw}"
        ctx.count(lab)
        ctx.check(len(archive.requests) == 2, "requests", lambda: f"{lab}: {len(archive.requests)}")
        for t, r in zip(times, archive.requests):
            judge(lab, t - 2 * mw, t + 2 * mw, r)
    for step in (1.0, 10.0, 120.0, 300.0, 1800.0):
        archive = world.FakeArchive(STATIONS, lambda n, a, b: "empty")
        d = ctx.tmp()
        scan = detectlib.make_scan(d, lut, archive, onset_for(sr, stas, ltas), timestep=step)
        scan.detect(str(t0), str(t0 + 3 * step))
        lab = f"detect, sr {sr}, windows {stas} {ltas}, traveltime {tt}, time step {step}"
        ctx.count(lab)
        ctx.check(len(archive.requests) == 3, "requests", lambda: f"{lab}: {len(archive.requests)}")
        for k, r in enumerate(archive.requests):
            judge(lab, t0 + k * step, t0 + (k + 1) * step - 1 / sr, r)
    ctx.sample(sampling_rate=sr, windows=[stas, ltas], traveltime=tt)


def groups():
    return [Group("requests", request_cases, run_requests),
            Group("pads", pad_cases, run_pad), Group("archive", archive_cases, run_archive),
            Group("synthetic", synth_cases, run_synth), Group("locate", locate_cases, run_locate)]
