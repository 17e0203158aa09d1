import copy
import functools
import itertools
import os
import pickle
import shutil
import traceback

import numpy as np
import pandas as pd
from obspy import UTCDateTime

from qmmc import archlib, locatelib, triglib, world
from qmmc.core import Group, Violation

LEVEL = "exploration"
RULE = ("one evaluation = one operation (detect over one of three spans, trigger with either of two "
        "thresholds, locate by span or from a file, runs that fail part of the way, and the same with "
        "a second scan that shares the onset, archive and picker) executed on shared objects after one "
        "history of such operations; the whole output tree is compared byte for byte with that of "
        "the operation by fresh objects from the same files, the result of an operation with the one "
        "it gives without the results of earlier runs, and every public setting, table and input file "
        "with what it was before; triggers: the same for one Trigger object over all sequences of runs with "
        "different spans, regions and thresholds. All histories up to the depth are explored as a tree of "
        "processes. "
        "Non-trivial: at least one operation came before.")
ASSUMPTIONS = ["log files are outside the property",
               "a located event's files remain when a later run over the same directory leaves it out"]

SR = 20
T0 = UTCDateTime("2015-12-31T23:59:48")
A = (T0, T0 + 12)
B = (T0 + 12, T0 + 24)
EMPTY = (T0 - 8, T0 + 4)         # begins before the data (which begin at -6 s)
STATIONS = locatelib.STATIONS
CHANNELS = ("HHZ", "HHN", "HHE")
NODE = (1, 3, 2)
SOURCES = (T0 + 3.2, T0 + 8.7, T0 + 15.4)
STATIC = (1.35, 50.0)


@functools.lru_cache(None)
def table(big):
    return locatelib.default_lut() if not big else locatelib.default_lut(shape=(4, 4, 3), spacing=(3.0, 2.0, 1.5),
                                                                         vp=3.0, vs=1.4)


def value(sta, cha, idx):
    lut = table(False)
    t = idx / SR
    y = 40 * np.sin(0.9 * idx + 3 * ord(sta[0])) + 25 * np.sin(2.3 * idx + ord(cha[-1]))
    for k, o in enumerate(SOURCES):
        for ph, size in (("P", 900 if cha == "HHZ" else 90), ("S", 60 if cha == "HHZ" else 1100)):
            dt = t - o.ns / 1e9 - lut.traveltimes[sta][ph][NODE]
            y = y + size * (1 + 0.3 * k) * np.where(dt > 0, dt / 0.08 * np.exp(1 - dt / 0.08), 0) * np.sin(25 * dt)
    return np.round(y).astype(np.int32)


def build_archive(root):
    i0, i1 = round((T0.ns / 1e9 - 6) * SR), round((T0.ns / 1e9 + 44) * SR)
    archlib.write_archive(root, SR, {(s, c): [(i0, i1)] for s in STATIONS for c in CHANNELS}, value=value)


class Objects:
    """Everything a user makes once: tables, archive, onset, picker, magnitudes, scans, triggers."""

    def __init__(self, path, archive_path, only=None):
        from quakemigrate.io import Archive
        from quakemigrate.signal import QuakeScan, Trigger
        from quakemigrate.signal.local_mag import LocalMag
        from quakemigrate.signal.onsets import STALTAOnset
        from quakemigrate.signal.pickers import GaussianPicker
        from qmmc.checks.c31 import inventory

        self.path = path
        self.stations = archlib.station_frame(STATIONS)
        self.inventory = inventory()
        # only=...: fresh objects for one operation; otherwise shared by everything
        table.cache_clear()
        self.luts = {"1": table(False), "2": table(True)}
        table.cache_clear()
        self.archive = Archive(archive_path, self.stations, archive_format="YEAR/JD/*_STATION_*",
                               response_inv=self.inventory,
                               response_removal_params=dict(water_level=60.0))
        self.onset = STALTAOnset(position="classic", sampling_rate=SR)
        self.onset.bandpass_filters = {"P": [2, 8, 2], "S": [2, 8, 2]}
        self.onset.sta_lta_windows = {"P": [0.2, 1.0], "S": [0.2, 1.0]}
        self.picker = GaussianPicker(onset=self.onset, plot_picks=False)
        self.mags = LocalMag(dict(signal_window=1.0, noise_window=1.0),
                             dict(A0="Hutton-Boore", use_hyp_dist=True), plot_amplitudes=False)
        self.scans, self.triggers = {}, {}
        for w, step in (("1", 6.0), ("2", 12.0)):
            if only is None or only[-1] == w:
                self.scans[w] = QuakeScan(self.archive, self.luts[w], self.onset, str(path), "run" + w,
                                          picker=self.picker, mags=self.mags if w == "1" else None,
                                          marginal_window=0.4, plot_event_summary=False, threads=1,
                                          timestep=step, write_cut_waveforms=True,
                                          write_marginal_coalescence=w == "2")
                if w == "1":
                    self.scans[w].pre_cut, self.scans[w].post_cut = 0.5, 2.0
        for k, thr in enumerate(STATIC):
            for w in self.scans:
                self.triggers["tT"[k] + w] = Trigger(
                    self.luts[w], str(path), "run" + w, plot_trigger_summary=False, marginal_window=0.4,
                    min_event_interval=0.8, pad=2.0, threshold_method="static", static_threshold=thr,
                    normalise_coalescence=True, smooth_coa=w == "2", smoothing_kernel_sigma=0.1)

    def settings(self):
        out = dict(onset=self.onset, archive=self.archive, picker=self.picker, amp=self.mags.amp,
                   mag=self.mags.mag, stations=self.stations, inventory=self.inventory.get_contents(),
                   **{"lut" + k: v for k, v in self.luts.items()},
                   **{"scan" + k: v for k, v in self.scans.items()},
                   **{"trigger" + k: v for k, v in self.triggers.items()})
        return {k: flat(v) for k, v in out.items()}


INTERNAL = {"pre_pad", "post_pad", "stage", "run", "onset", "picker", "archive", "lut", "mags", "response_inv",
            "amp", "mag"}


def flat(x, depth=0):
    """A comparable picture of the public state of an object."""
    if isinstance(x, np.ndarray):
        return (x.shape, str(x.dtype), x.tobytes() if x.dtype != object else repr(x.tolist()))
    if isinstance(x, (pd.DataFrame, pd.Series)):
        return x.to_json(orient="split", double_precision=15)
    if isinstance(x, dict):
        return {str(k): flat(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [flat(v, depth + 1) for v in x]
    if isinstance(x, (str, int, float, bool, bytes, type(None), np.generic)):
        return repr(x)
    if isinstance(x, (os.PathLike, UTCDateTime)) or not type(x).__module__.startswith("quakemigrate"):
        return str(x)
    return {k: flat(v, depth + 1) for k, v in vars(x).items() if not k.startswith("_") and k not in INTERNAL}


def changed(a, b, at=""):
    """First difference in what was there before (new attributes are no matter)."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                return f"{at}.{k} gone"
            c = changed(a[k], b[k], f"{at}.{k}")
            if c:
                return c
        return None
    return None if a == b else f"{at}: {str(a)[:80]} -> {str(b)[:80]}"


class Fault(Exception):
    pass


def failing(archive, n):
    """Reading raises (a signal, a disk error) at the n-th request of this run."""
    real, seen = archive.read_waveform_data, []

    def read(*args, **kw):
        seen.append(1)
        if len(seen) == n:
            raise Fault("reading failed")
        return real(*args, **kw)

    archive.read_waveform_data = read
    return lambda: archive.__dict__.pop("read_waveform_data")


FILE_TIMES = (SOURCES[0] + 0.1, SOURCES[2] - 0.1, T0 + 40)      # the last without enough data
OPS = ["dA1", "dB1", "dE1", "dX1", "t1", "T1", "lS1", "lF1", "lX1", "dA2", "t2", "lF2", "lE1"]
SMALL = ["dA1", "dE1", "t1", "T1", "lS1", "lF1", "dA2", "lF2"]


def perform(objs, op, trigger_file):
    """Runs one operation; returns the exception's name or None."""
    w = op[-1]
    try:
        if op[0] == "d":
            span = {"A": A, "B": B, "E": EMPTY, "X": A}[op[1]]
            undo = failing(objs.archive, 2) if op[1] == "X" else None
            try:
                objs.scans[w].detect(str(span[0]), str(span[1]))
            finally:
                if undo:
                    undo()
        elif op[0] in "tT":
            objs.triggers[op[0] + w].trigger(str(A[0]), str(B[1]))
        elif op[1] == "S":
            objs.scans[w].locate(starttime=str(A[0]), endtime=str(B[1]))
        elif op[1] == "E":
            objs.scans[w].locate(starttime=str(A[1]))
        else:
            undo = failing(objs.archive, 2) if op[1] == "X" else None
            try:
                objs.scans[w].locate(trigger_file=trigger_file)
            finally:
                if undo:
                    undo()
    except Exception as e:
        return f"{type(e).__name__}: {e}"
    return None


PRODUCTS = {"d": "detect", "t": "trigger", "T": "trigger", "l": "locate"}


def alone(ctx, objs_path, op, archive, trigger_file, drop):
    """The operation by fresh objects in a copy of the directory (optionally without the
    results of earlier runs of the same stage)."""
    e = ctx.tmp()
    if any(objs_path.iterdir()):
        shutil.copytree(objs_path, e, dirs_exist_ok=True)
    if drop:
        shutil.rmtree(e / f"run{op[-1]}" / PRODUCTS[op[0]], ignore_errors=True)
    before = out_tree(e)
    err = perform(Objects(e, archive, only=op), op, trigger_file)
    after = out_tree(e)
    shutil.rmtree(e)
    return err, before, after


def out_tree(d):
    return {k: v for k, v in world.tree(d).items() if not k.endswith(".log")}


def step(ctx, objs, base, history, op):
    """One operation on the shared objects, with all comparisons."""
    archive, trigger_file = base / "archive", str(base / "t.csv")
    label = " ".join(history + [op])
    want_err, _, want = alone(ctx, objs.path, op, archive, trigger_file, False)
    clean_err, blank, clean = alone(ctx, objs.path, op, archive, trigger_file, True)
    before, settings = out_tree(objs.path), objs.settings()
    inputs = world.tree(archive), (base / "t.csv").read_bytes()
    err = perform(objs, op, trigger_file)
    got = out_tree(objs.path)
    ctx.count(label, nontrivial=bool(history))
    ctx.check(err == want_err, "outcome-depends-on-history",
              lambda: f"after {history}, {op} gives {err}; with fresh objects {want_err}")
    diff = sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))
    ctx.check(not diff, "results-depend-on-history",
              lambda: f"after {history}, {op} on the same objects gives other files than fresh "
                      f"ones: {diff[:4]} ({len(diff)})")
    # the results of earlier runs must not show in those of this one
    ctx.check(err == clean_err, "outcome-depends-on-files", lambda: f"{label}: {err}, {clean_err}")
    made = {k: v for k, v in clean.items() if blank.get(k) != v}
    diff = sorted(k for k in made if got.get(k) != made[k])
    ctx.check(not diff, "results-depend-on-earlier-results",
              lambda: f"{label}: {diff[:4]} differ from those made in a clean directory")
    if op[0] in "tT" and not err:
        # a trigger run gives the events of its days
        stale = sorted(k for k in got if k.startswith(f"run{op[-1]}/trigger/") and k not in clean and got[k].count(b"\n") > 1)
        ctx.check(not stale, "stale-triggered-events",
                  lambda: f"{label}: {stale} keep events of an earlier run that this one did not trigger")
    c = changed(settings, objs.settings())
    ctx.check(c is None, "settings-changed", lambda: f"{label}: {c}")
    ctx.check((world.tree(archive), (base / "t.csv").read_bytes()) == inputs, "inputs-changed", label)
    ctx.add(files_compared=len(got), files_changed=sum(before.get(k) != v for k, v in got.items()))


def explore(ctx, objs, base, history, ops, depth):
    """Every continuation of the history, each in a forked copy of the process."""
    for op in ops:
        saved = ctx.tmp()
        shutil.copytree(objs.path, saved, dirs_exist_ok=True)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            os.close(r)
            sub = type(ctx)()
            sub._rundir, sub._dirs = ctx._rundir, ctx._dirs
            res = None
            try:
                step(sub, objs, base, history, op)
                if depth > 1:
                    explore(sub, objs, base, history + [op], ops, depth - 1)
            except Violation as v:
                res = (v.sig, v.msg)
            except BaseException:
                res = ("exception", traceback.format_exc())
            with os.fdopen(w, "wb") as f:
                pickle.dump((res, sub.evals, sub.keys, dict(sub.counters)), f)
            os._exit(code)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            blob = f.read()
        os.waitpid(pid, 0)
        ctx.check(bool(blob), "process-died", lambda: f"{history + [op]}")
        res, evals, keys, counters = pickle.loads(blob)
        ctx.evals += evals
        ctx.keys |= keys
        ctx.counters.update(counters)
        if res:
            ctx.fail(*res)
        # put the directory back as it was before the operation
        shutil.rmtree(objs.path)
        shutil.copytree(saved, objs.path)
        shutil.rmtree(saved)


def run(case, ctx):
    base = ctx.tmp()
    build_archive(base / "archive")
    locatelib.write_trigger_file(base / "t.csv", locatelib.trigger_rows(FILE_TIMES))
    out = base / "out"
    out.mkdir()
    objs = Objects(out, base / "archive")
    # fingerprints must see tables: spoil nothing before the first operation
    history = []
    for op in case["history"]:
        step(ctx, objs, base, history, op)
        history.append(op)
    explore(ctx, objs, base, history, case["ops"], case["depth"])
    ctx.sample(**case)


def cases(tier):
    if tier == "quick":
        for a in OPS:
            yield dict(history=[a], ops=OPS, depth=1)
        for a in SMALL:
            for b in SMALL:
                yield dict(history=[a, b], ops=SMALL, depth=1)
    else:
        for a in OPS:
            for b in OPS:
                yield dict(history=[a, b], ops=OPS, depth=1)
        for a in SMALL:
            for b in SMALL:
                yield dict(history=[a, b], ops=SMALL, depth=2)


# --- one trigger object, many spans, regions and thresholds --------------------------------
TRIGGERS = {
    "static": dict(threshold_method="static", static_threshold=3.0),
    "static-smooth": dict(threshold_method="static", static_threshold=1.5, normalise_coalescence=True,
                          smooth_coa=True, write_event_time_windows=True),
    "mad": dict(threshold_method="mad", mad_multiplier=6.0, mad_window_length=40.0),
    "mad-short": dict(threshold_method="mad", mad_multiplier=6.0, mad_window_length=7.0, smooth_coa=True),
    "median": dict(threshold_method="median_ratio", median_multiplier=1.4, median_window_length=50.0),
}
TRIGGER_OPS = [("all", (10, 170), "none"), ("first-day", (10, 90), "none"), ("second-day", (90, 170), "part"),
               ("short", (29, 31), "none"), ("part", (10, 170), "part"), ("empty", (60, 130), "empty"),
               ("no-data", (4000, 4060), "none"), ("reversed", (100, 20), "none"), ("plot", (20, 120), "all")]


def trigger_cases(tier):
    depth = 2 if tier == "quick" else 3
    for name in TRIGGERS:
        for first in TRIGGER_OPS:
            yield dict(trigger=name, first=first[0], depth=depth)


def run_trigger(case, ctx):
    import matplotlib.pyplot as plt

    from quakemigrate.signal import Trigger
    from qmmc.checks import c32

    ops = {o[0]: o[1:] for o in TRIGGER_OPS}
    base = ctx.tmp()
    c32.trig_scan(base / "run", dict(availability="differs"))
    lut = c32.table((6, 7, 5), "lcc_km")
    kw = TRIGGERS[case["trigger"]]

    def make(d):
        return Trigger(lut, str(d), "run", pad=4.0, marginal_window=0.6, min_event_interval=1.2,
                       plot_trigger_summary=False, log=False, **kw)

    def do(t, op):
        span, reg = ops[op]
        t.plot_trigger_summary = op == "plot"
        region = c32.region(reg)
        args = copy.deepcopy(region)
        try:
            with c32.Stub(True):
                t.trigger(c32.TRIG_START + span[0], c32.TRIG_START + span[1], region=region)
        except Exception as e:
            return f"{type(e).__name__}: {e}"
        finally:
            plt.close("all")
            ctx.check(region == args, "region-changed", lambda: f"{case}: {op}")
        return None

    fresh = {}
    for op in ops:
        d = ctx.tmp()
        shutil.copytree(base, d, dirs_exist_ok=True)
        fresh[op] = do(make(d), op), {k: v for k, v in out_tree(d).items() if "/trigger/" in k}
        shutil.rmtree(d)
    for rest in itertools.product(ops, repeat=case["depth"] - 1):
        history = (case["first"],) + rest
        d = ctx.tmp()
        shutil.copytree(base, d, dirs_exist_ok=True)
        t = make(d)
        for k, op in enumerate(history):
            shutil.rmtree(d / "run" / "trigger", ignore_errors=True)
            before = flat(t)
            err = do(t, op)
            got = {k: v for k, v in out_tree(d).items() if "/trigger/" in k}
            label = f"{case['trigger']}: {' '.join(history[:k + 1])}"
            if k:
                ctx.count(label)
            ctx.check(err == fresh[op][0], "outcome-depends-on-history",
                      lambda: f"{label}: {err}, with a fresh object {fresh[op][0]}")
            ctx.check(got == fresh[op][1], "results-depend-on-history",
                      lambda: f"{label}: {sorted(k for k in set(got) | set(fresh[op][1]) if got.get(k) != fresh[op][1].get(k))} "
                              "differ from those by a fresh object")
            before["plot_trigger_summary"] = flat(t)["plot_trigger_summary"]
            c = changed(before, flat(t))
            ctx.check(c is None, "settings-changed", lambda: f"{label}: {c}")
            ctx.add(trigger_files=len(got))
        shutil.rmtree(d)
    ctx.sample(**case)


def groups():
    return [Group("histories", cases, run, timeout=600, isolate=True),
            Group("triggers", trigger_cases, run_trigger, timeout=300)]


_ = triglib
