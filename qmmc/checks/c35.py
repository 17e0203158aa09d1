"""Runs and sub-runs stay apart, and every stage works on its own run's results."""

import itertools
import os
import pathlib
import shutil

from qmmc import world
from qmmc.checks import c30, c32
from qmmc.core import Group

LEVEL = "exploration"
RULE = ("histories: one evaluation = one operation (detect; trigger with one of two thresholds; locate; reading "
        "the catalogue) of one run and sub-run after a history of such operations over one directory; the whole "
        "tree afterwards must be the one of a model in which each run and sub-run has its own state, and whose "
        "entries are the bytes that the operation gives when it is alone in an empty directory with the results "
        "it builds on. All histories up to the depth, from every set of detected runs. names: one evaluation = "
        "detect, trigger, locate and read of one run with one name, sub-name and way of giving the path, which "
        "must give the files of the plain run at the places that follow from the names. Non-trivial: another run "
        "or sub-run has results.")
ASSUMPTIONS = ["'.' in a name is replaced by '_' in all stages, as the program says, so the pair 'a.b' and 'a_b' is one name",
               "names without path separators", "log files are outside the property"]

SR = c30.SR
A, B = c30.A, c30.B
THR = {"lo": 1.35, "hi": 1.55}


def plain(s):
    return s.replace(".", "_")


class World:
    def __init__(self, ctx):
        self.base = ctx.tmp()
        c30.build_archive(self.base / "archive")
        self.refs = {}


def objects(path, archive_path, name, sub, plots=False):
    from quakemigrate.io import Archive
    from quakemigrate.signal import QuakeScan
    from quakemigrate.signal.local_mag import LocalMag
    from quakemigrate.signal.onsets import STALTAOnset
    from quakemigrate.signal.pickers import GaussianPicker
    from qmmc import archlib
    from qmmc.checks.c31 import inventory

    archive = Archive(archive_path, archlib.station_frame(c30.STATIONS), archive_format="YEAR/JD/*_STATION_*",
                      response_inv=inventory(), response_removal_params=dict(water_level=60.0))
    onset = STALTAOnset(position="classic", sampling_rate=SR)
    onset.bandpass_filters = {"P": [2, 8, 2], "S": [2, 8, 2]}
    onset.sta_lta_windows = {"P": [0.2, 1.0], "S": [0.2, 1.0]}
    picker = GaussianPicker(onset=onset, plot_picks=plots)
    mags = LocalMag(dict(signal_window=1.0, noise_window=1.0), dict(A0="Hutton-Boore"), plot_amplitudes=plots)
    # another run has another lookup table, so that its results differ
    scan = QuakeScan(archive, c30.table(plain(name) == "run_x"), onset, path, name, run_subname=sub, picker=picker,
                     mags=mags, marginal_window=0.4, plot_event_summary=plots, threads=1, timestep=6.0,
                     write_cut_waveforms=True, write_marginal_coalescence=True)
    scan.pre_cut, scan.post_cut = 0.5, 2.0
    return scan


def trigger(path, name, sub, thr, plots=False):
    from quakemigrate.signal import Trigger

    t = Trigger(c30.table(plain(name) == "run_x"), path, name, trigger_name=sub, plot_trigger_summary=plots,
                marginal_window=0.4, min_event_interval=0.8, pad=2.0, threshold_method="static",
                static_threshold=THR[thr], normalise_coalescence=True)
    t.trigger(str(A[0]), str(B[1]))


def perform(path, archive_path, op):
    """The exception's name, or None"""
    kind, name, sub, thr = op
    try:
        if kind == "d":
            objects(path, archive_path, name, "").detect(str(A[0]), str(B[1]))
        elif kind == "t":
            trigger(path, name, sub, thr)
        else:
            objects(path, archive_path, name, sub).locate(starttime=str(A[0]), endtime=str(B[1]))
    except Exception as e:
        return type(e).__name__
    return None


def tree(d):
    return {k: v for k, v in world.tree(d).items() if not k.endswith(".log")}


def write(d, files):
    for k, v in files.items():
        f = pathlib.Path(d) / k
        f.parent.mkdir(parents=True, exist_ok=True)
        f.write_bytes(v)


class Model:
    """Each run has its scan; each sub-run its triggered events and what was located."""

    def __init__(self, ctx, w):
        self.ctx, self.w = ctx, w
        self.scans, self.triggered, self.located = {}, {}, {}

    def copy(self):
        m = Model(self.ctx, self.w)
        m.scans, m.triggered = dict(self.scans), dict(self.triggered)
        m.located = {k: dict(v) for k, v in self.located.items()}
        return m

    def alone(self, op, given):
        """(error, files made) of an operation in an empty directory but for the given files"""
        key = (op, tuple(sorted(given)), hash(tuple(sorted(given.items()))))
        if key not in self.w.refs:
            d = self.ctx.tmp()
            write(d, given)
            err = perform(str(d), self.w.base / "archive", op)
            self.w.refs[key] = err, {k: v for k, v in tree(d).items() if given.get(k) != v}
            shutil.rmtree(d)
        return self.w.refs[key]

    def apply(self, op):
        kind, name, sub, _ = op
        n, s = plain(name), plain(sub)
        if kind == "d":
            err, made = self.alone(op, {})
            self.scans[n] = made
        elif kind == "t":
            scan = {k: v for k, v in self.scans.get(n, {}).items() if "/scanmseed/" in k}
            err, made = self.alone(op, scan)
            if err is None:
                self.triggered[n, s] = made
        else:
            err, made = self.alone(op, self.triggered.get((n, s), {}))
            self.located.setdefault((n, s), {}).update(made)
        return err

    def tree(self):
        out = {}
        for part in (self.scans, self.triggered, self.located):
            for files in part.values():
                out.update(files)
        return out


def operate(ctx, model, d, history, op):
    want_err = model.apply(op)
    err = perform(str(d), model.w.base / "archive", op)
    label = f"after {[' '.join(h) for h in history]}, {' '.join(op)}"
    ctx.count((tuple(history), op), nontrivial=bool(history))
    ctx.check(err == want_err, "outcome", lambda: f"{label} gives {err}; alone {want_err}")
    got, want = tree(d), model.tree()
    diff = sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))
    ctx.check(not diff, "runs-mixed", lambda: f"{label}: {diff[:4]} are not those of the run alone")
    ctx.add(files_compared=len(got))
    if op[0] == "l":
        catalogues(ctx, label, d, model)


def catalogues(ctx, label, d, model):
    from quakemigrate.export.to_obspy import read_quakemigrate

    for n, s in sorted({(o[1], o[2]) for o in OPS}):
        n, s = plain(n), plain(s)
        got = sorted(str(e.resource_id).split("/")[-1] for e in
                     read_quakemigrate(str(pathlib.Path(d) / n), "km", run_subname=s))
        want = sorted(pathlib.Path(k).stem for k in model.located.get((n, s), {}) if k.endswith(".event"))
        ctx.check(got == want, "catalogue", lambda: f"{label}: catalogue of {n} {s!r}: {got}, located {want}")
        ctx.add(catalogues=1)


RUNS = [("run", ""), ("run", "x"), ("run", "y.z"), ("run_x", "")]
OPS = [("t", n, s, t) for n, s in RUNS for t in (("lo", "hi") if n == "run" else ("lo",))] + \
      [("l", n, s, "") for n, s in RUNS]


def explore(ctx, model, d, history, depth):
    for op in OPS:
        e = ctx.tmp()
        shutil.copytree(d, e, dirs_exist_ok=True)
        m = model.copy()
        operate(ctx, m, e, history, op)
        if depth > 1:
            explore(ctx, m, e, history + [op], depth - 1)
        shutil.rmtree(e)


def run_histories(case, ctx):
    w = World(ctx)
    model = Model(ctx, w)
    d = ctx.tmp()
    history = []
    for op in case["history"]:
        operate(ctx, model, d, history, tuple(op))
        history.append(tuple(op))
    if case["depth"]:
        explore(ctx, model, d, history, case["depth"])
    shutil.rmtree(w.base)
    ctx.sample(**case)


def history_cases(tier):
    detected = [[], [("d", "run", "", "")], [("d", "run", "", ""), ("d", "run_x", "", "")]]
    for first in OPS:
        for pre in detected[:2]:
            yield dict(history=pre + [first], depth=1 if tier == "thorough" else 0)
        for second in OPS:
            yield dict(history=detected[2] + [first, second], depth=2 if tier == "thorough" else 1)
    # everything triggered before
    triggered = detected[2] + [("t", n, s, t) for (n, s), t in zip(RUNS, ("lo", "hi", "lo", "lo"))]
    for first in OPS:
        yield dict(history=triggered + [first], depth=2 if tier == "thorough" else 1)
    # detect again, between the other stages of other runs
    for n in ("run", "run_x"):
        for op in OPS:
            yield dict(history=detected[2] + [op, ("d", n, "", "")], depth=1 if tier == "thorough" else 0)


# -- names -----------------------------------------------------------------------------------------

NAMES = ["run", "run.1", "a.b.c", "2015_365", "run-x", "a run", "r\u00fcn", "run_", "events"]
SUBS = ["", "x", "v1.2", "2016_001", "a sub", "run"]
PATHS = ["str", "path", "slash", "relative", "dotted"]


def run_names(case, ctx):
    from quakemigrate.export.to_obspy import read_quakemigrate

    base = ctx.tmp()
    c30.build_archive(base / "archive")

    def pipeline(d, how, name, sub):
        d.mkdir(parents=True)
        path = {"str": str(d), "path": d, "slash": str(d) + "/", "relative": os.path.relpath(d),
                "dotted": str(d / "." / "..") + "/" + d.name}[how]
        with c32.Stub(True):
            objects(path, base / "archive", name, sub).detect(str(A[0]), str(B[1]))
            trigger(path, name, sub, "lo", plots=True)
            objects(path, base / "archive", name, sub, plots=True).locate(starttime=str(A[0]), endtime=str(B[1]))
        return tree(d)

    ref = pipeline(base / "ref", "str", "run", "")
    uids = sorted(pathlib.Path(k).stem for k in ref if k.endswith(".event"))
    for how, name, sub in case["cases"]:
        label = f"path as {how}, run {name!r}, sub-run {sub!r}"
        d = base / "top.dir" / f"d{len(name)}"
        files = pipeline(d, how, name, sub)
        ctx.count((how, name, sub))
        n, s = plain(name), plain(sub)
        want = {}
        for k, v in ref.items():
            parts = k.split("/")
            full = n + (f"_{s}" if s else "")
            if parts[-1].startswith("run_"):
                parts[-1] = full + parts[-1][3:]
            want["/".join([n, parts[1]] + ([s] if s and parts[1] != "detect" else []) + parts[2:])] = v
        diff = sorted(k for k in set(files) | set(want) if files.get(k) != want.get(k))
        ctx.check(not diff, "names", lambda: f"{label}: {diff[:4]} are not those of the plain run")
        got = sorted(str(e.resource_id).split("/")[-1] for e in read_quakemigrate(str(d / n), "km", run_subname=s))
        ctx.check(got == uids and uids, "catalogue", lambda: f"{label}: {got}, located {uids}")
        ctx.add(files_compared=len(files))
        shutil.rmtree(base / "top.dir")
    shutil.rmtree(base)
    ctx.sample(cases=case["cases"][:2])


def name_cases(tier):
    allc = [["str", n, s] for n, s in itertools.product(NAMES, SUBS)
            if tier == "thorough" or n == "run.1" or s in ("", "v1.2")] + \
           [[h, n, s] for h in PATHS[1:] for n, s in ((("run", ""), ("a.b", "c.d")) if tier == "quick" else
                                                     itertools.product(NAMES, SUBS))]
    for part in c32.chunks(allc, 8 if tier == "quick" else 16):
        yield dict(cases=part)


def groups():
    return [Group("names", name_cases, run_names, timeout=200),
            Group("histories", history_cases, run_histories, timeout=300)]

