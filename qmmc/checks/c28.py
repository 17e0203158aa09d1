import contextlib
import inspect
import io
import itertools
import os

import numpy as np
import pandas as pd
from obspy import Stream, Trace, UTCDateTime

from qmmc import detectlib, locatelib, world
from qmmc.checks import c25
from qmmc.core import Group

LEVEL = "exploration"
RULE = ("one evaluation = one combination of inputs or one order of setting coupled parameters "
        "handed to the real code: every unusable one must raise the documented error with no "
        "results written, every usable one must be accepted with the values as given. "
        "Non-trivial: the combination is unusable.")
ASSUMPTIONS = []


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def results(path):
    """Result files and directories under a run (log files are not results)."""
    return sorted(str(p.relative_to(path)) for p in path.rglob("*")
                  if p.is_file() and p.suffix != ".log")


def expect(ctx, label, call, error, sig):
    """`error`: exception class wanted, or None when the call must be accepted."""
    try:
        with quiet():
            out = call()
    except Exception as e:
        ctx.check(error is not None, "refused:" + sig, lambda: f"{label}: {e!r}")
        ctx.check(isinstance(e, error), "wrong-error:" + sig,
                  lambda: f"{label}: {e!r}, documented {error.__name__}")
        return None
    ctx.check(error is None, "accepted:" + sig, lambda: f"{label}: no error")
    return out


# -- files --------------------------------------------------------------------------------

COLUMNS = ("Latitude", "Longitude", "Elevation", "Name")


def station_cases(tier):
    for n in range(1, 5):
        for cols in itertools.permutations(COLUMNS, n):
            if tier == "quick" and n == 3 and list(cols) != sorted(cols):
                continue
            for extra in (0, 1):
                yield [list(cols), extra]


NAMES = [("ABC", "D1"), ("001", "07"), ("1E5", "2E3"), ("12", "345"), ("TRUE", "FALSE"),
         ("NA", "NULL"), ("A B", "nan"), ("0x1F", "-"), ("1_000", "inf"), ("07", "A")]


def run_stations(case, ctx):
    from quakemigrate import util
    from quakemigrate.io import read_stations

    cols, extra = case
    tmp = ctx.tmp()
    ok = set(cols) == set(COLUMNS)
    elevations = [(1.25, -0.5), (0, 0), (2, -3), (0.001, 1234.5)]
    for names, el in itertools.product(NAMES if ok else NAMES[:1], elevations):
        value = {"Latitude": (64.5, -12.25), "Longitude": (-17.125, 179.5), "Elevation": el,
                 "Name": names, "Network": ("XX", "YY"), "Lat": (1, 2)}
        head = list(cols) + (["Network", "Lat"] if extra else [])
        f = tmp / "stations.txt"
        f.write_text("\n".join([",".join(head)] + [",".join(str(value[c][i]) for c in head)
                                                   for i in (0, 1)]) + "\n")
        label = f"columns {head} names {names} elevations {el}"
        ctx.count((case, names, el), nontrivial=not ok)
        out = expect(ctx, label, lambda: read_stations(str(f)),
                     None if ok else util.StationFileHeaderException, "stations")
        if not ok:
            continue
        ctx.check(list(out["Name"]) == list(names) and all(isinstance(x, str) for x in
                                                           out["Name"]),
                  "station-names", lambda: f"{label}: {list(out['Name'])}")
        for c in ("Latitude", "Longitude"):
            ctx.check(list(out[c]) == list(value[c]), "station-values", label)
        ctx.check([float(x) for x in out["Elevation"]] == [-float(x) for x in el],
                  "station-depths", lambda: f"{label}: {list(out['Elevation'])}")
    if ok:   # other separators, through the documented passthrough
        f.write_text("\n".join([" ".join(cols), " ".join(str(value[c][0]) for c in cols)]))
        out = expect(ctx, "separator", lambda: read_stations(str(f), sep=r"\s+"), None, "sep")
        ctx.check(list(out["Name"]) == [names[0]], "station-names", f"{list(out['Name'])}")


def vmodel_cases(tier):
    cols = ("Depth", "Vp", "Vs", "Vsh")
    for n in range(5):
        for c in itertools.combinations(cols, n):
            yield [list(c)]


def run_vmodel(case, ctx):
    from quakemigrate import util
    from quakemigrate.io import read_vmodel
    from quakemigrate.lut import compute_traveltimes

    from qmmc.checks import c16

    cols = case[0]
    tmp = ctx.tmp()
    value = {"Depth": (-1.0, 2.5, 10.0), "Vp": (3.0, 4.5, 6.0), "Vs": (1.7, 2.5, 3.5),
             "Vsh": (1.6, 2.6, 3.6)}
    f = tmp / "v.txt"
    f.write_text("\n".join([",".join(cols)] + [",".join(str(value[c][i]) for c in cols)
                                               for i in range(3)]) + "\n")
    ok = "Depth" in cols
    if not cols:
        f.write_text("Other\n1\n")
    ctx.count(case, nontrivial=not ok)
    out = expect(ctx, f"columns {cols}", lambda: read_vmodel(str(f)),
                 None if ok else util.InvalidVelocityModelHeader, "vmodel")
    if not ok:
        return
    for c in cols:
        ctx.check(list(out[c]) == list(value[c]), "vmodel-values", c)
    gs, ll = c16.spec((3, 3, 3), (1.0, 1.0, 1.0), "lcc_km", 0.0)
    st = c16.stations(ll, "lcc_km", [(0.5, 0.5, 0.5)])
    for phases in (["P"], ["S"], ["P", "S"], ["Sh"], ["S", "Sh"]):
        have = all(f"V{p.lower()}" in cols for p in phases)
        ctx.count((case, phases), nontrivial=not have)
        expect(ctx, f"columns {cols}, phases {phases}",
               lambda: compute_traveltimes(gs, st, "1dfmm", phases=phases, vmod=out),
               None if have else util.InvalidVelocityModelHeader, "vmodel-phase")
        with c16.inside(tmp):          # without the programs of NonLinLoc
            expect(ctx, f"columns {cols}, phases {phases}, 1dnlloc",
                   lambda: compute_traveltimes(gs, st, "1dnlloc", phases=phases, vmod=out,
                                               nlloc_path=str(tmp / "none")),
                   FileNotFoundError if f"V{phases[0].lower()}" in cols
                   else util.InvalidVelocityModelHeader, "vmodel-phase-nlloc")


def response_cases(tier):
    for what in ("text", "empty", "binary", "truncated-xml", "sac", "good", "good-sac"):
        yield [what]


def run_response(case, ctx):
    from obspy.core.inventory import Inventory

    from quakemigrate.io import read_response_inv

    what = case[0]
    f = ctx.tmp() / "resp.xml"
    Inventory(networks=[], source="x").write(str(f), format="STATIONXML")
    if what == "text":
        f.write_text("not a response file\n")
    elif what == "empty":
        f.write_text("")
    elif what == "binary":
        f.write_bytes(bytes(range(256)) * 4)
    elif what == "truncated-xml":
        f.write_bytes(f.read_bytes()[:60])
    ctx.count(case, nontrivial="good" not in what)
    expect(ctx, what, lambda: read_response_inv(str(f), sac_pz_format="sac" in what),
           NotImplementedError if "sac" in what else None if what == "good" else TypeError,
           "response")


# -- time spans ---------------------------------------------------------------------------

TIMES = [None, "2020-03-01T00:00:00", "2020-03-01T00:00:04", "2020-03-02T00:00:00",
         "2020-02-29T23:59:58"]


def span_cases(tier):
    for stage in ("detect", "trigger", "locate"):
        for a in range(len(TIMES)):
            for b in range(len(TIMES)):
                for kind in (("str",) if tier == "quick" else ("str", "utc")):
                    for with_file in ((0, 1) if stage == "locate" else (0,)):
                        yield [stage, a, b, kind, with_file]


def run_spans(case, ctx):
    from quakemigrate import util
    from quakemigrate.signal import Trigger

    stage, a, b, kind, with_file = case
    if stage != "locate" and (TIMES[a] is None or TIMES[b] is None):
        return
    tmp = ctx.tmp()
    t = [x if kind == "str" or x is None else UTCDateTime(x) for x in (TIMES[a], TIMES[b])]
    u = [UTCDateTime(x) if x is not None else None for x in t]
    missing = sum(x is None for x in u)
    label = f"{stage}({t[0]}, {t[1]}{', trigger_file' if with_file else ''})"
    error = None
    if missing == 1 or (missing == 2 and not with_file):
        error = RuntimeError
    elif missing == 0 and u[0] > u[1]:
        error = util.TimeSpanException
    ctx.count(case, nontrivial=error is not None)
    if stage == "trigger":
        lut = detectlib.default_lut(10)
        trig = Trigger(lut, str(tmp), "run", plot_trigger_summary=False)
        if error is None and u[0] != u[1]:
            error = util.NoScanMseedDataException
        expect(ctx, label, lambda: trig.trigger(*t), error, "span-trigger")
        ctx.check(not results(tmp), "written", lambda: f"{label}: {results(tmp)}")
        return
    lut = detectlib.default_lut(10)
    archive = world.FakeArchive(detectlib.STATIONS, lambda *a: "empty")
    onset = world.onset_class()(detectlib.STATIONS, detectlib.PHASES, 10, world.hash_onset())
    scan = detectlib.make_scan(tmp, lut, archive, onset, timestep=43200.0)
    if stage == "detect":
        if error is None and u[0] == u[1]:
            # nothing to scan: any outcome but results
            with contextlib.suppress(Exception), quiet():
                scan.detect(*t)
            ctx.check(not any("scanmseed" in r for r in results(tmp)), "written",
                      lambda: f"{label}: {results(tmp)}")
            return
        expect(ctx, label, lambda: scan.detect(*t), error, "span-detect")
        ctx.check(bool(results(tmp)) == (error is None), "written",
                  lambda: f"{label}: {results(tmp)}")
        return
    kw = {}
    if with_file:
        kw["trigger_file"] = locatelib.write_trigger_file(
            tmp / "mine.csv", locatelib.trigger_rows([UTCDateTime("2020-03-01T00:00:02")]))
    if error is None and not with_file:
        error = util.NoTriggerFilesFound
    expect(ctx, label, lambda: scan.locate(*t, **kw), error, "span-locate")
    ctx.check([r for r in results(tmp) if r != "mine.csv"] == [], "written",
              lambda: f"{label}: {results(tmp)}")
    if error is None and missing == 2:
        ctx.check(len(archive.requests) == 1, "events-tried", label)


# -- coupled parameters of Trigger --------------------------------------------------------

SETTINGS = [("marginal_window", 0.5), ("marginal_window", 2.0), ("marginal_window", 2.5),
            ("min_event_interval", 1.0), ("min_event_interval", 3.9),
            ("min_event_interval", 4.0), ("min_event_interval", 5.0),
            ("minimum_repeat", 4.5), ("minimum_repeat", 0.9)]


def coupled_cases(tier):
    depth = 3 if tier == "quick" else 4
    for n in range(depth + 1):
        for ops in itertools.product(range(len(SETTINGS)), repeat=n):
            yield [list(ops)]


_SCAN = {}


def run_coupled(case, ctx):
    """However the two windows come to be set, triggering with an interval smaller than twice
    the marginal window is refused; with a valid pair it goes ahead."""
    from quakemigrate import util
    from quakemigrate.signal import Trigger

    ops = [SETTINGS[k] for k in case[0]]
    tmp = ctx.tmp()
    lut = _SCAN.setdefault("lut", detectlib.default_lut(10))
    for at_once in (0, 1):
        label = f"{'constructor, then ' if at_once else ''}{ops}"
        ctx.count((case, at_once))
        want = {"marginal_window": 2.0, "min_event_interval": 4.0}
        seq = list(ops)
        kw = {}
        if at_once:
            # as many as possible through the constructor
            while seq and seq[0][0] not in kw:
                k, v = seq.pop(0)
                kw[k] = v
        refused = False
        try:
            with quiet():
                trig = Trigger(lut, str(tmp), "run", plot_trigger_summary=False, **kw)
            want["marginal_window"] = kw.get("marginal_window", 2.0)
            want["min_event_interval"] = kw.get("minimum_repeat",
                                                kw.get("min_event_interval", 4.0))
            for k, v in seq:
                with quiet():
                    setattr(trig, k, v)
                want["min_event_interval" if k == "minimum_repeat" else k] = v
        except ValueError:
            refused = True
        valid = want["min_event_interval"] >= 2 * want["marginal_window"]
        if refused:
            # the pair in force, or the pair asked for, had to be unusable at some point
            pairs, cur = [], {"marginal_window": 2.0, "min_event_interval": 4.0}
            if kw:
                cur["marginal_window"] = kw.get("marginal_window", 2.0)
                pairs.append((cur["marginal_window"], kw.get("min_event_interval", 4.0)))
                if "minimum_repeat" in kw:
                    pairs.append((cur["marginal_window"], kw["minimum_repeat"]))
                cur["min_event_interval"] = pairs[-1][1]
            for k, v in seq:
                cur["min_event_interval" if k == "minimum_repeat" else k] = v
                pairs.append((cur["marginal_window"], cur["min_event_interval"]))
            ctx.check(any(m < 2 * w for w, m in pairs), "refused-valid", label)
            continue
        err = util.NoScanMseedDataException if valid else ValueError
        expect(ctx, f"{label}: {want}", lambda: trig.trigger(TIMES[1], TIMES[2]), err,
               "min-event-interval")
        ctx.check((trig.marginal_window, trig.min_event_interval) ==
                  (want["marginal_window"], want["min_event_interval"]), "setting-lost", label)
        ctx.check(not results(tmp), "written", label)


def method_cases(tier):
    for m in ("static", "mad", "median_ratio", "dynamic", "MAD", "Static", "percentile", "",
              None, "median"):
        yield [m]


def run_method(case, ctx):
    from quakemigrate import util
    from quakemigrate.signal import Trigger
    from quakemigrate.signal.pickers import GaussianPicker

    m = case[0]
    tmp = ctx.tmp()
    lut = detectlib.default_lut(10)
    ok = m in ("static", "mad", "median_ratio", "dynamic")
    ctx.count(case, nontrivial=not ok)
    err = None if ok else util.InvalidTriggerThresholdMethodException
    t = expect(ctx, f"{m!r}", lambda: Trigger(lut, str(tmp), "run", threshold_method=m), err,
               "trigger-method")
    if ok:
        ctx.check(t.threshold_method == ("mad" if m == "dynamic" else m), "method-lost", m)
    with quiet():
        t = Trigger(lut, str(tmp), "run")
    expect(ctx, f"{m!r}", lambda: setattr(t, "threshold_method", m), err, "trigger-method-set")
    if not ok:
        ctx.check(t.threshold_method == "static", "method-lost", f"{m!r}")
    ok = m in ("percentile", "MAD")
    err = None if ok else util.InvalidPickThresholdMethodException
    expect(ctx, f"{m!r}", lambda: GaussianPicker(onset=None, threshold_method=m), err,
           "pick-method")
    p = GaussianPicker(onset=None)
    expect(ctx, "pick_threshold", lambda: setattr(p, "pick_threshold", 1.0), AttributeError,
           "pick-threshold")
    expect(ctx, "pick_threshold", lambda: GaussianPicker(onset=None, pick_threshold=1.0),
           AttributeError, "pick-threshold")
    ctx.check(not results(tmp), "written", f"{m!r}")


# -- object types -------------------------------------------------------------------------


def type_cases(tier):
    for o in range(6):
        for p in range(6):
            for m in range(6):
                yield [o, p, m]


def run_types(case, ctx):
    from quakemigrate import util
    from quakemigrate.signal import QuakeScan
    from quakemigrate.signal.local_mag import LocalMag
    from quakemigrate.signal.onsets import STALTAOnset
    from quakemigrate.signal.pickers import GaussianPicker

    tmp = ctx.tmp()
    lut = detectlib.default_lut(10)
    archive = world.FakeArchive(detectlib.STATIONS)
    with quiet():
        good = STALTAOnset(sampling_rate=10)
        picker = GaussianPicker(onset=good)
        mag = LocalMag(amp_params={"signal_window": 5.0}, mag_params={"A0": "UK"})
    onsets = [good, None, "onset", STALTAOnset, picker, 0]
    pickers = [picker, None, "picker", GaussianPicker, good, False]
    mags = [mag, None, "mags", LocalMag, picker, False]
    o, p, m = case
    errors = []
    if o:
        errors.append(util.OnsetTypeError)
    if p > 1:
        errors.append(util.PickerTypeError)
    if m > 1:
        errors.append(util.MagsTypeError)
    ctx.count(case, nontrivial=bool(errors))
    label = f"onset={onsets[o]!r} picker={pickers[p]!r} mags={mags[m]!r}"
    s = expect(ctx, label, lambda: QuakeScan(archive, lut, onsets[o], str(tmp), "run",
                                             picker=pickers[p], mags=mags[m]),
               _Any(errors) if errors else None, "types")
    if not errors:
        ctx.check(s.onset is good and (s.picker is picker or p == 1) and
                  (s.mags is (mag if m == 0 else None)), "object-lost", label)
    ctx.check(not results(tmp), "written", label)


def _Any(errors):
    """An exception class matching any of the given ones."""
    class Meta(type):
        def __instancecheck__(cls, e):
            return isinstance(e, tuple(errors))
    return Meta(" or ".join(e.__name__ for e in errors), (), {})


def setting_cases(tier):
    yield from (["sampling", x] for x in (None, 10, 50.0))
    yield from (["min_onset", x] for x in (-1.0, 0.0, 0.005, 0.0099, 0.0101, 0.4, 1.0))
    yield from (["path", x] for x in (
        "YEAR/JD/STATION", "YEAR/JD/*_STATION_*", "STATION.YEAR.JULIANDAY",
        "/STATION/STATION.YearMonthDay", "YEAR_JD/STATION*", "YEAR_JD/STATION_*", "SeisComp3",
        "SeisComp", "seiscomp3", "YEAR/JD/STATIONS", "", "YEAR", None))
    yield from (["A0", x] for x in (None, "", "UK", "keir2006", "func", "nonsense"))
    yield from (["deprecated-amp", x] for x in ("water_level", "pre_filt",
                                                "remove_full_response", "filter_corners"))
    yield from (["lut-phases", x] for x in ("P", "S", "PS", "X", "PSX"))
    yield from (["inventory", x] for x in ("real", "wa"))


def run_settings(case, ctx):
    from quakemigrate import util
    from quakemigrate.signal.onsets import STALTAOnset

    what, x = case
    tmp = ctx.tmp()
    label = f"{what} {x!r}"
    ctx.count(case)
    if what == "sampling":
        kw = {} if x is None else {"sampling_rate": x}
        expect(ctx, label, lambda: STALTAOnset(**kw), ValueError if x is None else None, what)
    elif what == "min_onset":
        expect(ctx, label, lambda: STALTAOnset(sampling_rate=50, min_onset_value=x),
               ValueError if x < 0.01 else None, what)
    elif what == "path":
        from quakemigrate.io import Archive

        known = ("YEAR/JD/STATION", "YEAR/JD/*_STATION_*", "STATION.YEAR.JULIANDAY",
                 "/STATION/STATION.YearMonthDay", "YEAR_JD/STATION*", "YEAR_JD/STATION_*",
                 "SeisComp3")
        st = pd.DataFrame({"Name": ["AA"]})
        a = Archive(str(tmp), st)
        err = None if x in known else util.ArchivePathStructureError
        expect(ctx, label, lambda: a.path_structure(x), err, what)
        if x in known:
            f = a.format
            for y in known + ("nonsense",):
                with contextlib.suppress(util.ArchivePathStructureError):
                    a.path_structure(y)
            with contextlib.suppress(util.ArchivePathStructureError):
                a.path_structure(x)
            ctx.check(a.format == f, "path-structure", label)
        b = Archive(str(tmp), st)
        expect(ctx, "no format", lambda: b.read_waveform_data(
            UTCDateTime(TIMES[1]), UTCDateTime(TIMES[2])), util.ArchiveFormatException,
            "no-format")
    elif what == "A0":
        from quakemigrate.signal.local_mag.magnitude import Magnitude

        v = (lambda d: 1.0) if x == "func" else x
        m = expect(ctx, label, lambda: Magnitude({"A0": v} if x is not None else {}),
                   TypeError if not x else None, what)
        if x == "nonsense":
            row = (2.0, 0.1, 10.0, 1.0, True)
            amps = c25.table([("XX.AA..HHE", row), ("XX.AA..HHN", row)])
            expect(ctx, label, lambda: m.calculate_magnitudes(amps), ValueError, what)
    elif what == "deprecated-amp":
        from quakemigrate.signal.local_mag.amplitude import Amplitude

        expect(ctx, label, lambda: Amplitude({"signal_window": 1.0, x: 3}),
               None if x == "filter_corners" else AttributeError, what)
    elif what == "lut-phases":
        # the onset asks for P and S
        lut = world.make_lut((2, 1, 2), stations=detectlib.STATIONS, phases=list(x))
        archive = world.FakeArchive(detectlib.STATIONS)
        onset = world.onset_class()(detectlib.STATIONS, detectlib.PHASES, 10,
                                    world.hash_onset())
        scan = detectlib.make_scan(tmp, lut, archive, onset, timestep=2.0)
        ok = set("PS") <= set(x)
        expect(ctx, label, lambda: scan.detect(TIMES[1], TIMES[2]),
               None if ok else util.LUTPhasesException, what)
        ctx.check(bool(results(tmp)) == ok, "written", lambda: f"{label}: {results(tmp)}")
    elif what == "inventory":
        from quakemigrate.io.data import WaveformData

        d = WaveformData(UTCDateTime(0), UTCDateTime(10), stations=pd.Series(["AA"]))
        tr = Trace(np.arange(100.0), header=dict(station="AA", channel="HHZ",
                                                 sampling_rate=10))
        f = d.get_real_waveform if x == "real" else d.get_wa_waveform
        expect(ctx, label, lambda: f(tr), AttributeError, what)


def takes_one(f):
    try:
        inspect.signature(f).bind(None)
    except TypeError:
        return False
    return True


# -- filters ------------------------------------------------------------------------------


def filter_cases(tier):
    for sr in (10, 20, 50, 100) if tier == "quick" else (5, 10, 20, 25, 40, 50, 100, 200):
        for f in (0.2, 0.48, 0.4999, 0.5, 0.50001, 0.6, 1.0):
            for kind in ("onset", "amplitude"):
                yield [sr, f, kind]


def run_filter(case, ctx):
    from quakemigrate import util
    from quakemigrate.signal.local_mag.amplitude import Amplitude
    from quakemigrate.signal.onsets.stalta import pre_process

    sr, frac, kind = case
    high = frac * sr
    ok = frac < 0.5
    rng = np.cos(np.arange(40 * sr) * 0.37) * 100
    t0 = UTCDateTime("2020-03-01")
    ctx.count(case, nontrivial=not ok)
    label = f"{kind}: high-cut {high} Hz at {sr} Hz"
    if kind == "onset":
        for data_sr in (sr, 2 * sr, 4 * sr):
            x = np.cos(np.arange(40 * data_sr) * 0.37) * 100
            st = Stream([Trace(x, header=dict(station="AA", channel="HHZ", starttime=t0,
                                              sampling_rate=data_sr))])
            expect(ctx, f"{label}, data at {data_sr} Hz",
                   lambda: pre_process(st, sr, False, None, [0.05 * sr, high, 2], t0,
                                       t0 + 40 - 1 / data_sr),
                   None if ok else util.NyquistException, "onset-filter")
    else:
        tr = Trace(rng, header=dict(station="AA", channel="HHZ", starttime=t0,
                                    sampling_rate=sr))
        a = Amplitude(dict(signal_window=1.0, bandpass_filter=True, bandpass_lowcut=0.05 * sr,
                           bandpass_highcut=high))
        f = getattr(a, "_bandpass_filter", None)
        if f is not None and takes_one(f):  # else: what get_amplitudes does is C24's
            expect(ctx, label, lambda: f(tr), None if ok else util.NyquistException,
                   "amplitude-filter")


def amp_filter_cases(tier):
    opts = [("highpass_filter", (None, False, True)), ("highpass_freq", (None, 1.0)),
            ("bandpass_filter", (None, False, True)), ("bandpass_lowcut", (None, 1.0)),
            ("bandpass_highcut", (None, 5.0)), ("filter_corners", (None, 2))]
    for vals in itertools.product(*[v for _, v in opts]):
        yield [{k: v for (k, _), v in zip(opts, vals) if v is not None}]


def run_amp_filter(case, ctx):
    from quakemigrate.signal.local_mag.amplitude import Amplitude

    p = case[0]
    hp, bp = p.get("highpass_filter"), p.get("bandpass_filter")
    bad = (hp and bp) or (hp and "highpass_freq" not in p) or \
        (bp and ("bandpass_lowcut" not in p or "bandpass_highcut" not in p))
    ctx.count(case, nontrivial=bool(bad))
    a = expect(ctx, f"{p}", lambda: Amplitude(dict(p, signal_window=1.0)),
               AttributeError if bad else None, "amplitude-filter-frequencies")
    if not bad:
        ctx.check(bool(a.highpass_filter) == bool(hp) and bool(a.bandpass_filter) == bool(bp),
                  "setting-lost", f"{p}")


# -- migration kernel arguments -----------------------------------------------------------


def kernel_cases(tier):
    for n_on, n_tt, t, first, last in itertools.product(
            range(1, 4), range(1, 4), range(1, 5), range(0, 4), range(0, 4)):
        yield [n_on, n_tt, t, first, last]


def run_kernel(case, ctx):
    from quakemigrate.core import migrate

    n_on, n_tt, t, first, last = case
    onsets = np.ones((n_on, t))
    tts = np.zeros((2, 1, 2, n_tt), dtype=np.int32)
    tts[...] = min(last, 1)
    ok = n_on == n_tt and first + last <= t
    ctx.count(case, nontrivial=not ok)
    out = expect(ctx, f"{case}", lambda: migrate(onsets, tts, first, last, n_on, 1),
                 None if ok else ValueError, "kernel")
    if ok:
        ctx.check(out.shape == (2, 1, 2, t - first - last), "kernel-shape", f"{case}")


def groups():
    return [Group("stations", station_cases, run_stations),
            Group("vmodel", vmodel_cases, run_vmodel),
            Group("response", response_cases, run_response),
            Group("spans", span_cases, run_spans),
            Group("coupled", coupled_cases, run_coupled),
            Group("methods", method_cases, run_method), Group("types", type_cases, run_types),
            Group("settings", setting_cases, run_settings),
            Group("filters", filter_cases, run_filter),
            Group("amplitude-filters", amp_filter_cases, run_amp_filter),
            Group("kernel", kernel_cases, run_kernel)]
