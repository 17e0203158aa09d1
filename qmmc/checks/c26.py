import csv
import itertools
import math
import pathlib
import warnings

import numpy as np
import pandas as pd
from obspy import UTCDateTime, read_events

from qmmc import locatelib, world
from qmmc.core import Group

LEVEL = "exploration"
RULE = ("one evaluation = one run directory written by QuakeMigrate's own writers (Event.write, "
        "PhasePicker.write, write_amplitudes; in one group by a whole locate run) and read back "
        "with read_quakemigrate; the catalogue is compared with the text of the files, read with "
        "the csv module, and again after a round trip through QuakeML. Non-trivial: some pick "
        "failed, some amplitude is missing, or there is more than one event.")
ASSUMPTIONS = ["an event without a .picks file is left out of the catalogue (locate always writes one)"]

T0 = UTCDateTime("2015-12-31T23:59:58.004500")
NAMESETS = [("AB1", "C"), ("001", "020"), ("1E5", "7"), ("NA", "TRUE"), ("07", "NULL")]
COLS = ["id", "epi_dist", "z_dist", "P_amp", "P_freq", "P_time", "P_avg_amp", "P_filter_gain",
        "S_amp", "S_freq", "S_time", "S_avg_amp", "S_filter_gain", "Noise_amp", "is_picked"]
# per channel: (P measured, S measured, magnitude)
AMPS = {"none": None, "no-measurement": [(0, 0, None), (0, 0, None)],
        "all": [(1, 1, 1.25), (1, 1, -0.5)], "some": [(0, 1, 0.75), (1, 0, math.nan)],
        "P-only": [(1, 0, None), (1, 0, None)], "unused": [(1, 1, math.nan), (0, 1, 2.0)]}
ML = {"none": None, "nan": (math.nan,) * 3, "value": (1.234, 0.25, 0.875),
      "no-r2": (-0.75, 0.5, math.nan)}


def make_event(uid, otime, k, ml):
    from quakemigrate.io.event import Event

    row = pd.Series(dict(EventID=uid, CoaTime=otime, TRIG_COA=2.5 + k, COA=2.25, COA_NORM=1.5))
    ev = Event(0.5, row)
    ev.otime = otime
    ev.coa_data = pd.DataFrame({"DT": [otime], "COA": [3.14159 + k], "COA_NORM": [1.23456]})
    ev.add_spline_location([116.751234 + 0.01 * k, 6.2498761, 4.321 + k])
    ev.add_gaussian_location([116.7511 + 0.01 * k, 6.2501, 4.4 + k], [0.123, 0.456, 0.789 + k])
    ev.add_covariance_location([116.75, 6.25, 4.5], [0.321, 0.654, 0.987 + k])
    if ml is not None:
        ev.add_local_magnitude(*ml)
    return ev


def make_picks(names, outcomes, otime):
    rows = []
    for n, ((s, p), ok) in enumerate(zip(itertools.product(names, "PS"), outcomes)):
        if ok == 2:      # no onset for this phase: no row
            continue
        model = otime + 1.0 + 0.7 * n + 0.000021
        rows.append([s, p, model] + ([model + 0.0403 * (n + 1), 0.0123 * (n + 1), 3.75 + n,
                                      0.0403 * (n + 1)] if ok else [-1, -1, -1, -1]))
    return pd.DataFrame(rows, columns=["Station", "Phase", "ModelledTime", "PickTime",
                                       "PickError", "SNR", "Residual"])


def make_amps(names, spec, otime):
    rows = []
    for n, ((s, comp), (p, q, ml)) in enumerate(zip(itertools.product(names, "N"), spec)):
        row = [f"XX.{s}..HH{comp}" if p or q else f".{s}..{comp}", 12.3456 + n, 4.5,
               np.nan, np.nan, np.nan, np.nan, np.nan, np.nan, np.nan, np.nan, np.nan, np.nan,
               0.0123 if p or q else np.nan, bool(p)]
        if p:
            row[3:8] = [0.5 + n, 4.0, otime + 1.0, 0.21, np.nan]
        if q:
            row[8:13] = [1.5 + n, 2.5, otime + 2.0 + n, 0.31, 0.98]
        rows.append(row)
    df = pd.DataFrame(rows, columns=COLS)
    if any(x[2] is not None for x in spec):
        df["ML"] = [np.nan if x[2] is None else x[2] for x in spec]
        df["ML_Err"] = [0.1 if x[2] is not None and x[2] == x[2] else np.nan for x in spec]
    return df.set_index("id")


def rows_of(f):
    with open(f) as fh:
        return list(csv.DictReader(fh))


def num(x):
    return float(x) if x not in ("", None) else math.nan


def same(a, b):
    a = num(str(a))
    return (a != a and b != b) or abs(a - b) <= 1e-9 + 1e-6 * abs(b)


def check_catalogue(ctx, cat, locate_dir, units, label, phase="S"):
    """The catalogue says what the files say."""
    factor = 1e3 if units == "km" else 1.0
    files = {f.stem: rows_of(f)[0] for f in sorted((locate_dir / "events").glob("*.event"))}
    got = {str(e.resource_id).split("/")[-1]: e for e in cat}
    ctx.check(len(cat) == len(files) and sorted(got) == sorted(files), "events",
              lambda: f"{label}: {sorted(got)}, files {sorted(files)}")
    for uid, row in files.items():
        e = got[uid]
        o = e.preferred_origin()
        ctx.check(o is not None and len(e.origins) == 2, "origins", label)
        deg = factor / 1e3 / 111.19492664455873
        for origin, pre in zip(e.origins, ("", "GAU_")):
            have = dict(time=origin.time.ns, lon=origin.longitude, lat=origin.latitude,
                        depth=origin.depth, elon=origin.longitude_errors.uncertainty,
                        elat=origin.latitude_errors.uncertainty,
                        edepth=origin.depth_errors.uncertainty)
            want = dict(time=UTCDateTime(row["DT"]).ns, lon=num(row[pre + "X"]),
                        lat=num(row[pre + "Y"]), depth=num(row[pre + "Z"]) * factor,
                        elon=num(row["GAU_ErrX"]) * deg, elat=num(row["GAU_ErrY"]) * deg,
                        edepth=num(row["GAU_ErrZ"]) * factor)
            for k in have:
                ctx.check(abs(have[k] - want[k]) <= 1e-9 + 1e-5 * abs(want[k])
                          if k != "time" else have[k] == want[k], "origin-" + k,
                          lambda: f"{label}: {uid} {pre}{k}: {have[k]}, in the file {want[k]}")
        ctx.check(o.resource_id == e.origins[0].resource_id, "preferred-origin", label)
        if hasattr(e, "extra"):
            for k in ("COA", "COA_NORM", "TRIG_COA", "DEC_COA", "DEC_COA_NORM"):
                ctx.check(abs(float(e.extra[k.lower()].value) - num(row[k])) < 1e-9, "extra",
                          lambda: f"{label}: {k}: {e.extra[k.lower()].value}, {row[k]}")
        for origin in e.origins:
            ce = origin.origin_uncertainty.confidence_ellipsoid
            have = (ce.semi_major_axis_length, ce.semi_intermediate_axis_length,
                    ce.semi_minor_axis_length)
            want = [num(row[f"COV_Err{a}"]) * factor for a in "YXZ"]
            ctx.check(np.allclose(have, want, rtol=1e-9), "covariance",
                      lambda: f"{label}: {uid}: {have}, file {want}")
        if hasattr(e, "extra"):
            for kind, key in (("raw", "cut_waveforms_file"), ("real", "real_cut_waveforms_file"),
                              ("wa", "wa_cut_waveforms_file")):
                folder = locate_dir / f"{kind}_cut_waveforms"
                if kind == "raw" or folder.is_dir():
                    have = pathlib.Path(str(e.extra[key].value))
                    ctx.check(have == (folder / f"{uid}.m").resolve(), "waveform-file",
                              lambda: f"{label}: {uid}: {have}")
                else:
                    ctx.check(key not in e.extra, "waveform-file", lambda: f"{label}: {key}")
        # picks: every row gives a modelled arrival, every successful one an automatic pick
        want = []
        for r in rows_of(locate_dir / "picks" / f"{uid}.picks"):
            want.append((r["Station"], r["Phase"], "modelled", UTCDateTime(r["ModelledTime"]).ns,
                         None))
            if r["PickTime"] != "-1":
                want.append((r["Station"], r["Phase"], "autopick", UTCDateTime(r["PickTime"]).ns,
                             num(r["PickError"])))
        have = [(p.waveform_id.station_code, p.phase_hint, str(p.method_id).split("/")[-1],
                 p.time.ns, p.time_errors.uncertainty) for p in e.picks]
        key = lambda t: [str(x) for x in t]
        ctx.check(sorted(have, key=key) == sorted(want, key=key), "picks",
                  lambda: f"{label}: {uid}: catalogue {sorted(have, key=key)} files "
                          f"{sorted(want, key=key)}")
        snr = {(r["Station"], r["Phase"]): num(r["SNR"])
               for r in rows_of(locate_dir / "picks" / f"{uid}.picks") if r["PickTime"] != "-1"}
        for p in e.picks:
            if str(p.method_id).split("/")[-1] == "autopick" and getattr(p, "extra", None):
                k = (p.waveform_id.station_code, p.phase_hint)
                ctx.check(same(p.extra.snr.value, snr[k]), "pick-snr",
                          lambda: f"{label}: {uid} {k}: {p.extra.snr.value}, file {snr[k]}")
                ctx.add(extras_compared=1)
        # amplitudes and magnitudes
        f = locate_dir / "amplitudes" / f"{uid}.amps"
        amps, mags = [], []
        for r in rows_of(f) if f.is_file() else []:
            for ph in "PS":
                if r[f"{ph}_amp"] == "":
                    continue
                amps.append((r["id"], f"{ph}_amp", num(r[f"{ph}_amp"]) / 1e3,
                             num(r["Noise_amp"]) / 1e3, 1 / num(r[f"{ph}_freq"]),
                             UTCDateTime(r[f"{ph}_time"]).ns))
                if ph == phase and not math.isnan(num(r.get("ML"))):
                    mags.append((num(r["ML"]), num(r["ML_Err"])))
        have = [(a.waveform_id.get_seed_string(), str(a.method_id).split("/")[-1],
                 a.generic_amplitude, a.generic_amplitude_errors.uncertainty, a.period,
                 a.time_window.reference.ns) for a in e.amplitudes]
        ctx.check(len(have) == len(amps) and all(
            x[:2] == y[:2] and x[5] == y[5] and np.allclose(x[2:5], y[2:5], rtol=1e-9)
            for x, y in zip(have, amps)), "amplitudes",
            lambda: f"{label}: {uid}: {have} files {amps}")
        for a in e.amplitudes:
            ph = str(a.method_id).split("/")[-1][0]
            (r,) = [r for r in rows_of(f) if r["id"] == a.waveform_id.get_seed_string()]
            if getattr(a, "extra", None):
                ctx.check(same(a.extra.filter_gain.value, num(r[f"{ph}_filter_gain"]))
                          and same(a.extra.avg_amp.value, num(r[f"{ph}_avg_amp"]) / 1e3),
                          "amplitude-extra", lambda: f"{label}: {uid} {r} {a.extra}")
            for m in e.station_magnitudes:
                if m.amplitude_id != a.resource_id:
                    continue
                ctx.check(ph == phase and same(m.mag, num(r["ML"])), "magnitude-amplitude",
                          lambda: f"{label}: {uid}: {m} of {a}")
                if getattr(m, "extra", None):
                    ctx.check(str(m.extra.picked.value).lower() == r["is_picked"].lower()
                              and same(m.extra.epi_dist.value, num(r["epi_dist"]))
                              and same(m.extra.z_dist.value, num(r["z_dist"])), "magnitude-extra",
                              lambda: f"{label}: {uid}: {m.extra} {r}")
                    ctx.add(extras_compared=1)
        ctx.check(len({m.amplitude_id for m in e.station_magnitudes}) == len(mags)
                  and {m.amplitude_id for m in e.station_magnitudes}
                  <= {a.resource_id for a in e.amplitudes}, "magnitude-amplitude", label)
        if e.magnitudes and getattr(e.magnitudes[0], "extra", None):
            ctx.check(same(e.magnitudes[0].extra.r2.value, num(row["ML_r2"])), "magnitude-r2",
                      lambda: f"{label}: {uid} {e.magnitudes[0].extra}")
        have = [(m.mag, m.mag_errors.uncertainty) for m in e.station_magnitudes]
        ctx.check(len(have) == len(mags) and np.allclose(have, mags), "station-magnitudes",
                  lambda: f"{label}: {uid}: {have} files {mags}")
        ml = num(row.get("ML"))
        if math.isnan(ml):
            ctx.check(not e.magnitudes, "magnitude-invented",
                      lambda: f"{label}: {uid}: {e.magnitudes}")
        elif f.is_file():
            ctx.check(len(e.magnitudes) == 1 and e.magnitudes[0].mag == ml and
                      abs(e.magnitudes[0].mag_errors.uncertainty - num(row["ML_Err"])) < 1e-12
                      and e.magnitudes[0].station_count == len(mags), "magnitude",
                      lambda: f"{label}: {uid}: {e.magnitudes}")
        ctx.add(events_compared=1)


def round_trip(ctx, cat, locate_dir, units, label, tmp, phase="S"):
    f = tmp / "cat.xml"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            cat.write(str(f), format="QUAKEML",
                      nsmap={"qm": "http://quakemigrate.github.io/xmlns/event"})
        except Exception as e:
            ctx.fail("quakeml", f"{label}: {e!r}")
        back = read_events(str(f))
    check_catalogue(ctx, back, locate_dir, units, label + " (QuakeML)", phase)


def case_list(tier):
    outcomes = list(itertools.product((0, 1), repeat=4)) + [(2, 1, 1, 0), (2, 2, 2, 2),
                                                            (2, 0, 2, 1)]
    for n in range(len(NAMESETS)):
        for amp in AMPS:
            for ml in ML:
                yield [n, amp, ml, None if tier == "quick" else "all"]
    if tier == "thorough":
        outcomes = list(itertools.product((0, 1, 2), repeat=4))
    for o in outcomes:
        for n in range(len(NAMESETS)):
            yield [n, "all", "value", list(o)]


class FakeRun:
    def __init__(self, path, subname):
        self.path, self.subname = path, subname


def run(case, ctx):
    from quakemigrate.export.to_obspy import read_quakemigrate
    from quakemigrate.io.amplitudes import write_amplitudes
    from quakemigrate.signal.pickers.base import PhasePicker

    class Picker(PhasePicker):
        def pick_phases(self):
            pass

    n, amp, ml, outcomes = case
    names = NAMESETS[n]
    if outcomes is None:
        outs = [(1, 0, 1, 1), (0, 0, 0, 0)]
    elif outcomes == "all":
        outs = list(itertools.product((0, 1), repeat=4))
    else:
        outs = [outcomes]
    for out in outs:
        for units, sub, phase in (("km", "", "S"), ("m", "sub", "S"), ("km", "x", "P")):
            tmp = ctx.tmp()
            lut = world.make_lut((2, 2, 2), kind="lcc_km" if units == "km" else "lcc_m",
                                 spacing=(1.0,) * 3 if units == "km" else (500.0,) * 3)
            run_ = FakeRun(tmp / "run", sub)
            label = f"{names} picks {out} amplitudes {amp} ML {ml} {units} sub-run {sub!r}"
            for k, dt in enumerate((0.0, 1.9955, 86399.0)):
                t = T0 + dt
                uid = t.strftime("%Y%m%d%H%M%S%f")[:-3]
                # events differ: the first as the case says, later ones complete
                this_ml = ML[ml] if k == 0 else ML["value"] if amp != "none" else None
                this_amp = AMPS[amp] if k == 0 else AMPS["all"] if amp != "none" else None
                ev = make_event(uid, t, k, this_ml)
                ev.write(run_, lut)
                Picker().write(run_, uid, make_picks(names, out if k == 0 else (1, 1, 0, 1), t))
                if this_amp is not None:
                    write_amplitudes(run_, make_amps(names, this_amp, t), ev)
            for k, folder in enumerate(("raw", "real", "wa")):
                if (n >> k) & 1:
                    (tmp / "run" / "locate" / sub / f"{folder}_cut_waveforms").mkdir()
            ctx.count((case, out, units, sub, phase))
            try:
                cat = read_quakemigrate(str(tmp / "run"), units, run_subname=sub,
                                        local_mag_ph=phase)
            except Exception as e:
                ctx.fail("unreadable", f"{label}: {e!r}")
            loc = tmp / "run" / "locate" / sub
            check_catalogue(ctx, cat, loc, units, label, phase)
            round_trip(ctx, cat, loc, units, label, tmp, phase)
    ctx.sample(names=names, amplitudes=amp, ml=ml)


def empty_cases(tier):
    for what in ("no-run", "no-locate", "no-events", "empty-events", "other-files"):
        for sub in ("", "sub"):
            yield [what, sub]


def run_empty(case, ctx):
    """Runs with no located events give an empty catalogue."""
    from quakemigrate.export.to_obspy import read_quakemigrate

    what, sub = case
    tmp = ctx.tmp()
    d = {"no-run": tmp, "no-locate": tmp / "run", "no-events": tmp / "run" / "locate" / sub,
         }.get(what, tmp / "run" / "locate" / sub / "events")
    d.mkdir(parents=True, exist_ok=True)
    if what == "other-files":
        (d / "note.txt").write_text("x")
    ctx.count(case)
    try:
        cat = read_quakemigrate(str(tmp / "run"), "km", run_subname=sub)
    except FileNotFoundError as e:
        ctx.check(what in ("no-run", "no-locate"), "unreadable", f"{case}: {e!r}")
        return
    except Exception as e:
        ctx.fail("unreadable", f"{case}: {e!r}")
    ctx.check(len(cat) == 0, "events", f"{case}: {cat}")


def unit_cases(tier):
    for u in ("ft", "KM", None, "", 1):
        yield [u]


def run_units(case, ctx):
    from quakemigrate.export.to_obspy import read_quakemigrate

    tmp = ctx.tmp()
    lut = world.make_lut((2, 2, 2))
    run_ = FakeRun(tmp / "run", "")
    make_event("20200101000000000", T0, 0, None).write(run_, lut)
    ctx.count(case)
    try:
        read_quakemigrate(str(tmp / "run"), case[0])
    except AttributeError:
        return
    ctx.fail("units-accepted", f"{case}")


def locate_cases(tier):
    for n in (0, 1, 2):
        for kind in ("lcc_km", "utm_m"):
            for sub in ("", "s1"):
                yield [n, kind, sub]


def run_locate(case, ctx):
    """A whole locate run, read back."""
    from quakemigrate.export.to_obspy import read_quakemigrate

    n, kind, sub = case
    lut = locatelib.default_lut(kind=kind)
    sr = 20
    t = [locatelib.T0 + 7.3 * k for k in range(n)]
    src = locatelib.Source(lut, sr, [(x, (2 + k, 3, 2), 3.0 - 2.6 * k)
                                     for k, x in enumerate(t)], sigma=0.12)
    onset = world.onset_class()(locatelib.STATIONS, locatelib.PHASES, sr, src, pre=1.0)
    tmp = ctx.tmp()
    scan = locatelib.make_scan(tmp, lut, world.FakeArchive(locatelib.STATIONS), onset, mw=0.5,
                               run_subname=sub)
    scan.locate(trigger_file=locatelib.write_trigger_file(tmp / "t.csv",
                                                          locatelib.trigger_rows(t)))
    units = "km" if kind.endswith("km") else "m"
    cat = read_quakemigrate(str(tmp / "run"), units, run_subname=sub)
    ctx.count(case)
    ctx.check(len(cat) == n, "events", lambda: f"{case}: {len(cat)} events")
    if n:
        loc = tmp / "run" / "locate" / sub
        check_catalogue(ctx, cat, loc, units, str(case))
        round_trip(ctx, cat, loc, units, str(case), tmp)


def nopick_cases(tier):
    for missing in itertools.product((0, 1), repeat=3):
        for sub in ("", "s1"):
            yield [list(missing), sub]


def run_nopicks(case, ctx):
    """Events whose picks file is gone are left out; the others are all there."""
    from quakemigrate.export.to_obspy import read_quakemigrate
    from quakemigrate.signal.pickers.base import PhasePicker

    class Picker(PhasePicker):
        def pick_phases(self):
            pass

    missing, sub = case
    tmp = ctx.tmp()
    run_ = FakeRun(tmp / "run", sub)
    lut = world.make_lut((2, 2, 2))
    loc = tmp / "run" / "locate" / sub
    gone = []
    for k, m in enumerate(missing):
        t = T0 + 11.5 * k
        uid = t.strftime("%Y%m%d%H%M%S%f")[:-3]
        make_event(uid, t, k, None).write(run_, lut)
        if m:
            gone.append(uid)
        else:
            Picker().write(run_, uid, make_picks(NAMESETS[0], (1, 0, 1, 1), t))
    ctx.count(case, nontrivial=any(missing))
    cat = read_quakemigrate(str(tmp / "run"), "km", run_subname=sub)
    for uid in gone:
        (loc / "events" / f"{uid}.event").unlink()
    if not all(missing):
        check_catalogue(ctx, cat, loc, "km", str(case))
    ctx.check(len(cat) == missing.count(0), "events", str(case))


def groups():
    return [Group("no-picks", nopick_cases, run_nopicks), Group("written", case_list, run), Group("empty", empty_cases, run_empty),
            Group("units", unit_cases, run_units), Group("located", locate_cases, run_locate)]
