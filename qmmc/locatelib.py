"""Running the real locate over synthetic onsets, archives and triggered events."""

import csv
import pathlib

import numpy as np
from obspy import UTCDateTime

from . import triglib, world

STATIONS = ("AA1", "B2", "C")
PHASES = ("P", "S")
T0 = UTCDateTime("2015-12-31T23:59:00")


def homogeneous(vp, vs, stations_ijk, spacing):
    """Traveltime tables of a homogeneous medium; stations at fractional node positions."""
    def tt(s, phase, ijk):
        p = stations_ijk[s]
        d = np.sqrt(sum(((g - x) * h) ** 2 for g, x, h in zip(ijk, p, spacing)))
        return d / (vp if phase == "P" else vs)
    return tt


STATION_IJK = [(-1.5, 0.3, -0.4), (7.2, 1.1, -0.1), (2.6, 8.3, 0.2)]


def default_lut(shape=(6, 7, 5), spacing=(1.0, 1.0, 1.0), kind="lcc_km", stations=STATIONS,
                vp=6.0, vs=3.4, fraction_tt=0.1):
    unit = 1000.0 if kind.endswith("_m") else 1.0
    return world.make_lut(shape, tuple(unit * s for s in spacing), stations, PHASES, kind=kind,
                          tt=homogeneous(vp * unit, vs * unit, STATION_IJK,
                                         tuple(unit * s for s in spacing)),
                          fraction_tt=fraction_tt)


class Source:
    """Events with pulses in the onsets at their traveltimes."""

    def __init__(self, lut, sr, events, sigma=0.06, base=1.0):
        # events: [(origin time, (i, j, k), height, {station_phase: shift s})]
        self.lut, self.sr, self.events = lut, sr, events
        self.sigma, self.base = sigma, base

    def __call__(self, st, ph, idx):
        out = np.full(len(idx), self.base, dtype=float)
        t = idx / self.sr
        names = list(self.lut.traveltimes)
        phase_of = 0.37 * names.index(st) + (0.11 if ph == "S" else 0.0)
        out += 0.02 * np.sin(0.7 * idx + phase_of * 10)
        for ev in self.events:
            otime, ijk, height = ev[:3]
            shift = (ev[3] if len(ev) > 3 else {}).get(f"{st}_{ph}", 0.0)
            a = otime.ns / 1e9 if hasattr(otime, "ns") else float(otime)
            arr = a + self.lut.traveltimes[st][ph][tuple(ijk)] + shift
            out += height * np.exp(-0.5 * ((t - arr) / self.sigma) ** 2)
        return out


TRIG_COLS = ["EventID", "CoaTime", "TRIG_COA", "COA_X", "COA_Y", "COA_Z", "COA", "COA_NORM"]


def trigger_rows(times):
    return [dict(EventID=triglib.event_id(t), CoaTime=str(t), TRIG_COA=2.5 + 0.125 * k,
                 COA_X=1.0, COA_Y=2.0, COA_Z=3.0, COA=2.25 + 0.125 * k, COA_NORM=1.5 + 0.0625 * k)
            for k, t in enumerate(times)]


def write_trigger_files(path, rows, name="run"):
    """The per-day triggered-event files locate reads for a time span."""
    d = pathlib.Path(path) / name / "trigger" / "events"
    d.mkdir(parents=True, exist_ok=True)
    days = {}
    for r in rows:
        days.setdefault(world.day_name(UTCDateTime(r["CoaTime"])), []).append(r)
    for day, rs in days.items():
        with open(d / f"{name}_{day}_TriggeredEvents.csv", "w", newline="") as f:
            w = csv.DictWriter(f, TRIG_COLS)
            w.writeheader()
            w.writerows(rs)


def write_trigger_file(path, rows):
    with open(path, "w", newline="") as f:
        w = csv.DictWriter(f, TRIG_COLS)
        w.writeheader()
        w.writerows(rows)
    return str(path)


def make_scan(path, lut, archive, onset, picker=None, mags=None, mw=0.5, name="run", **kw):
    from quakemigrate.signal import QuakeScan
    from quakemigrate.signal.pickers import GaussianPicker

    if picker is None:
        picker = GaussianPicker(onset=onset, plot_picks=False)
    return QuakeScan(archive, lut, onset, str(path), name, picker=picker, mags=mags,
                     marginal_window=mw, plot_event_summary=False, threads=1, **kw)


def outputs(path, name="run"):
    """{'events': {uid: row}, 'picks': {uid: [rows]}, 'other': {relative name: bytes}}"""
    root = pathlib.Path(path) / name / "locate"
    out = dict(events={}, picks={}, other={})
    for f in sorted(root.rglob("*")) if root.exists() else []:
        if not f.is_file():
            continue
        if f.suffix in (".event", ".picks"):
            with open(f) as fh:
                rows = list(csv.DictReader(fh))
            if f.suffix == ".event":
                out["events"][f.stem] = rows
            else:
                out["picks"][f.stem] = rows
        elif f.suffix != ".log":
            out["other"][str(f.relative_to(root))] = f.read_bytes()
    return out
