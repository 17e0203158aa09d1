"""
Synthetic surroundings for whole-program exploration: small lookup tables, an archive and
an onset function whose answers are chosen by the explorer, and helpers that read the
files a run leaves behind without using QuakeMigrate's own readers.
"""

import math
import pathlib

import numpy as np
import pandas as pd
from obspy import Stream, Trace, UTCDateTime, read

PROJ = {}


def projections(kind="lcc_km"):
    from pyproj import Proj

    if kind not in PROJ:
        cproj = Proj(proj="longlat", ellps="WGS84", datum="WGS84", no_defs=True)
        lcc = dict(proj="lcc", lon_0=116.75, lat_0=6.25, lat_1=4.0, lat_2=7.5,
                   datum="WGS84", ellps="WGS84", no_defs=True)
        utm = dict(proj="utm", zone=27, datum="WGS84", ellps="WGS84", no_defs=True)
        grid = {
            "lcc_km": lambda: Proj(units="km", **lcc),
            "lcc_m": lambda: Proj(units="m", **lcc),
            "utm_km": lambda: Proj(units="km", **utm),
            "utm_m": lambda: Proj(units="m", **utm),
            "tmerc_km": lambda: Proj(proj="tmerc", lon_0=-20.0, lat_0=64.0, units="km",
                                     datum="WGS84", ellps="WGS84", no_defs=True),
        }[kind]()
        PROJ[kind] = (grid, cproj)
    return PROJ[kind]


ORIGIN = {"lcc_km": (116.75, 6.25), "lcc_m": (116.75, 6.25), "utm_km": (-21.0, 64.0),
          "utm_m": (-21.0, 64.0), "tmerc_km": (-20.0, 64.0)}


def make_lut(node_count=(2, 2, 2), spacing=(1.0, 1.0, 1.0), stations=("A", "B"),
             phases=("P", "S"), kind="lcc_km", zmin=-0.5, tt=None, fraction_tt=0.1,
             spread=1.0, scale=None):
    """A LUT of the wanted shape; traveltimes from `tt(station_index, phase, ijk grid)`
    or a deterministic non-degenerate default."""
    from pyproj import Transformer

    from quakemigrate.lut import LUT

    gproj, cproj = projections(kind)
    node_count = np.array(node_count)
    spacing = np.array(spacing, float)
    lon, lat = ORIGIN[kind]
    gx, gy = Transformer.from_proj(cproj, gproj).transform(lon, lat)
    ll = np.array([gx, gy, zmin])
    ur = ll + (node_count - 1) * spacing
    # nudge inside by a fraction of a cell so that rounding cannot add a node
    ur_in = ur - np.where(node_count > 1, 0.25 * spacing, 0)
    tr = Transformer.from_proj(gproj, cproj)
    lut = LUT(ll_corner=tr.transform(*ll), ur_corner=tr.transform(*ur_in),
              node_spacing=spacing, grid_proj=gproj, coord_proj=cproj,
              fraction_tt=fraction_tt)
    lut.node_count = node_count
    names = list(stations)
    lut.station_data = station_table(names, kind)
    lut.phases = list(phases)
    ijk = np.indices(tuple(node_count))
    flat = np.arange(int(np.prod(node_count))).reshape(tuple(node_count))
    for s, name in enumerate(names):
        for p, phase in enumerate(phases):
            if tt is not None:
                grid = tt(s, phase, ijk)
            else:
                grid = spread * (0.25 * ((flat * (2 * s + 3) + 5 * s + 2 * p) % 7)
                                 + 0.5 * p)
            lut.traveltimes.setdefault(name, {})[phase] = np.array(grid, dtype=float)
    return lut


def station_table(names, kind="lcc_km"):
    lon, lat = ORIGIN[kind]
    return pd.DataFrame({
        "Latitude": [lat + 0.01 * i for i in range(len(names))],
        "Longitude": [lon + 0.013 * i for i in range(len(names))],
        "Elevation": [-0.1 * i for i in range(len(names))],
        "Name": list(names),
    })


def sample_index(t, sr):
    """Absolute sample number of a time (exact arithmetic on nanoseconds)."""
    ns = t.ns if hasattr(t, "ns") else t._ns
    return int(round(ns * sr / 1e9)) if sr < 1 else (ns * int(sr) + 500_000_000) // 1_000_000_000


class FakeData:
    def __init__(self, starttime, endtime):
        self.starttime, self.endtime = starttime, endtime
        self.waveforms = Stream()
        self.raw_waveforms = Stream()
        self.resample, self.upfactor = False, None


class FakeArchive:
    """Answers each request as the explorer's plan says; records the requests."""

    def __init__(self, stations, plan=None):
        self.stations = pd.Series(list(stations))
        self.plan = plan or (lambda n, a, b: "ok")
        self.requests = []
        self.read_all_stations = False
        self.response_inv = None
        self.resample, self.upfactor = False, None

    def __str__(self, response_only=False):
        return "fake archive"

    def read_waveform_data(self, starttime, endtime, *args, **kwargs):
        import quakemigrate.util as util

        n = len(self.requests)
        self.requests.append((starttime, endtime, args, kwargs))
        what = self.plan(n, starttime, endtime)
        if what == "empty":
            raise util.ArchiveEmptyException
        if what == "gap":
            raise util.DataGapException
        data = FakeData(starttime, endtime)
        data.what = what
        return data


def onset_class():
    from quakemigrate.signal.onsets.base import Onset, OnsetData

    class FakeOnset(Onset):
        """Onset functions given by a function of (station, phase, absolute sample)."""

        def __init__(self, stations, phases, sampling_rate, value, pre=0.0, post=0.0,
                     available=None, halfwidth=None):
            super().__init__(sampling_rate=sampling_rate)
            self.stations, self.phases = list(stations), list(phases)
            self.value = value
            self._pre, self._post = pre, post
            self.available = available
            self.halfwidth = halfwidth
            self.calls = []

        def __str__(self):
            return "fake onset"

        @property
        def pre_pad(self):
            return self._pre

        @pre_pad.setter
        def pre_pad(self, v):
            self._pre = v

        @property
        def post_pad(self):
            return self._post

        @post_pad.setter
        def post_pad(self, v):
            self._post = v

        def gaussian_halfwidth(self, phase):
            if self.halfwidth is None:
                return 0.5
            return self.halfwidth[phase] if isinstance(self.halfwidth, dict) else self.halfwidth

        def calculate_onsets(self, data, *args, **kwargs):
            import quakemigrate.util as util

            sr = self.sampling_rate
            i0 = sample_index(data.starttime, sr)
            i1 = sample_index(data.endtime, sr)
            self.calls.append((data.starttime, data.endtime))
            if getattr(data, "what", "ok") == "unavailable":
                raise util.DataAvailabilityException
            avail = {}
            onsets, rows, filt = {}, [], Stream()
            for ph in self.phases:
                for st in self.stations:
                    ok = 1
                    if self.available is not None:
                        ok = int(self.available(st, ph, data))
                    avail[f"{st}_{ph}"] = ok
                    if ok:
                        row = self.value(st, ph, np.arange(i0, i1 + 1))
                        rows.append(row)
                        onsets.setdefault(st, {})[ph] = row
                        filt += Trace(data=np.array(row), header=dict(
                            network="AA", station=st, channel="HHZ" if ph == "P" else "HHN",
                            starttime=data.starttime, sampling_rate=sr))
            if not rows:
                raise util.DataAvailabilityException
            od = OnsetData(onsets, self.phases, {"P": "*Z", "S": "*N"}, filt, avail,
                           data.starttime, data.endtime, sr)
            return np.stack(rows, axis=0), od

    return FakeOnset


def hash_onset(salt=0):
    """Deterministic pseudo-random onset value of (station, phase, absolute sample)."""
    def value(st, ph, idx):
        h = (idx * 2654435761 + sum(map(ord, st)) * 97 + ord(ph[0]) * 31 + salt * 1013)
        h = (h ^ (h >> 7)) % 1009
        return 0.1 + h / 200.0

    return value


# --- readers of what a run left on disk (independent of quakemigrate.io) ------------
def read_day_files(run_dir):
    """{day filename: {channel: [(starttime, data array, sr), ...]}}"""
    out = {}
    d = pathlib.Path(run_dir) / "detect" / "scanmseed"
    if not d.exists():
        return out
    for f in sorted(d.iterdir()):
        st = read(str(f), format="MSEED")
        chans = {}
        for tr in st:
            chans.setdefault(tr.stats.station, []).append(
                (tr.stats.starttime, tr.data, tr.stats.sampling_rate))
        out[f.name] = chans
    return out


def tree(root):
    """{relative path: bytes} of a directory tree."""
    root = pathlib.Path(root)
    return {str(p.relative_to(root)): p.read_bytes()
            for p in sorted(root.rglob("*")) if p.is_file()}


def day_name(t):
    return f"{t.year}_{t.julday:03d}"


__all__ = [n for n in dir() if not n.startswith("_")]
_ = math
