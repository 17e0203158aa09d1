"""Synthetic day-file archives on disk, and a reference for what a request must return."""

import pathlib

import numpy as np
from obspy import Stream, Trace, UTCDateTime

from . import world


def code_value(station, channel, idx):
    """Integer sample values that identify station, channel and absolute sample number."""
    salt = sum(ord(c) * (31 + 7 * k) for k, c in enumerate(station + channel)) % 977
    idx = np.asarray(idx, dtype=np.int64)
    return ((idx * 7919 + salt * 104729) % 2000003 - 1000001).astype(np.int32)


def noisy(station, channel, idx):
    """Deterministic broad-band integers of moderate size."""
    return (code_value(station, channel, np.asarray(idx) * 31 + (np.asarray(idx) % 7) * 977)
            // 200).astype(np.int32)


def time_of(i, sr):
    """Time of absolute sample i (exact nanoseconds, rounded)."""
    return UTCDateTime(ns=(int(i) * 1_000_000_000 + int(sr) // 2) // int(sr))


def day_samples(i0, i1, sr):
    """Split samples i0..i1 (inclusive) at midnights: [(day start time, a, b)]."""
    out = []
    a, i1 = int(i0), int(i1)
    per = 86400 * int(sr)
    while a <= i1:
        day = a // per
        b = min(i1, (day + 1) * per - 1)
        out.append((UTCDateTime(ns=day * 86400 * 1_000_000_000), a, b))
        a = b + 1
    return out


def write_archive(root, sr, segments, value=code_value, net="AA", loc="", offset=0.0,
                  fmt="YEAR/JD/*_STATION_*"):
    """segments: {(station, channel): [(first, last sample), ...]} -> day files."""
    root = pathlib.Path(root)
    n = 0
    for (sta, cha), segs in segments.items():
        rate = sr[(sta, cha)] if isinstance(sr, dict) else sr
        off = offset[(sta, cha)] if isinstance(offset, dict) else offset
        network = net[sta] if isinstance(net, dict) else net
        days = {}
        for i0, i1 in segs:
            for day, a, b in day_samples(i0, i1, rate):
                data = value(sta, cha, np.arange(a, b + 1))
                days.setdefault(day.timestamp, []).append(Trace(
                    data=np.array(data), header=dict(
                        network=network, station=sta, location=loc, channel=cha,
                        sampling_rate=rate, starttime=time_of(a, rate) + off)))
        for day, traces in days.items():
            day = UTCDateTime(day)
            if fmt == "YEAR/JD/*_STATION_*":
                p = root / f"{day.year}" / f"{day.julday:03d}" / f"{n}_{sta}_{cha}.m"
            elif fmt == "SeisComp3":
                p = (root / f"{day.year}" / network / sta / f"{cha}.D" /
                     f"{network}.{sta}.{loc}.{cha}.D.{day.year}.{day.julday:03d}")
            elif fmt == "YEAR/JD/STATION":
                p = root / f"{day.year}" / f"{day.julday:03d}" / f"{sta}.{cha}"
            elif fmt == "STATION.YEAR.JULIANDAY":
                p = root / f"{network}{sta}.{cha}.{day.year}.{day.julday:03d}"
            elif fmt == "/STATION/STATION.YearMonthDay":
                p = root / sta / f"{sta}.{day.year}{day.month:02d}{day.day:02d}"
            elif fmt == "YEAR_JD/STATION*":
                p = root / f"{day.year}_{day.julday:03d}" / f"{sta}.{cha}"
            elif fmt == "YEAR_JD/STATION_*":
                p = root / f"{day.year}_{day.julday:03d}" / f"{sta}_{cha}"
            else:
                raise ValueError(fmt)
            p.parent.mkdir(parents=True, exist_ok=True)
            st = Stream(traces)
            if p.exists():
                from obspy import read
                st = read(str(p)) + st
            st.write(str(p), format="MSEED")
            n += 1
    return root


def station_frame(names):
    return world.station_table(list(names))
