import itertools
import math
import re
import warnings

import numpy as np
import pandas as pd
from obspy import Stream, Trace, UTCDateTime, read
from obspy.core import AttribDict
from obspy.core.event import Event, Origin, Pick, WaveformStreamID

from qmmc.core import Group

LEVEL = "exploration"
RULE = ("one evaluation = one event with a set of picks exported by the real code; the file is "
        "parsed by an independent reader of the format and each pick compared with the event. "
        "Non-trivial: a time with a fraction of a second, or more than one pick.")
ASSUMPTIONS = ["MFAST: station heights are compared in magnitude only (the station table holds "
               "depths or heights, depending on how it was read)"]

BASES = ["2020-02-28T23:59:59", "2015-12-31T23:59:59", "2016-02-29T00:00:00",
         "2019-01-01T00:00:00", "2021-06-30T09:05:07", "2024-12-31T23:00:09",
         "2018-10-10T10:59:59", "1999-09-09T09:09:09"]
FRACTIONS = [0, 1, 20, 49, 50, 51, 300, 999, 1000, 4000, 5600, 10000, 50000, 123456, 500000,
             600000, 900000, 999949, 999950, 999951, 999999]


def instants(tier):
    bases = BASES
    fr = FRACTIONS
    if tier == "thorough":
        fr = sorted(set(FRACTIONS) | {10 ** k * d for k in range(6) for d in range(1, 10)} |
                    set(range(0, 1000000, 3571)))
        bases = BASES + [f"2020-{m:02d}-{d:02d}T{h:02d}:{mi:02d}:{s:02d}" for m, d in
                         ((1, 1), (10, 31)) for h in (0, 9, 23) for mi in (0, 59)
                         for s in (0, 9, 59)]
    return [[b, f] for b in bases for f in fr]


def at(base, micro, dt=0.0):
    return UTCDateTime(base) + micro * 1e-6 + dt


def pick(station, phase, time, method, err=None, net="", chan=None, **kw):
    p = Pick(waveform_id=WaveformStreamID(network_code=net, station_code=station,
                                          channel_code=chan), phase_hint=phase, time=time, **kw)
    if method:
        p.method_id = method
    if err is not None:
        p.time_errors.uncertainty = err
    return p


def event(uid, otime, picks):
    e = Event()
    e.resource_id = uid
    o = Origin(time=otime, latitude=6.25, longitude=116.75, depth=12345.0)
    e.origins = [o]
    e.preferred_origin_id = o.resource_id
    e.picks = picks
    return e


# -- NonLinLoc ----------------------------------------------------------------------------


def parse_nlloc(text):
    out = []
    for line in text.splitlines():
        f = line.split()
        assert len(f) == 15 and f[9] == "GAU", line
        t = UTCDateTime(int(f[6][:4]), int(f[6][4:6]), int(f[6][6:])) + \
            3600 * int(f[7][:2]) + 60 * int(f[7][2:])
        out.append((f[0], f[4], t.ns + int(round(float(f[8]) * 1e9)), float(f[10]), f[2], f[3],
                    f[5]))
    return out


ERRORS = [0.0123, 1.5, 0.000456, None, 12.25]


def picks_for(t, outcomes, stations):
    """Picks in the order read_quakemigrate gives them: modelled, then automatic if any."""
    out = []
    for n, ((s, ph), ok) in enumerate(zip(itertools.product(stations, ("P", "S")), outcomes)):
        out.append(pick(s, ph, t + 0.75 * n, "modelled"))
        if ok:
            out.append(pick(s, ph, t + 0.75 * n + 0.0625 * (n + 1), "autopick",
                            0.0123 * (n + 1)))
    return out


def nlloc_cases(tier):
    return instants(tier)


def run_nlloc(case, ctx):
    from quakemigrate.export.to_nlloc import nlloc_obs

    t = at(*case)
    tmp = ctx.tmp()
    f = tmp / "out.nll"
    for outcomes in itertools.product((0, 1), repeat=4):
        ev = event("20200101000000000", t, picks_for(t, outcomes, ("AB1", "LONGNAME")))
        # picks of other origins: none of them automatic picks
        ev.picks.append(pick("ZZ", "P", t + 9, "manual", 0.1))
        for auto in (True, False):
            ctx.count((case, outcomes, auto), nontrivial=bool(case[1]) or sum(outcomes) > 1)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                nlloc_obs(ev, str(f), autopick=auto)
            got = sorted(parse_nlloc(f.read_text()))
            want = sorted((p.waveform_id.station_code, p.phase_hint, p.time.ns,
                           p.time_errors.uncertainty)
                          for p in ev.picks if p.method_id == ("autopick" if auto else
                                                               "modelled"))
            label = f"{t} picks {outcomes} autopick={auto}"
            ctx.check([g[:2] for g in got] == [w[:2] for w in want], "nlloc-picks",
                      lambda: f"{label}: {got} expected {want}")
            for g, w in zip(got, want):
                ctx.check(abs(g[2] - w[2]) <= 50_001, "nlloc-time",
                          lambda: f"{label}: {f.read_text()!r} is {(g[2] - w[2]) / 1e9} s out")
                err = -1.0 if w[3] is None else w[3]
                ctx.check(abs(g[3] - err) <= 0.006 * abs(err), "nlloc-error",
                          lambda: f"{label}: {g[3]} for {w[3]}")
            ctx.add(picks_compared=len(got))
    ctx.sample(instant=str(t))


def nlloc_attr_cases(tier):
    for onset in (None, "impulsive", "emergent", "questionable"):
        for pol in (None, "positive", "negative", "undecidable"):
            for chan in (None, "HHZ", "BHE", "EH1", "n"):
                for err in (0.5, None, (0.25, 0.75), 1e-3, 123.0):
                    yield [onset, pol, chan, err]


def run_nlloc_attr(case, ctx):
    from quakemigrate.export.to_nlloc import nlloc_obs

    onset, pol, chan, err = case
    t = at("2020-02-29T23:59:59", 987654)
    p = pick("A", "P", t, "autopick", err if not isinstance(err, (list, tuple)) else None,
             chan=chan, onset=onset, polarity=pol)
    if isinstance(err, (list, tuple)):
        p.time_errors.lower_uncertainty, p.time_errors.upper_uncertainty = err
    tmp = ctx.tmp()
    nlloc_obs(event("1", t, [p]), str(tmp / "f"))
    (g,) = parse_nlloc((tmp / "f").read_text())
    ctx.count(case)
    want = -1 if err is None else sum(err) / 2 if isinstance(err, (list, tuple)) else err
    ctx.check(abs(g[3] - want) < 0.006 * abs(want), "nlloc-error", f"{case}: {g}")
    comp = chan[-1].upper() if chan and chan[-1].upper() in "ZNE" else "?"
    ctx.check(g[4] == comp, "nlloc-component", f"{case}: {g}")
    ctx.check(g[5] == {"impulsive": "i", "emergent": "e"}.get(onset, "?"), "nlloc-onset",
              f"{case}: {g}")
    ctx.check(g[6] == {"positive": "u", "negative": "d"}.get(pol, "?"), "nlloc-polarity",
              f"{case}: {g}")


# -- Snuffler -----------------------------------------------------------------------------

MARK = re.compile(r"^phase: (\d{4})-(\d\d)-(\d\d) (\d\d):(\d\d):(\d\d)\.(\d+) +5 "
                  r"([^.\s]*)\.([^.\s]*)\.\.(\S*) None None None (\S+) None False$")
EVENT = re.compile(r"^event: (\d{4})-(\d\d)-(\d\d) (\d\d):(\d\d):(\d\d)\.(\d+) 0 (\S+) 0\.0 0\.0 "
                   r"None None None Event None$")


def mark_time(m):
    y, mo, d, h, mi, s = (int(x) for x in m.groups()[:6])
    frac = m.group(7)
    return UTCDateTime(y, mo, d, h, mi, s).ns + int(round(float("0." + frac) * 1e9))


def run_snuffler(case, ctx):
    from quakemigrate.export.to_snuffler import snuffler_markers

    t = at(*case)
    for k, outcomes in enumerate(itertools.product((0, 1), repeat=4)):
        tmp = ctx.tmp()
        ev = event("20200101000000000", t, picks_for(t, outcomes, ("AB1", "C2")))
        for n, p in enumerate(ev.picks):
            p.waveform_id.network_code = ("", "XX", "Y1")[n % 3]
        if k % 4 == 3:       # other phases
            ev.picks[:0] = [pick("C2", "Sn", t + 3, "autopick", 0.1, "XX")]
            ev.picks.append(pick("AB1", "PKP", t + 4, "autopick", 0.1, "YY"))
        snuffler_markers(ev, str(tmp), *(("mine.txt",) if k % 2 else ()))
        f = tmp / "20200101000000000" / ("mine.txt" if k % 2 else "20200101000000000.markers")
        ctx.count((case, outcomes), nontrivial=bool(case[1]) or sum(outcomes) > 1)
        ctx.check(f.is_file(), "snuffler-file", lambda: f"{list(tmp.rglob('*'))}")
        lines = f.read_text().splitlines()
        label = f"{t} picks {outcomes}"
        m = EVENT.match(lines[1])
        ctx.check(m and m.group(8) == "20200101000000000" and mark_time(m) == t.ns,
                  "snuffler-event", lambda: f"{label}: {lines[1]!r}")
        got = []
        for line in lines[2:]:
            m = MARK.match(line)
            ctx.check(m is not None, "snuffler-line", lambda: f"{label}: {line!r}")
            got.append((m.group(8), m.group(9), m.group(11), mark_time(m)))
        want = [(p.waveform_id.network_code, p.waveform_id.station_code, p.phase_hint, p.time.ns)
                for p in ev.picks]
        ctx.check([g[:3] for g in got] == [w[:3] for w in want], "snuffler-picks",
                  lambda: f"{label}: {got} expected {want}")
        for g, w, line in zip(got, want, lines[2:]):
            ctx.check(abs(g[3] - w[3]) < 500, "snuffler-time",
                      lambda: f"{label}: {line!r} for {UTCDateTime(ns=w[3])}")
        ctx.add(picks_compared=len(got))


def snuffler_station_cases(tier):
    nets = ("XX", "Y", "")
    for n in (1, 2, 3):
        for combo in itertools.product(nets, repeat=n):
            for code in (None, "ZZ", ""):
                for column in (0, 1):
                    yield [list(combo), code, column]


def run_snuffler_stations(case, ctx):
    from quakemigrate.export.to_snuffler import snuffler_stations

    combo, code, column = case
    tmp = ctx.tmp()
    st = pd.DataFrame({"Name": [f"S{i}" for i in range(len(combo))],
                       "Latitude": [1.5 + i for i in range(len(combo))],
                       "Longitude": [-2.25 - i for i in range(len(combo))],
                       "Elevation": [0.5 * i for i in range(len(combo))]})
    if column:
        st["Network"] = combo
    snuffler_stations(st, str(tmp), "f.txt", network_code=code)
    ctx.count(case, nontrivial=len(combo) > 1)
    lines = [x.split() for x in (tmp / "f.txt").read_text().splitlines()]
    for i, (line, row) in enumerate(zip(lines, st.itertuples())):
        net = code if code is not None else combo[i] if column else ""
        ctx.check(line[0] == f"{net}.{row.Name}." and
                  [float(x) for x in line[1:4]] == [row.Latitude, row.Longitude, row.Elevation],
                  "snuffler-station", lambda: f"{case}: {line}")
    ctx.check(len(lines) == len(st), "snuffler-station", f"{case}: {lines}")


# -- MFAST --------------------------------------------------------------------------------


def mfast_cases(tier):
    starts = [(0, 0), (2500, 0), (123456, 0), (999999, 0), (2500, 1), (7001, 2)]
    outs = list(itertools.product((0, 1), repeat=4))
    for b in (BASES[:3] if tier == "quick" else BASES):
        for micro, late in starts:
            for out in outs:
                yield [b, micro, late, list(out)]


def run_mfast(case, ctx):
    from quakemigrate.export.to_mfast import sac_mfast

    base, micro, late, outcomes = case
    sr = 20.0
    t0 = at(base, micro)                 # start of the cut waveforms
    otime = t0 + 3.3
    tmp = ctx.tmp()
    stream = Stream()
    names = ("AB1", "C2", "NODATA", "PART")
    for s, comp in [*itertools.product(names[:2], "ZNE"), ("PART", "Z"), ("PART", "E")]:
        # channels may start at different times
        dt = {0: 0.0, 1: 0.35 if comp == "N" else 0.0, 2: 0.0125 if comp == "Z" else 0.0}[late]
        x = (np.arange(240) * (1 + "ZNE".index(comp)) % 17 - 8).astype(np.float32)
        stream += Trace(x, header=dict(network="XX", station=s, channel=f"HH{comp}",
                                       sampling_rate=sr, starttime=t0 + dt))
    stream.write(str(tmp / "cut.m"), format="MSEED")
    # the others have no waveforms, or not those of all channels
    picks = (picks_for(otime + 1.0, outcomes, names[:2]) +
             picks_for(otime + 2, outcomes[2:], names[2:3]) +
             picks_for(otime + 3, outcomes[:2], names[3:]))
    ev = event("20200101000000000", otime, picks)
    ev.extra = AttribDict(cut_waveforms_file=AttribDict(value=str(tmp / "cut.m")))
    st = pd.DataFrame({"Name": list(names), "Latitude": [6.3, 6.1, 6.0, 6.2],
                       "Longitude": [116.7, 116.9, 117.0, 116.8],
                       "Elevation": [0.25, -1.5, 0.5, 0.0]})
    units = "km" if sum(outcomes) % 2 else "m"
    if units == "m":
        st["Elevation"] *= 1000
    label = f"{case} {units}"
    try:
        sac_mfast(ev, st, str(tmp), units)
    except Exception as e:
        ctx.fail("mfast-failed", f"{label}: {e!r}")
    ctx.count(case)
    auto = {(p.waveform_id.station_code, p.phase_hint): p.time for p in picks
            if p.method_id == "autopick"}
    d = tmp / "20200101000000000"
    got = sorted(f.name for f in d.iterdir())
    have = {"AB1": "ZNE", "C2": "ZNE", "NODATA": "", "PART": "ZE"}
    want = sorted(f"20200101000000000.{s}.{c.lower()}" for s in names if (s, "S") in auto
                  for c in have[s])
    ctx.check(got == want, "mfast-files", lambda: f"{label}: {got} expected {want}")
    for s in names:
        if (s, "S") not in auto:
            continue
        row = st[st.Name == s].iloc[0]
        for comp in have[s]:
            tr = read(str(d / f"20200101000000000.{s}.{comp.lower()}"))[0]
            src = stream.select(station=s, channel=f"*{comp}")[0]
            h = tr.stats.sac
            ctx.check(np.array_equal(tr.data, src.data) and
                      abs(tr.stats.starttime - src.stats.starttime) < 2e-5, "mfast-data",
                      lambda: f"{label}: {s} {comp}: {tr.stats.starttime}, "
                              f"cut waveform {src.stats.starttime}")
            ref = UTCDateTime(year=h.nzyear, julday=h.nzjday, hour=h.nzhour, minute=h.nzmin,
                              second=h.nzsec, microsecond=1000 * h.nzmsec)
            for key, t in (("t0", auto[s, "S"]), ("o", otime), ("a", auto.get((s, "P")))):
                if t is None:
                    ctx.check(h.get("a") in (None, -12345.0), "mfast-failed-pick",
                              lambda: f"{label}: {s}: P {h.get('a')} although it failed")
                    continue
                ctx.check(abs(ref + float(h[key]) - t) < 5e-5, "mfast-time",
                          lambda: f"{label}: {s} {comp} {key}: {ref + float(h[key])}, "
                                  f"pick at {t}")
            ctx.check(abs(h.evla - 6.25) < 1e-5 and abs(h.evlo - 116.75) < 1e-4 and
                      abs(h.evdp - 12.345) < 1e-4 and abs(h.stla - row.Latitude) < 1e-5 and
                      abs(h.stlo - row.Longitude) < 1e-4, "mfast-position", label)
            ctx.check(abs(abs(h.stel) - abs(row.Elevation) * (1000 if units == "km" else 1))
                      < 1e-2, "mfast-elevation",
                      lambda: f"{label}: {h.stel} m, station at {row.Elevation} {units}")
            ctx.check(h.kstnm.strip() == s, "mfast-station", label)
        ctx.add(files_compared=len(have[s]))


def groups():
    return [Group("nlloc", nlloc_cases, run_nlloc),
            Group("nlloc-attributes", nlloc_attr_cases, run_nlloc_attr),
            Group("snuffler", instants, run_snuffler),
            Group("snuffler-stations", snuffler_station_cases, run_snuffler_stations),
            Group("mfast", mfast_cases, run_mfast)]
