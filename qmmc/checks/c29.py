import itertools

import numpy as np
from obspy import Stream, Trace, UTCDateTime

from qmmc import world
from qmmc.core import Group

LEVEL = "exploration"
RULE = ("one evaluation = one call of the real STALTAOnset.calculate_onsets for one arrangement of channel data, quality "
        "settings and onset settings; the flags, the order and number of stacked onsets, every onset value and the "
        "filtered waveforms are compared with a reference that screens, filters and combines each channel by itself. "
        "Distinct by all of these; non-trivial: at least one channel has data.")
ASSUMPTIONS = ["ObsPy's detrend, taper and Butterworth filter are what the documented pre-processing names",
               "decimation as checked under C19",
               "energies within a station's window do not differ by more than the 16 digits of a double, gaps apart"]

T0 = UTCDateTime("2015-12-31T23:59:55")
SR = 50
SPAN = 10       # s
N = SPAN * SR + 1
KINDS = ("none", "full", "gap", "late", "early", "flat", "zero", "gap-flat", "overlap", "fast", "off-rate", "longer")


def salt(cid):
    return sum(ord(c) * (k + 3) for k, c in enumerate(cid))


def signal(cid, idx, sr=SR):
    """Reproducible noise with a burst; depends on channel and absolute time."""
    idx = np.asarray(idx, dtype=np.int64)
    s = salt(cid)
    noise = ((idx * 7919 + s * 104729) * 31 % 65537) / 65537 - 0.5
    t = idx / sr - SPAN * (0.4 + 0.2 * (s % 7) / 7)
    return 100 * noise + 900 * np.exp(-0.5 * (t / 0.15) ** 2) * np.sin(2 * np.pi * 6 * t)


def pieces(kind):
    """[(first, last, flat value or None, rate factor)] in samples of the piece's own rate."""
    return {"none": [], "full": [(0, N - 1, None, 1)], "gap": [(0, 199, None, 1), (230, N - 1, None, 1)],
            "late": [(60, N - 1, None, 1)], "early": [(0, N - 90, None, 1)], "flat": [(0, N - 1, 4711.0, 1)],
            "zero": [(0, N - 1, 0.0, 1)], "gap-flat": [(0, 199, None, 1), (230, N - 1, -13.0, 1)],
            "overlap": [(0, 260, None, 1), (200, N - 1, None, 1)], "fast": [(0, (N - 1) * 2, None, 2)],
            "off-rate": [(0, int((N - 1) * 0.8), None, 0.8)], "longer": [(-1, N, None, 1)],
            "blip": [(100, 100, None, 1)], "short": [(0, 99, None, 1), (110, 170, None, 1), (200, N - 1, None, 1)],
            }[kind]


def trace(cid, a, b, flat, f):
    net, sta, loc, cha = cid.split(".")
    sr = SR * f
    idx = np.arange(a, b + 1)
    y = np.full(len(idx), flat) if flat is not None else signal(cid, idx, sr)
    return Trace(y, header=dict(network=net, station=sta, location=loc, channel=cha, sampling_rate=sr,
                                starttime=T0 + a / sr))


def stream(conf):
    """conf: {seed id: kind}."""
    st = Stream()
    for cid, kind in conf.items():
        for p in pieces(kind):
            st += trace(cid, *p)
    return st


def usable(kind, gaps, full):
    """The documented criteria, on sample numbers after resampling and trimming to the window."""
    ps = pieces(kind)
    if not ps or any(p[2] is not None for p in ps):
        return False
    if any(p[3] not in (1, 2) for p in ps):
        return False
    ps = [(max(0, int(a / f)), min(N - 1, int(b / f))) for a, b, _, f in ps]
    if any(q[0] <= p[1] for p, q in zip(ps, ps[1:])):
        return False
    if any(a == b for a, b in ps):
        return False            # a single sample is a flatline
    if len(ps) > 1 and (full or not gaps):
        return False
    return not full or ps[0] == (0, N - 1)


def filtered(cid, kind, filt):
    """Each piece pre-processed by itself, trimmed to the window."""
    from quakemigrate.util import decimate

    out = []
    for p in pieces(kind):
        tr = trace(cid, *p)
        if p[3] == 2:
            tr = decimate(tr, SR)
        tr.trim(T0 - 1e-5, T0 + SPAN + 1e-5, nearest_sample=False)
        tr.detrend("linear")
        tr.detrend("demean")
        tr.taper(max_percentage=0.05, type="cosine")
        tr.filter("bandpass", freqmin=filt[0], freqmax=filt[1], corners=filt[2], zerophase=True)
        out.append(tr)
    return out


def channel_trace(cid, kind, filt, padded):
    """Samples of the filtered channel over the whole window (padded) or as they are."""
    trs = filtered(cid, kind, filt)
    if not padded:
        return trs[0].data
    y = np.full(N, np.sqrt(np.finfo(float).tiny))
    for tr in trs:
        tr.taper(max_percentage=0.05, type="cosine")
        i = int(round((tr.stats.starttime - T0) * SR))
        y[i:i + len(tr.data)] = tr.data
    return y


def transform(y, kind):
    from scipy.signal import hilbert

    return {"energy": lambda: y ** 2, "abs": lambda: abs(y), "env": lambda: abs(hilbert(y)),
            "env_squared": lambda: abs(hilbert(y)) ** 2}[kind]()


def stalta(y, ns, nl, position):
    """STA/LTA by definition, with exact window sums."""
    y = np.where(y > 1e-150, y, 0)        # gaps are padded with the smallest numbers
    n = len(y)
    win = np.lib.stride_tricks.sliding_window_view
    out = np.ones(n)
    if n < nl:
        return out
    lta = win(y, nl).mean(axis=1)           # lta[k] ends at k + nl - 1
    sta = win(y, ns).mean(axis=1)
    if position == "classic":
        s = sta[nl - ns:]
        out[nl - 1:] = np.where(lta > 0, s / np.where(lta > 0, lta, 1), 1)
    else:
        m = n - nl - ns + 1
        if m > 0:
            a, b = lta[:m], sta[nl:nl + m]
            out[nl - 1:nl - 1 + m] = np.where(a > 0, b / np.where(a > 0, a, 1), 1)
    return out


def window_samples(w):
    return int(round(w * SR)) + 1


def expected(conf, stations, cfg):
    """(availability, {(station, phase): onset}, [filtered ids])."""
    import fnmatch

    maps, filt, win = cfg["channel_maps"], cfg["bandpass_filters"], cfg["sta_lta_windows"]
    flags, onsets, ids = {}, {}, []
    padded = cfg["allow_gaps"] or not cfg["full_timespan"]
    for phase in cfg["phases"]:
        for sta in stations:
            chans = [c for c in conf if c.split(".")[1] == sta and fnmatch.fnmatch(c.split(".")[3], maps[phase])
                     and conf[c] != "none"]
            ok = [c for c in chans if usable(conf[c], cfg["allow_gaps"], cfg["full_timespan"])]
            if cfg["all_channels"]:
                avail = len(ok) == len(chans) == cfg["channel_counts"][phase]
            else:
                avail = bool(ok)
            flags[f"{sta}_{phase}"] = int(avail)
            if not avail:
                continue
            ns, nl = (window_samples(w) for w in win[phase])
            single = []
            for c in sorted(ok):
                y = channel_trace(c, conf[c], filt[phase], padded)
                o = stalta(transform(y, cfg["signal_transform"]), ns, nl, cfg["position"])
                if cfg["timespan"]:
                    ts, pre = cfg["timespan"], cfg["pre_pad"]
                    edge = int(round((cfg["padded"] - pre) * SR))
                    o[:edge + nl - 1] = 1
                    o[-(ns + edge):] = 1
                single.append(o)
                ids.append((phase, c))
            onsets[sta, phase] = np.clip(np.sqrt(np.mean(np.square(single), axis=0)), cfg["min_onset_value"], None)
    return flags, onsets, ids


DEFAULT = dict(phases=["P", "S"], channel_maps={"P": "*Z", "S": "*[N,E,1,2]"}, channel_counts={"P": 1, "S": 2},
               bandpass_filters={"P": [2.0, 16.0, 2], "S": [2.0, 14.0, 2]},
               sta_lta_windows={"P": [0.2, 1.0], "S": [0.3, 1.2]}, all_channels=False, allow_gaps=False,
               full_timespan=True, position="classic", signal_transform="energy", min_onset_value=0.4,
               use_python_backend=False)


def run_onset(ctx, conf, stations, lab, timespan=None, **kw):
    """One call, checked completely; returns the onsets by station and phase."""
    import copy

    from quakemigrate.io.data import WaveformData
    from quakemigrate.signal.onsets import STALTAOnset
    from quakemigrate.util import DataAvailabilityException

    cfg = copy.deepcopy({**DEFAULT, **kw})
    onset = STALTAOnset(sampling_rate=SR, **copy.deepcopy(cfg))
    cfg["timespan"] = timespan
    if timespan:
        # pads: the onset's needs plus six percent of everything for the taper
        w = cfg["sta_lta_windows"].values()
        cfg["pre_pad"] = max(x[1] for x in w) + 3 * max(x[0] for x in w)
        onset.post_pad = 1.0
        cfg["padded"] = onset.pad(timespan)[0]      # checked under C20
    flags, want, ids = expected(conf, stations, cfg)
    data = WaveformData(T0, T0 + SPAN, stations=world.station_table(list(stations))["Name"])
    data.waveforms = stream(conf)
    before = [(t.id, t.stats.starttime.ns, t.stats.sampling_rate, t.data.copy()) for t in data.waveforms]
    ctx.count(lab, nontrivial=any(k != "none" for k in conf.values()))
    try:
        stack, od = onset.calculate_onsets(data, timespan) if timespan else onset.calculate_onsets(data)
    except DataAvailabilityException:
        ctx.check(not want, "unavailable", lambda: f"{lab}: refused, wanted {flags}")
        ctx.add(unavailable=1)
        return {}
    after = [(t.id, t.stats.starttime.ns, t.stats.sampling_rate, t.data) for t in data.waveforms]
    ctx.check(len(before) == len(after) and all(a[:3] == b[:3] and np.array_equal(a[3], b[3])
                                                for a, b in zip(before, after)), "input-modified", lab)
    got = {k: int(v) for k, v in od.availability.items()}
    ctx.check(got == flags, "flags", lambda: f"{lab}: {got}, wanted {flags}")
    ctx.check(list(got) == list(flags), "flag-order", lambda: f"{lab}: {list(got)}")
    ctx.check(bool(want), "nothing-available-accepted", lambda: f"{lab}: {got}")
    ctx.check({(s, p) for s in od.onsets for p in od.onsets[s]} == set(want), "onset-set",
              lambda: f"{lab}: {[(s, list(od.onsets[s])) for s in od.onsets]}, wanted {list(want)}")
    ctx.check(stack.shape == (len(want), N), "stack-shape", lambda: f"{lab}: {stack.shape}")
    for k, (key, o) in enumerate(want.items()):
        row = stack[k]
        one = od.onsets[key[0]][key[1]]
        ctx.check(np.array_equal(row, one), "stack-order", lambda: f"{lab}: row {k} is not {key}")
        ctx.check(row.min() >= cfg["min_onset_value"], "below-minimum", lambda: f"{lab}: {key} {row.min()}")
        bad = np.abs(row - o) > 1e-5 * np.maximum(1, o)
        if cfg["use_python_backend"]:
            # rounding of sums of the smallest numbers
            bad &= (o != 1) | (row > 1.2)
        ctx.check(not bad.any(), "onset-values",
                  lambda: f"{lab}: {key} differs at {np.nonzero(bad)[0][:5].tolist()}: {row[bad][:3]}, wanted {o[bad][:3]}")
    have = sorted({t.id for t in od.filtered_waveforms})
    ctx.check(have == sorted({c for _, c in ids}), "filtered-waveforms",
              lambda: f"{lab}: {have}, wanted {ids}")
    ctx.check(od.sampling_rate == SR and od.starttime == T0 and od.endtime == T0 + SPAN and
              list(od.phases) == list(cfg["phases"]), "onset-data", lab)
    ctx.add(stacked=len(want))
    return want


FLAGS = [dict(all_channels=a, allow_gaps=g, full_timespan=f) for a in (False, True) for g in (False, True)
         for f in (False, True)]


def quality_cases(tier):
    kinds = KINDS if tier == "quick" else KINDS + ("blip", "short")
    for z, n in itertools.product(kinds, repeat=2):
        yield dict(z=z, n=n, tier=tier)


def quality_run(case, ctx):
    kinds = KINDS if case["tier"] == "quick" else KINDS + ("blip", "short")
    for e in kinds:
        conf = {"N.A..HHZ": case["z"], "N.A..HHN": case["n"], "N.A..HHE": e}
        for k, fl in enumerate(FLAGS):
            pos = ("classic", "centred")[(kinds.index(e) + k) % 2]
            run_onset(ctx, conf, ("A",), f"Z {case['z']}, N {case['n']}, E {e}, {fl}, {pos}", position=pos, **fl)
    ctx.sample(**case)


def single_cases(tier):
    for pos in ("classic", "centred"):
        for tf in ("energy", "abs", "env", "env_squared"):
            for back in (False, True):
                yield dict(position=pos, transform=tf, backend=back, tier=tier)


def single_run(case, ctx):
    """Onset settings."""
    combos = [("full", "full", "full"), ("late", "gap", "full"), ("full", "none", "fast"), ("early", "flat", "longer")]
    for (z, n, e), (ns, nl), mov, ts in itertools.product(
            combos, [(0.2, 1.0), (0.02, 0.5), (0.5, 0.6), (1.0, 4.0)], (0.01, 0.4, 1.0, 3.0), (None, 2.0, 0.5)):
        conf = {"N.A..HHZ": z, "N.A..HHN": n, "N.A..HHE": e, "N.B..HHZ": e}
        for fl in (FLAGS[1], FLAGS[2]):
            run_onset(ctx, conf, ("A", "B"), f"{case}, {z}/{n}/{e}, windows {ns}, {nl}, min {mov}, timespan {ts}, {fl}",
                      timespan=ts, position=case["position"], signal_transform=case["transform"],
                      use_python_backend=case["backend"], min_onset_value=mov,
                      sta_lta_windows={"P": [ns, nl], "S": [ns * 1.2, nl * 1.5]}, **fl)
    ctx.sample(**case)


MAPS = [{"P": "*Z", "S": "*[N,E,1,2]"}, {"P": "*[Z,E]", "S": "*N"}, {"P": "*", "S": "*"}, {"P": "HHZ", "S": "HH?"},
        {"P": "BH*", "S": "HHN"}]


def order_cases(tier):
    for m in range(len(MAPS)):
        for phases in (["P", "S"], ["S", "P"], ["P"], ["S"]):
            yield dict(maps=m, phases=phases, tier=tier)


def order_run(case, ctx):
    """Stations, phases and channel maps: what is stacked, and in which order."""
    some = ("none", "full", "gap", "flat") if case["tier"] == "quick" else ("none", "full", "gap", "flat", "late", "fast")
    for ka, kb, kc in itertools.product(some, repeat=3):
        conf = {"N.B..HHZ": ka, "N.B..HHN": kb, "N.A..HHZ": kc, "N.A..HHE": ka, "N.A.10.HHE": kb, "N.C..BHZ": kc,
                "N.AB..HHZ": "full", "N.X..HHZ": "full"}
        for stations in (("A", "B", "C"), ("C", "AB", "B", "A"), ("B",), ("Q", "B", "A")):
            for fl in (FLAGS[1], FLAGS[5]):
                run_onset(ctx, conf, stations, f"{case}, {ka}/{kb}/{kc}, stations {stations}, {fl}",
                          phases=case["phases"], channel_maps=MAPS[case["maps"]],
                          channel_counts={"P": 1, "S": 2}, **fl)
    ctx.sample(**case)


def others_cases(tier):
    for b in itertools.product(KINDS, repeat=2):
        yield dict(b=b)


def others_run(case, ctx):
    """One station's onset for every state of another station's channels."""
    for a in ("full", "late", "gap"):
        for fl in (FLAGS[0], FLAGS[1], FLAGS[2]):
            for stations in (("A", "B"), ("B", "A")):
                conf = {"N.A..HHZ": a, "N.A..HHN": "full", "N.B..HHZ": case["b"][0], "N.B..HHN": case["b"][1]}
                run_onset(ctx, conf, stations, f"{case}, A {a}, {fl}, {stations}", **fl)
    ctx.sample(**case)


def refusal_cases(tier):
    for hi in (1, 10, 24.9, 24.999, 25, 25.1, 40):
        yield dict(highcut=hi)
    for mov in (-1, 0, 0.005, 0.0099, 0.01, 0.011, 0.4, 2):
        yield dict(minimum=mov)


def refusal_run(case, ctx):
    from quakemigrate.signal.onsets import STALTAOnset
    from quakemigrate.util import NyquistException

    ctx.count(tuple(case.items()))
    if "highcut" in case:
        filt = {"P": [0.5, case["highcut"], 2], "S": [0.5, 10, 2]}
        for order in (["P", "S"], ["S", "P"]):
            for kind in ("full", "none"):
                try:
                    run_onset(ctx, {"N.A..HHZ": kind, "N.A..HHN": "full"}, ("A",), f"{case} {order} {kind}",
                              bandpass_filters=filt, phases=order)
                    ctx.check(case["highcut"] < SR / 2, "nyquist-accepted", f"{case}")
                except NyquistException:
                    ctx.check(case["highcut"] >= SR / 2, "nyquist-refused", f"{case}")
    else:
        try:
            STALTAOnset(sampling_rate=SR, min_onset_value=case["minimum"])
            ctx.check(case["minimum"] >= 0.01, "minimum-accepted", f"{case}")
        except ValueError:
            ctx.check(case["minimum"] <= 0.01, "minimum-refused", f"{case}")
    try:
        STALTAOnset()
        ctx.fail("no-sampling-rate-accepted", "STALTAOnset()")
    except ValueError:
        pass
    ctx.sample(**case)


def groups():
    return [Group("quality", quality_cases, quality_run, timeout=300), Group("settings", single_cases, single_run, timeout=300),
            Group("order", order_cases, order_run, timeout=300), Group("others", others_cases, others_run),
            Group("refusals", refusal_cases, refusal_run)]
