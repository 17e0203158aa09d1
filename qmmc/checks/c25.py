import csv
import itertools
import math
import re

import numpy as np
import pandas as pd
from obspy import UTCDateTime

from qmmc.core import Group

LEVEL = "exploration"
RULE = ("one evaluation = one table of amplitude observations passed through the real "
        "Magnitude.calculate_magnitudes and mean_magnitude (or the whole LocalMag with its .amps file) under "
        "one combination of settings; individual magnitudes, the set of observations used, mean, standard "
        "deviation and r-squared are compared with their definitions evaluated observation by observation. "
        "Distinct by table and settings; non-trivial: at least one observation has an amplitude.")
ASSUMPTIONS = ["noise amplitudes are positive or null (an error of exactly zero has no finite weight)"]

T0 = UTCDateTime("2015-12-31T23:59:59.5")
NAN = float("nan")
COLS = ["epi_dist", "z_dist", "P_amp", "P_freq", "P_time", "P_avg_amp", "P_filter_gain", "S_amp",
        "S_freq", "S_time", "S_avg_amp", "S_filter_gain", "Noise_amp", "is_picked"]

IDS = ["N.A..HHE", "N.A..HHN", "N.AB.00.HHZ", "M.B..BH1", "M.B.10.BH2", "M.CA..HHE"]

# (amplitude, noise, epicentral distance, vertical distance, picked)
OBS = [
    (2.0, 0.5, 5.0, 2.0, True),
    (0.8, 0.3, 20.0, 15.0, True),
    (0.125, 0.0625, 30.0, 4.0, False),
    (9.0, 0.1, 60.0, 11.0, True),
    (0.4, 0.5, 8.0, 6.0, True),          # below the noise
    (0.75, 0.75, 12.0, 6.0, True),       # equal to the noise
    (NAN, 0.2, 7.0, 3.0, True),
    (1.5, NAN, 9.0, 3.0, True),
    (NAN, NAN, 11.0, 3.0, False),
    (0.0, 0.2, 10.0, 3.0, True),
    (1.0, 0.4, 0.0, 4.0, True),          # station at the epicentre
    (3.0, 0.2, 12.0, -0.5, False),       # event above the station
]
USABLE = [k for k, o in enumerate(OBS) if not (math.isnan(o[0]) or math.isnan(o[1]))]


def log_a0(eqn, r):
    """The published attenuation curves as listed in the documentation."""
    lin = {"keir2006": (1.196997, 0.001066), "Danakil2017": (1.274336, -0.000273),
           "Greenfield2018_askja": (1.4406, 0.003), "Greenfield2018_bardarbunga": (1.2534, 0.0032),
           "Greenfield2018_comb": (1.1999, 0.0016), "Langston1998": (0.776, 0.000902)}
    if eqn == "Hutton-Boore":
        return 1.11 * math.log10(r / 100) + 0.00189 * (r - 100) + 3
    if eqn == "UK":
        return 1.11 * math.log10(r) + 0.00189 * r - 1.16 * math.exp(-0.2 * r) - 2.09
    a, b = lin[eqn]
    return a * math.log10(r / 17) + b * (r - 17) + 2


def own_a0(r):
    return 1.5 * np.log10(r) + 0.01 * r - 1


DEFAULT = dict(A0="Hutton-Boore", use_hyp_dist=False, amp_feature="S_amp", station_corrections={},
               amp_multiplier=1.0, weighted_mean=False, trace_filter=None, noise_filter=1.0,
               station_filter=None, dist_filter=False, pick_filter=False, r2_only_used=True)


def table(rows, feature="S_amp", gains=None):
    """rows: [(id, observation)] -> amplitude table; the other phase holds other values."""
    out = []
    other = "P_amp" if feature == "S_amp" else "S_amp"
    for k, (i, (a, n, e, z, p)) in enumerate(rows):
        r = dict.fromkeys(COLS, NAN)
        r.update(epi_dist=e, z_dist=z, Noise_amp=n, is_picked=p)
        r[feature] = a
        r[other] = 17.0 + k if not math.isnan(a) else 0.03
        for f in (feature, other):
            r[f[0] + "_avg_amp"] = 0.4
            r[f[0] + "_freq"] = 2.5
            r[f[0] + "_time"] = T0 + k
        if gains is not None and not math.isnan(a):
            r[feature[0] + "_filter_gain"] = gains[k]
            r[other[0] + "_filter_gain"] = 0.11
        elif gains is None:
            r["P_filter_gain"] = r["S_filter_gain"] = None
        out.append([r[c] for c in COLS])
    df = pd.DataFrame(out, columns=COLS, index=pd.Index([i for i, _ in rows], name="id"))
    return df


def reference(rows, s, gains):
    """Per observation: dict(ml, err, dist, noise (gain corrected), used), from the definitions."""
    res = []
    filtered = gains is not None and any(not math.isnan(o[0]) for _, o in rows)
    for k, (i, (a, n, e, z, p)) in enumerate(rows):
        noise = n
        if filtered:
            noise = n / gains[k] if not math.isnan(a) else NAN
        dist = math.hypot(e, z) if s["use_hyp_dist"] else e
        att = NAN
        if dist > 0:
            att = own_a0(dist) if callable(s["A0"]) else log_a0(s["A0"], dist)
        corr = s["station_corrections"].get(i, 0.0)
        ml = err = NAN
        A, N = a * s["amp_multiplier"], noise * s["amp_multiplier"]
        if a > 0 and not (noise > a):
            ml = math.log10(A) + att + corr
            if noise < a and not math.isnan(att):
                err = math.log10(A + N) - math.log10(A - N)
            elif noise == a:
                err = math.inf
        used = not math.isnan(ml) and not math.isnan(a) and not math.isnan(n)
        passes = True
        if s["trace_filter"] is not None:
            passes &= re.search(s["trace_filter"], i) is not None
        if s["station_filter"] is not None:
            passes &= i.split(".")[1] not in s["station_filter"]
        if s["dist_filter"]:
            passes &= dist <= s["dist_filter"]
        geo = passes
        if s["pick_filter"]:
            passes &= p
        loud = a > noise * s["noise_filter"]
        if s["noise_filter"] != 0:
            passes &= loud
        res.append(dict(ml=ml, err=err, dist=dist, att=att, corr=corr, noise=noise, amp=a,
                        used=used and passes, geo=geo, loud=loud,
                        listed=not math.isnan(a) and not math.isnan(noise)))
    return res


def r_squared(obs, mean, mult):
    la = [math.log10(o["amp"] * mult) + o["corr"] for o in obs]
    if len(la) < 2 or max(la) - min(la) < 1e-12:
        return None
    m = sum(la) / len(la)
    tot = sum((x - m) ** 2 for x in la)
    mod = sum((x - (mean - o["att"])) ** 2 for x, o in zip(la, obs))
    return (tot - mod) / tot


def same(a, b, rel=1e-9):
    if isinstance(b, float) and math.isnan(b):
        return isinstance(a, (float, np.floating)) and math.isnan(a)
    if math.isinf(b):
        return a == b
    return abs(a - b) <= 1e-9 + rel * abs(b)


def expect_network(ref, s):
    use = [o for o in ref if o["used"]]
    if not use:
        return NAN, NAN, NAN, use
    w = [1 / o["err"] ** 2 if s["weighted_mean"] else 1.0 for o in use]
    if sum(w) == 0:
        return None, None, None, use
    mean = sum(a * o["ml"] for a, o in zip(w, use)) / sum(w)
    if len(use) > 1:
        sd = math.sqrt(sum(a * (o["ml"] - mean) ** 2 for a, o in zip(w, use)) / sum(w))
    else:
        sd = use[0]["err"]
    if s["r2_only_used"]:
        group = use
    else:
        group = [o for o in ref if o["geo"] and o["listed"] and o["amp"] > 0 and o["dist"] > 0 and (
            o["loud"] or 10 ** (mean - o["att"]) / (
                o["noise"] * s["amp_multiplier"] * 10 ** o["corr"]) >= 5)]
    return mean, sd, r_squared(group, mean, s["amp_multiplier"]), use


def describe(rows, s, gains):
    d = {k: v for k, v in s.items() if v != DEFAULT[k]}
    return f"settings {d}, gains {gains}, observations {rows}"


def check_table(ctx, rows, s, gains=None):
    from quakemigrate.signal.local_mag.magnitude import Magnitude

    lab = describe(rows, s, gains)
    amps = table(rows, s["amp_feature"], gains)
    before = amps.copy()
    mag = Magnitude(dict(s))
    mags = mag.calculate_magnitudes(amps)
    ref = reference(rows, s, gains)
    ctx.count((str(rows), str(s), str(gains)), nontrivial=any(o[0] > 0 for _, o in rows))
    ctx.check(amps.equals(before), "amplitudes-modified", lambda: f"{lab}\n{amps}")
    ctx.check(list(mags.index) == [i for i, _ in rows], "rows", lambda: f"{lab}: {list(mags.index)}")
    for (i, o), r, ml, err in zip(rows, ref, mags["ML"], mags["ML_Err"]):
        ctx.check(same(float(ml), r["ml"]), "magnitude", lambda: f"{lab}; {i} {o}: {ml}, wanted {r['ml']}")
        if not math.isnan(r["ml"]) and not math.isnan(o[1]):
            ctx.check(same(float(err), r["err"], 1e-7), "magnitude-error",
                      lambda: f"{lab}; {i} {o}: {err}, wanted {r['err']}")
    written = mags.copy()
    mean, sd, r2, full = mag.mean_magnitude(mags)
    wm, ws, wr, use = expect_network(ref, s)
    used = [i for i, u in zip(full.index, full["Used"]) if u]
    wused = [i for (i, _), r in zip(rows, ref) if r["used"]]
    ctx.check(used == wused, "used", lambda: f"{lab}: {used}, wanted {wused}")
    if wm is None:
        return
    ctx.check(same(mean, wm), "mean", lambda: f"{lab}: {mean}, wanted {wm}")
    if not math.isinf(ws):
        ctx.check(same(sd, ws, 1e-7), "mean-error", lambda: f"{lab}: {sd}, wanted {ws}")
    if wr is None:
        wr = NAN
    edge = [o for o in ref if not s["r2_only_used"] and not o["loud"] and o["listed"] and (
        not (o["dist"] > 0) or o["amp"] == 0 or abs(10 ** (wm - o["att"]) / (
            o["noise"] * s["amp_multiplier"] * 10 ** o["corr"]) - 5) < 1e-6)] if not math.isnan(wm) else []
    if not edge and not (not s["r2_only_used"] and any(not (o["dist"] > 0) for o in ref)):
        ctx.check(same(r2, wr, 1e-6) or (isinstance(wr, float) and abs(r2 - wr) < 1e-6 * max(1, abs(wr))),
                  "r-squared", lambda: f"{lab}: {r2}, wanted {wr}")
    _ = written


# ------------------------------------------------------------------ group individual

CORR = {"N.A..HHE": 0.3, "M.B..BH1": -0.25, "M.CA..HHE": 1.0, "A": 9.0}


def individual_cases(tier):
    for a0 in ("Hutton-Boore", "keir2006", "Danakil2017", "Greenfield2018_askja",
               "Greenfield2018_bardarbunga", "Greenfield2018_comb", "Langston1998", "UK", "own"):
        for hyp in (False, True):
            yield dict(a0=a0, hyp=hyp)


def individual_run(case, ctx):
    for feat, mult, corr in itertools.product(("S_amp", "P_amp"), (1.0, 2.5, 1e-3), ({}, CORR)):
        s = dict(DEFAULT, A0=own_a0 if case["a0"] == "own" else case["a0"], use_hyp_dist=case["hyp"],
                 amp_feature=feat, amp_multiplier=mult, station_corrections=corr)
        for r in range(len(OBS)):
            sub = [(IDS[(k + r) % len(IDS)] if k else IDS[r % len(IDS)], OBS[(r + k) % len(OBS)])
                   for k in range(3)]
            check_table(ctx, sub, s)
            check_table(ctx, sub, s, gains=(0.5, 0.98, 0.25))
        # all distinct traces at once
        check_table(ctx, list(zip(IDS, OBS[:6])), s)
        check_table(ctx, list(zip(IDS, OBS[6:])), s)
    ctx.sample(**case)


# ------------------------------------------------------------------ group network

def settings(tier):
    traces = (None, ".*H[NE]$", "^M", "B") if tier == "thorough" else (None, ".*H[NE]$", "^M")
    stations = (None, ["A"], ["B", "AB"], [])
    dists = (False, 12.0, 20.0)
    noises = (1.0, 0.0, 0.5, 3.0)
    for t, st, d, n, p, w, h in itertools.product(traces, stations, dists, noises, (False, True),
                                                  (False, True), (False, True)):
        if tier == "quick":
            # every pair of settings; the full product in thorough
            active = sum((t is not None, st is not None, d is not False, n != 1.0, p, h))
            if active > 2:
                continue
        yield dict(trace_filter=t, station_filter=st, dist_filter=d, noise_filter=n, pick_filter=p,
                   weighted_mean=w, use_hyp_dist=h)


def network_cases(tier):
    yield from settings(tier)


def network_run(case, ctx):
    tier = case.pop("tier", None)
    s = dict(DEFAULT, station_corrections={"N.A..HHN": 0.4}, **case)
    n = 0
    for a, b in itertools.combinations_with_replacement(range(len(OBS)), 2):
        i, j = (n, n + 1 + n // 7)
        n += 1
        ids = [IDS[i % 6], IDS[j % 6]]
        if ids[0] == ids[1]:
            ids[1] = IDS[(j + 1) % 6]
        check_table(ctx, [(ids[0], OBS[a]), (ids[1], OBS[b])], s)
    for k in range(len(OBS)):
        check_table(ctx, [(IDS[k % 6], OBS[k])], s)
    # whole tables: every rotation of the observations over the traces
    for k in range(len(OBS)):
        rows = [(IDS[m], OBS[(k + m * (1 + k % 2 * 4)) % len(OBS)]) for m in range(6)]
        check_table(ctx, rows, s)
        check_table(ctx, rows, s, gains=(0.5, 0.98, 0.25, 0.75, 1.0, 0.6))
    ctx.sample(**{k: str(v) for k, v in case.items()})
    _ = tier


# ------------------------------------------------------------------ group r-squared of all

def r2_cases(tier):
    for t, st, d, w, n in itertools.product((None, ".*H[NE]$"), (None, ["A"]), (False, 20.0),
                                            (False, True), (0.5, 1.0, 3.0)):
        yield dict(trace_filter=t, station_filter=st, dist_filter=d, weighted_mean=w, noise_filter=n)


def r2_run(case, ctx):
    s = dict(DEFAULT, r2_only_used=False, **case)
    good = [0, 1, 2, 3, 4, 11]
    for k in itertools.permutations(good, 4):
        if k[0] > k[3]:
            continue
        rows = [(IDS[m], OBS[o]) for m, o in enumerate(k)]
        check_table(ctx, rows, s)
    ctx.sample(**{k: str(v) for k, v in case.items()})


# ------------------------------------------------------------------ group files

def file_cases(tier):
    for feat in ("S_amp", "P_amp"):
        for k in range(len(OBS)):
            yield dict(feature=feat, first=k)


def file_run(case, ctx):
    from quakemigrate.io import Run
    from quakemigrate.io.event import Event
    from quakemigrate.signal.local_mag import LocalMag

    feat = case["feature"]
    sets = [[case["first"], o] for o in range(len(OBS))] + [[case["first"]]]
    for n, pick in enumerate(sets):
        rows = [(IDS[m], OBS[o]) for m, o in enumerate(pick)]
        s = dict(DEFAULT, amp_feature=feat, noise_filter=(1.0, 0.5, 0.0)[n % 3], weighted_mean=n % 2 == 1)
        lm = LocalMag(dict(signal_window=0.0), dict(s), plot_amplitudes=False)
        d = ctx.tmp()
        run = Run(str(d), "run", "", "locate")
        ev = Event(0.5, pd.Series(dict(EventID="20151231235959500", CoaTime=T0, TRIG_COA=1.0, COA=1.0,
                                       COA_NORM=1.0)))
        amps = table(rows, feat)
        lm.amp.get_amplitudes = lambda *_, **__: amps.copy()  # noqa: E731
        lab = describe(rows, s, None)
        ev, ml = lm.calc_magnitude(ev, None, run)
        ref = reference(rows, s, None)
        wm, ws, wr, use = expect_network(ref, s)
        ctx.count((str(rows), feat, n), nontrivial=any(OBS[o][0] > 0 for o in pick))
        if wm is not None:
            ctx.check(same(ml, wm) and same(ev.localmag["ML"], wm), "event-magnitude",
                      lambda: f"{lab}: {ml}, {ev.localmag}, wanted {wm}")
            ctx.check(math.isinf(ws) or same(ev.localmag["ML_Err"], ws, 1e-7), "event-magnitude-error",
                      lambda: f"{lab}: {ev.localmag}, wanted {ws}")
            ctx.check(same(ev.localmag["ML_r2"], NAN if wr is None else wr, 1e-6), "event-r2",
                      lambda: f"{lab}: {ev.localmag}, wanted {wr}")
        f = d / "run" / "locate" / "amplitudes" / "20151231235959500.amps"
        with open(f) as fh:
            got = list(csv.DictReader(fh))
        ctx.check([g["id"] for g in got] == [i for i, _ in rows], "amps-rows", lambda: f"{lab}: {got}")
        for g, (i, o), r, (_, a) in zip(got, rows, ref, amps.iterrows()):
            for c in COLS:
                want = a[c]
                if c == "is_picked":
                    ok = g[c] == str(o[4])
                elif want is None or (isinstance(want, float) and math.isnan(want)):
                    ok = g[c] == ""
                elif c.endswith("_time"):
                    ok = abs(UTCDateTime(g[c]) - want) < 1e-5
                else:
                    tol = {"freq": 0.05, "gain": 5e-3}.get(c[-4:], 5e-5)
                    ok = g[c] != "" and abs(float(g[c]) - want) <= tol * abs(want)
                ctx.check(ok, "amps-file", lambda: f"{lab}: {i} {c} = {g[c]!r}, wanted {want}")
            if all(math.isnan(x[1][0]) for x in rows):
                continue
            for c, want in (("ML", r["ml"]), ("ML_Err", r["err"])):
                if c == "ML_Err" and (math.isnan(o[1]) or math.isnan(r["ml"])):
                    continue
                ok = g[c] == "" if math.isnan(want) else (
                    float(g[c]) == want if math.isinf(want) else
                    abs(float(g[c]) - want) <= 5e-3 * max(abs(want), 1e-3) + 1e-9)
                ctx.check(ok, "amps-magnitude", lambda: f"{lab}: {i} {c} = {g[c]!r}, wanted {want}")
    ctx.sample(**case)


def groups():
    return [
        Group("individual", individual_cases, individual_run, timeout=300),
        Group("network", network_cases, network_run, timeout=300),
        Group("r-squared", r2_cases, r2_run, timeout=300),
        Group("files", file_cases, file_run, timeout=300),
    ]
