import itertools

import numpy as np
from obspy import UTCDateTime

from qmmc import locatelib, triglib, world
from qmmc.core import Group

LEVEL = "fault_enumeration"
RULE = ("one evaluation = one real locate() over one sequence of triggered events, each with its own "
        "outcome (complete, part of the network usable, peak outside the marginal window, files "
        "missing, data gap, nothing usable), in one order, read from a file or by time span; every "
        "file it leaves is compared byte for byte with the file of a run of that event alone, and the "
        "event file with the triggered values and the coalescence definition. Distinct by sequence; "
        "non-trivial: at least two events with different outcomes.")
ASSUMPTIONS = ["the archive's answer depends only on the window requested"]

SR = 50
KINDS = ["good", "part", "outside", "empty", "gap", "unavailable"]
WRITTEN = {"good", "part"}
STATIONS, PHASES = locatelib.STATIONS, locatelib.PHASES


class World:
    """Events at trigger times `times` with outcomes `kinds`."""

    def __init__(self, times, kinds):
        self.times, self.kinds = times, kinds
        self.lut = locatelib.default_lut()
        evs = []
        for k, (t, what) in enumerate(zip(times, kinds)):
            h = world.sample_index(t, SR) % 5
            shift = 0.84 if what == "outside" else 0.06 * (h - 2)
            evs.append((t + shift, (1 + h % 4, 2 + h % 3, 1 + h % 3), 4.0 + 0.5 * h))
        self.src = locatelib.Source(self.lut, SR, evs)

    def which(self, a, b):
        mid = a.ns + (b.ns - a.ns) // 2
        # windows are padded asymmetrically by less than 3 s; events are 20 s apart
        return min(range(len(self.times)), key=lambda k: abs(self.times[k].ns - mid))

    def archive(self):
        def plan(n, a, b):
            k = self.kinds[self.which(a, b)]
            return {"empty": "empty", "gap": "gap", "unavailable": "unavailable"}.get(k, "ok")
        return world.FakeArchive(STATIONS, plan)

    def available(self, st, ph, data):
        k = self.which(data.starttime, data.endtime)
        if self.kinds[k] == "part":
            return (st, ph) not in (("B2", "P"), ("AA1", "S"))
        return True

    def scan(self, path):
        onset = world.onset_class()(STATIONS, PHASES, SR, self.src, pre=0.2,
                                    available=self.available)
        return locatelib.make_scan(path, self.lut, self.archive(), onset,
                                   write_coalescence=False, write_marginal_coalescence=True)


ALONE = {}


def alone(t, kind, row, ctx):
    key = (t.ns, kind, str(sorted(row.items())))
    if key not in ALONE:
        w = World([t], [kind])
        d = ctx.tmp()
        w.scan(d).locate(trigger_file=locatelib.write_trigger_file(d / "t.csv", [row]))
        ALONE[key] = d_tree(d), locatelib.outputs(d)
    return ALONE[key]


def d_tree(d, name="run"):
    root = d / name / "locate"
    return {k: v for k, v in (world.tree(root) if root.exists() else {}).items()
            if not k.endswith(".log")}


def check_alone(ctx, t, kind, row, tree, out):
    """What a single event must leave behind."""
    lab = f"event at {t} ({kind})"
    uid = row["EventID"]
    if kind not in WRITTEN:
        ctx.check(not tree, "file-for-unlocatable-event", lambda: f"{lab}: {sorted(tree)}")
        return
    ctx.check(sorted(out["events"]) == [uid] and sorted(out["picks"]) == [uid]
              and len(out["events"][uid]) == 1, "event-files",
              lambda: f"{lab}: {sorted(out['events'])}, {sorted(out['picks'])}")
    ev = out["events"][uid][0]
    ctx.check(ev["EventID"] == uid, "event-id", lambda: f"{lab}: {ev}")
    for a, b in (("TRIG_COA", "TRIG_COA"), ("DEC_COA", "COA"), ("DEC_COA_NORM", "COA_NORM")):
        ctx.check(abs(float(ev[a]) - row[b]) <= 6e-4 * abs(row[b]), "trigger-values",
                  lambda: f"{lab}: {a} = {ev[a]}, triggered with {row[b]}")
    # refined origin time inside the marginal window, at the coalescence maximum
    w = World([t], [kind])
    rows = [(s, p) for p in PHASES for s in STATIONS
            if kind != "part" or (s, p) not in (("B2", "P"), ("AA1", "S"))]
    from qmmc import detectlib
    i0 = world.sample_index(t, SR)
    coa, norm, _, flat = detectlib.reference(w.lut, w.src, SR, i0 - SR, i0 + SR, rows=rows)
    k = int(coa.argmax())
    ctx.check(abs(UTCDateTime(ev["DT"]).ns - (t + (k - SR) / SR).ns) < 2000, "origin-time",
              lambda: f"{lab}: {ev['DT']}, coalescence peaks {(k - SR) / SR} s after the trigger")
    ctx.check(abs(float(ev["COA"]) - coa[k]) <= 6e-4 * coa[k] and
              abs(float(ev["COA_NORM"]) - norm[k]) <= 6e-4 * norm[k], "coalescence", lambda: f"{lab}: {ev}")
    picks = out["picks"][uid]
    ctx.check(sorted((p["Station"], p["Phase"]) for p in picks) == sorted(rows), "pick-rows",
              lambda: f"{lab}: {[(p['Station'], p['Phase']) for p in picks]}")
    # marginal map: the 4-D map over the marginal window (either end sample may be left out)
    maps = [v for k_, v in out["other"].items() if k_.endswith(".npy")]
    ctx.check(len(maps) == 1, "marginal-map", lab)
    import io
    got = np.load(io.BytesIO(maps[0])).reshape(-1)
    mw = SR // 2
    ok = False
    for lo in (0, 1):
        for hi in (0, 1):
            m = flat[:, k - mw + lo:k + mw + 1 - hi].sum(1)
            ok = ok or bool(np.allclose(got, m / m.max(), rtol=1e-5, atol=1e-7))
    ctx.check(ok, "marginal-map-values", lab)


# --- sequences -----------------------------------------------------------------------------
def sequences(tier):
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for kinds in itertools.product(range(len(KINDS)), repeat=n):
            yield list(kinds)


def times_for(n):
    t = UTCDateTime("2015-12-31T23:59:30")
    return [t + 20.1 * k for k in range(n)]


def run_sequence(kinds, ctx):
    names = [KINDS[k] for k in kinds]
    times = times_for(len(kinds))
    rows = locatelib.trigger_rows(times)
    want, got_alone = {}, []
    for t, k, r in zip(times, names, rows):
        tree, out = alone(t, k, r, ctx)
        check_alone(ctx, t, k, r, tree, out)
        want.update(tree)
        got_alone.append(sorted(tree))
    w = World(times, names)
    # the order in the file, and reading by time span, must not matter
    orders = list(itertools.permutations(range(len(kinds))))
    orders = [orders[0], orders[-1]] if len(orders) > 1 else orders
    for o in orders:
        d = ctx.tmp()
        f = locatelib.write_trigger_file(d / "t.csv", [rows[i] for i in o])
        w.scan(d).locate(trigger_file=f)
        compare(ctx, f"outcomes {names}, order {o}, from a file", d_tree(d), want)
    d = ctx.tmp()
    locatelib.write_trigger_files(d, rows)
    w.scan(d).locate(str(times[0]), str(times[-1] + 1))
    compare(ctx, f"outcomes {names}, by time span", d_tree(d), want)
    ctx.count(str(kinds), nontrivial=len(set(kinds)) > 1, n=len(orders) + 1)
    ctx.sample(outcomes=names)


def compare(ctx, lab, got, want):
    missing, extra = sorted(set(want) - set(got)), sorted(set(got) - set(want))
    ctx.check(not missing, "event-lost", lambda: f"{lab}: missing {missing}")
    ctx.check(not extra, "event-extra", lambda: f"{lab}: unexpected {extra}")
    diff = [k for k in want if got[k] != want[k]]
    ctx.check(not diff, "depends-on-other-events", lambda: f"{lab}: {diff[0]}: {got[diff[0]][:400]!r} "
              f"!= {want[diff[0]][:400]!r}")


# --- neighbours closer than the windows ----------------------------------------------------
def close_cases(tier):
    for gap in (0.3, 1.0, 2.4) if tier == "quick" else (0.3, 0.6, 1.0, 1.3, 1.6, 2.0, 2.4, 3.0):
        for n in (2,) if tier == "quick" and gap != 1.0 else (2, 3):
            for heights in itertools.product((0, 1), repeat=n):
                yield [gap, list(heights)]


def run_close(case, ctx):
    gap, heights = case
    t = UTCDateTime("2016-03-01T10:00:00")
    times = [t + gap * k for k in range(len(heights))]
    lut = locatelib.default_lut()
    src = locatelib.Source(lut, SR, [(x, (2 + k, 3, 2), 4.0 + 2 * h)
                                     for k, (x, h) in enumerate(zip(times, heights))])
    rows = locatelib.trigger_rows(times)

    def go(sel, order=None):
        d = ctx.tmp()
        onset = world.onset_class()(STATIONS, PHASES, SR, src, pre=0.2)
        scan = locatelib.make_scan(d, lut, world.FakeArchive(STATIONS), onset)
        scan.locate(trigger_file=locatelib.write_trigger_file(d / "t.csv", [rows[k] for k in sel]))
        return d_tree(d)

    single = [go([k]) for k in range(len(times))]
    for n in range(2, len(times) + 1):
        for sel in itertools.permutations(range(len(times)), n):
            want = {}
            for k in sel:
                want.update(single[k])
            compare(ctx, f"events {gap} s apart, heights {heights}, located {sel}", go(sel), want)
    ctx.count(str(case))


# --- origin time at the edge of the marginal window -------------------------------------
def edge_cases(tier):
    for mw in (0.5, 0.24, 1.0):
        for d in range(-4, 5):
            for sign in (-1, 1):
                yield [mw, d, sign]


def run_edge(case, ctx):
    mw, off, sign = case
    t = UTCDateTime("2016-03-01T10:00:00")
    n = round(mw * SR)
    lut = locatelib.default_lut()
    for s in STATIONS:      # traveltimes on the sampling grid: the peak is where it is put
        for p in PHASES:
            lut.traveltimes[s][p] = np.rint(lut.traveltimes[s][p] * SR) / SR
    peak = sign * (n + off)
    i0 = world.sample_index(t, SR)

    def src(st, ph, idx):
        at = (idx - i0) / SR - peak / SR - lut.traveltimes[st][ph][2, 3, 2]
        return 1.0 + 6.0 * np.exp(-0.5 * (at / 0.04) ** 2)

    from qmmc import detectlib
    coa = detectlib.reference(lut, src, SR, i0 - 2 * n, i0 + 2 * n,
                              rows=[(s, p) for p in PHASES for s in STATIONS])[0]
    k = int(coa.argmax()) - 2 * n
    d = ctx.tmp()
    onset = world.onset_class()(STATIONS, PHASES, SR, src, pre=0.2)
    scan = locatelib.make_scan(d, lut, world.FakeArchive(STATIONS), onset, mw=mw)
    scan.locate(trigger_file=locatelib.write_trigger_file(d / "t.csv", locatelib.trigger_rows([t])))
    files = d_tree(d)
    lab = f"marginal window {n} samples, peak {k} samples from the trigger time"
    ctx.count((mw, k))
    if abs(k) < n:
        ctx.check(len(files) == 2, "event-lost", lambda: f"{lab}: {sorted(files)}")
    elif abs(k) > n:
        ctx.check(not files, "event-extra", lambda: f"{lab}: {sorted(files)}")
    ctx.check(k == peak or abs(peak) > 2 * n, "reference", lab)


# --- which events a run takes -----------------------------------------------------------
def span_cases(tier):
    pts = [-90, -61, -60, -59, 0, 1, 59, 60, 61]
    for a in pts:
        for b in pts:
            if a <= b:
                yield [a, b]


def run_span(case, ctx):
    a, b = case
    mid = UTCDateTime("2016-01-01")
    times = [mid + x for x in (-60, -20.5, 0, 20.5, 60)]
    rows = locatelib.trigger_rows(times)
    w = World(times, ["good"] * 5)
    d = ctx.tmp()
    locatelib.write_trigger_files(d, rows)
    w.scan(d).locate(str(mid + a), str(mid + b))
    got = set(locatelib.outputs(d)["events"])
    want = {r["EventID"] for r, t in zip(rows, times)
            if mid + a <= t and (t < mid + b or (t == mid + b and b != 0))}
    ctx.count(str(case))
    ctx.check(got == want, "wrong-events", lambda: f"from {mid + a} to {mid + b}: located {sorted(got)}, "
              f"wanted {sorted(want)}")
    _ = triglib


# --- events whole seconds, minutes, hours, days, ... apart (equal parts of their timestamps) ---
GAPS = [10.0, 60.0, 600.0, 3600.0, 43200.0, 86400.0, 7 * 86400.0, 31 * 86400.0, 365 * 86400.0]


def far_cases(tier):
    for g in GAPS:
        for kinds in itertools.product((0, 1, 4), repeat=2):
            yield [[g], list(kinds)]
    some = [10.0, 3600.0, 86400.0] if tier == "quick" else GAPS
    for g, h in itertools.product(some, repeat=2):
        for kinds in ([0, 0, 0], [0, 1, 0], [1, 0, 4], [0, 4, 0]):
            yield [[g, h], kinds]


def run_far(case, ctx):
    gaps, kinds = case
    names = [KINDS[k] for k in kinds]
    times = [UTCDateTime("2015-12-31T23:59:30.02")]
    for g in gaps:
        times.append(times[-1] + g)
    rows = locatelib.trigger_rows(times)
    w = World(times, names)
    # the sources of the events differ: their heights and places follow their position here
    evs = [(t + 0.06 * (k - 1), (1 + k, 3 - k, 1 + k), 4.0 + k) for k, t in enumerate(times)]
    w.src = locatelib.Source(w.lut, SR, evs)

    def go(sel):
        d = ctx.tmp()
        f = locatelib.write_trigger_file(d / "t.csv", [rows[k] for k in sel])
        w.scan(d).locate(trigger_file=f)
        return d_tree(d)

    want = {}
    for k, what in enumerate(names):
        one = go([k])
        ctx.check(bool(one) == (what in WRITTEN), "event-lost", lambda: f"{case}: event {k} alone")
        want.update(one)
    n = range(len(times))
    for sel in (list(n), list(n)[::-1], [k for k in n for _ in (0, 1)]):
        compare(ctx, f"events {gaps} s apart, outcomes {names}, located {sel}", go(sel), want)
    ctx.count(str(case), nontrivial=True, n=3)


def groups():
    return [Group("far-apart", far_cases, run_far), Group("sequences", sequences, run_sequence), Group("close-events", close_cases, run_close),
            Group("edge-of-window", edge_cases, run_edge), Group("spans", span_cases, run_span)]
