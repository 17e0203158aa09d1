import itertools

import numpy as np
from obspy import UTCDateTime

from qmmc import detectlib, locatelib, refs, world
from qmmc.core import Group

LEVEL = "exploration"
RULE = ("one evaluation = one real detect() (or locate()) of a source at one node with one subset of "
        "the six station-phase onsets usable, for one order of the archive's stations and of the "
        "phases; every stored sample is compared with the definition applied to the usable rows, "
        "and the source must be imaged at full height at its own node and time. Distinct by case; "
        "non-trivial: at least two usable onsets.")
ASSUMPTIONS = ["the onset function returns rows in the order of its availability table, as "
               "calculate_onsets documents"]

NAMES = ["A", "B2", "ZZ"]
SR = 10
SHAPE = (3, 2, 3)


def tt(s, phase, ijk):
    # whole samples, different for every row, node and phase
    i, j, k = ijk
    p = phase == "S"
    return ((3 * i + 5 * j * (s + 1) + 7 * k * (2 - s) + 2 * i * s + 4 * p * (1 + i + k)
             + s + (i * k + j + s) % 3) % 23) / SR


def lut_for(lut_stations, lut_phases):
    table = {n: s for s, n in enumerate(NAMES)}
    return world.make_lut(SHAPE, (1.0, 1.0, 1.0), lut_stations, lut_phases, kind="lcc_km",
                          tt=lambda s, ph, ijk: tt(table[lut_stations[s]], ph, ijk))


ORDERS = list(itertools.permutations(NAMES))
PHS = [("P", "S"), ("S", "P")]


def cases(tier):
    nodes = list(np.ndindex(*SHAPE))
    k = 0
    for bits in range(1, 64):
        for o in range(6):
            for ph in (0, 1):
                k += 1
                for node in nodes:
                    luts = [(k % 6, k % 2)] if tier == "quick" else itertools.product(
                        range(6), (0, 1))
                    for lo, lp in luts:
                        yield [bits, o, ph, list(node), lo, lp]


def phase_cases(tier):
    # migrating only one of the phases of the table; only some of its stations
    for phs in (("P",), ("S",)):
        for n in (1, 2, 3):
            for sts in itertools.permutations(NAMES, n):
                for node in list(np.ndindex(*SHAPE))[:: (5 if tier == "quick" else 1)]:
                    yield [list(sts), list(phs), list(node)]


def check(ctx, label, lut, sts, phs, rows, node, avail=None):
    origin = 40
    start = UTCDateTime("2016-06-01T10:00:00")
    i0 = world.sample_index(start, SR)
    height = 8.0

    def value(st, ph, idx):
        x = 1.0 + ((idx * 7 + ord(st[0]) + ord(ph)) % 5) * 0.01
        arr = i0 + origin + int(round(lut.traveltimes[st][ph][tuple(node)] * SR))
        return np.where(idx == arr, height, x)

    archive = world.FakeArchive(sts)
    onset = world.onset_class()(sts, phs, SR, value, pre=0.3, available=avail)
    d = ctx.tmp()
    scan = detectlib.make_scan(d, lut, archive, onset, timestep=8.0, threads=1)
    scan.detect(str(start), str(start + 8.0))
    got = detectlib.collect(d / "run", SR)
    coa, norm, coord, flat = detectlib.reference(lut, value, SR, i0, i0 + 79, rows=rows)
    ctx.check(abs(coa[origin] - height) < 1e-9 * height, "reference", label)
    have = got["COA"][1] / 1e5
    ctx.check(len(have) == 80, "samples", label)
    bad = np.flatnonzero(np.abs(have - coa) > 1e-5 * np.maximum(1, coa))
    ctx.check(not len(bad), "stacked-with-wrong-traveltimes",
              lambda: f"{label}: sample {bad[0]}: coalescence {have[bad[0]]}, with each onset's own "
                      f"traveltimes {coa[bad[0]]}")
    ctx.check(abs(have[origin] - height) < 1e-4, "not-full-height",
              lambda: f"{label}: {have[origin]} at the origin time of an impulse of {height}")
    # where the source is the only best node it must be reported as the location
    best = np.flatnonzero(flat[:, origin] >= height * (1 - 1e-9))
    k = int(np.ravel_multi_index(tuple(node), SHAPE))
    ctx.check(k in best, "reference", label)
    xyz = np.array([got[c][1][origin] for c in ("X", "Y", "Z")]) / [1e6, 1e6, 1e6]
    cand = lut.coord2grid(np.stack([g.ravel() for g in lut.grid_xyz], 1)[best], inverse=True)
    dist = np.abs(cand - xyz)
    ctx.check(bool(np.any(np.all(dist < 2e-6, axis=1))), "wrong-node",
              lambda: f"{label}: located at {xyz}, candidates {cand.tolist()}")
    ctx.add(samples_compared=80, unique_sources=int(len(best) == 1))
    _ = norm, coord, refs


def run(case, ctx):
    bits, o, ph, node, lo, lp = case
    sts, phs = ORDERS[o], PHS[ph]
    lut = lut_for(ORDERS[lo], PHS[lp])
    keys = [(s, p) for p in ("P", "S") for s in NAMES]
    use = {k for n, k in enumerate(keys) if bits >> n & 1}
    rows = [(s, p) for p in phs for s in sts if (s, p) in use]
    ctx.count(str(case), nontrivial=len(rows) > 1)
    check(ctx, f"archive order {sts}, phases {phs}, usable {rows}, source {node}", lut, sts, phs,
          rows, node, avail=lambda s, p, d: (s, p) in use)
    ctx.sample(stations=sts, phases=phs, usable=rows, source=node)


def run_phase(case, ctx):
    sts, phs, node = case
    lut = lut_for(NAMES, ("P", "S"))
    rows = [(s, p) for p in phs for s in sts]
    ctx.count(str(case), nontrivial=len(rows) > 1)
    check(ctx, f"archive {sts}, phases {phs}, source {node}", lut, sts, phs, rows, node)


def locate_cases(tier):
    for bits in range(3, 64):
        if bin(bits).count("1") < 2:
            continue
        for o in range(6):
            yield [bits, o, bits % 2, [2 + bits % 2, 3, 1 + bits % 3]]


def run_locate(case, ctx):
    """The same through locate: full coalescence at the origin time, and one modelled arrival
    per onset that belongs to that station and phase."""
    bits, o, ph, node = case
    names = locatelib.STATIONS
    sts = list(itertools.permutations(names))[o]
    phs = PHS[ph]
    lut = locatelib.default_lut()
    # traveltimes on the sampling grid, so that the stack is exact
    sr = 50
    for s in names:
        for p in "PS":
            lut.traveltimes[s][p] = np.rint(lut.traveltimes[s][p] * sr) / sr
    keys = [(s, p) for p in "PS" for s in names]
    use = {k for n, k in enumerate(keys) if bits >> n & 1}
    t0 = locatelib.T0
    height = 5.0
    src = locatelib.Source(lut, sr, [(t0 + 0.1, tuple(node), height)])
    archive = world.FakeArchive(sts)
    onset = world.onset_class()(sts, phs, sr, src, pre=0.2,
                                available=lambda s, p, d: (s, p) in use)
    d = ctx.tmp()
    scan = locatelib.make_scan(d, lut, archive, onset)
    scan.locate(trigger_file=locatelib.write_trigger_file(d / "t.csv",
                                                          locatelib.trigger_rows([t0])))
    out = locatelib.outputs(d)
    rows = [(s, p) for p in phs for s in sts if (s, p) in use]
    label = f"archive order {sts}, phases {phs}, usable {rows}, source {node}"
    ctx.count(("locate", str(case)))
    # what the definition gives over the window searched
    i0 = world.sample_index(t0, sr)
    coa, _, _, flat = detectlib.reference(lut, src, sr, i0 - 50, i0 + 50, rows=rows)
    top = float(coa.max())
    k = int(coa.argmax())
    if not 25 < k < 75:
        ctx.check(not out["events"], "event-outside-window", label)
        return
    ctx.check(len(out["events"]) == 1, "no-event", lambda: f"{label}: {out['events']}")
    (ev,) = out["events"].values()
    ctx.check(abs(float(ev[0]["COA"]) - top) < 6e-4 * top, "locate-coalescence",
              lambda: f"{label}: COA {ev[0]['COA']}, with each onset's own traveltimes {top}")
    ctx.check(top > 1 + height * 0.97, "reference", label)
    ctx.check(abs(UTCDateTime(ev[0]["DT"]) - (t0 + (k - 50) / sr)) < 1e-6
              or np.sort(coa)[-2] > top * (1 - 1e-6), "locate-time", lambda: f"{label}: {ev}")


def change_cases(tier):
    for a in range(1, 64):
        yield a


def run_change(a, ctx):
    """One detect whose usable onsets change from step to step: every ordered pair of subsets
    that includes `a` occurs as a pair of consecutive steps."""
    seq = [x for b in range(1, 64) for x in (a, b)] + [a]
    keys = [(s, p) for p in "PS" for s in NAMES]
    use = [{k for n, k in enumerate(keys) if bits >> n & 1} for bits in seq]
    step = 3
    start = UTCDateTime("2016-06-01T10:00:00")
    i0 = world.sample_index(start, SR)
    value = world.hash_onset(3)
    lut = lut_for(NAMES, ("P", "S"))

    def avail(st, ph, data):
        return (st, ph) in use[len(archive.requests) - 1]

    archive = world.FakeArchive(NAMES)
    onset = world.onset_class()(NAMES, ("P", "S"), SR, value, pre=0.3, available=avail)
    d = ctx.tmp()
    scan = detectlib.make_scan(d, lut, archive, onset, timestep=step / SR, threads=1)
    scan.detect(str(start), str(start + len(seq) * step / SR - 0.5 / SR))
    got = detectlib.collect(d / "run", SR)["COA"][1] / 1e5
    ctx.check(len(got) >= len(seq) * step, "samples", lambda: f"{len(got)} samples")
    for k, u in enumerate(use):
        rows = [x for x in keys if x in u]
        want = detectlib.reference(lut, value, SR, i0 + k * step, i0 + (k + 1) * step - 1, rows=rows)[0]
        have = got[k * step:(k + 1) * step]
        ctx.check(bool(np.all(np.abs(have - want) <= 1e-5 * np.maximum(1, want))),
                  "stacked-with-wrong-traveltimes",
                  lambda: f"step with usable {rows} after {sorted(use[k - 1])}: {have} instead of {want}")
        if k:
            ctx.count((seq[k - 1], seq[k]), nontrivial=seq[k - 1] != seq[k])


def groups():
    return [Group("changing-availability", change_cases, run_change),
            Group("detect-subsets", cases, run), Group("detect-part-networks", phase_cases, run_phase),
            Group("locate-subsets", locate_cases, run_locate)]
