import itertools
import os
import sys

import numpy as np
from obspy import UTCDateTime

from qmmc import boot, detectlib, world
from qmmc.core import Group

LEVEL = "fault_enumeration"
RULE = ("one evaluation = one crash point: one executed source line of QuakeMigrate (or of the "
        "MiniSEED writer it calls) during a real detect() run, with the files that a kill at "
        "that line leaves on disk decoded and compared with the definition; distinct by "
        "(history, write mode, step in progress, state of the disk). After every distinct disk "
        "state detect() is run again over it and its files compared with an uninterrupted run.")
ASSUMPTIONS = ["a kill leaves what was flushed to the file system before it (no loss of "
               "operating-system buffers)",
               "time steps are whole numbers of samples"]

OUT = ["ok", "gap"]


def cases(tier):
    n_all = (2, 3, 4) if tier == "quick" else (2, 3, 4, 5, 6)
    for n in n_all:
        hists = itertools.product(OUT, repeat=n)
        for hist in hists:
            if tier == "quick" and n == 4 and hist.count("gap") not in (0, 1):
                continue
            for sr, step in ((1, 3), (50, 4)):
                span = n * step
                offs = {1, step, step + 1, 2 * step, span - 1, span, span + 2, 2 * step - 1}
                for off in sorted(offs):
                    for mode in (1, 0):
                        yield dict(hist=list(hist), sr=sr, step=step, off=off, mode=mode)
    # steps of many days: several midnights inside the run
    for mode in (0, 1):
        for off in (0, 7200, 43200):
            yield dict(hist=["ok", "gap", "ok", "ok", "ok", "ok"], sr=1, step=43200, off=off,
                       mode=mode)
            yield dict(hist=["ok", "ok", "ok"], sr=1, step=86400, off=off, mode=mode)


def run(case, ctx):
    sr, step, n = case["sr"], case["step"], len(case["hist"])
    start = UTCDateTime("2016-01-01T00:00:00") - case["off"] / sr

    def make(path):
        return detectlib.DetectRun(path, sr, step, start, case["hist"], bool(case["mode"]))

    r = make(ctx.tmp())
    sdir = r.path / "run" / "detect" / "scanmseed"
    qm = str(boot.REPO)
    seen = {}
    last = [None]
    points = [0]

    def snap():
        points[0] += 1
        try:
            with os.scandir(sdir) as it:
                sig = tuple(sorted(
                    (e.name, e.stat().st_size, e.stat().st_mtime_ns)
                    if e.name.endswith(".scanmseed")
                    else (e.name, min(1, e.stat().st_size), 0)  # scratch: empty or begun
                    for e in it))
        except FileNotFoundError:
            sig = ()
        key = (sig, len(r.archive.requests))
        if key != last[0]:
            last[0] = key
            if key not in seen:
                seen[key] = {e[0]: (sdir / e[0]).read_bytes() for e in sig}

    def tracer(frame, event, arg):
        f = frame.f_code.co_filename
        if not (f.startswith(qm) or "/obspy/io/mseed/" in f):
            return None
        if event in ("line", "return", "call"):
            snap()
        return tracer

    sys.settrace(tracer)
    try:
        r.run()
    finally:
        sys.settrace(None)
    exp = r.expected()
    midnights = [world.sample_index(UTCDateTime(start.date) + 86400 * k, sr) - r.i0
                 for k in range(1, n * step // max(1, 86400 * sr) + 3)]
    clean = ctx.tmp()
    ref = make(clean)
    ref.run()
    final = decoded(clean / "run", sr)
    states = set()
    for k, ((sig, started), files) in enumerate(seen.items()):
        done = max(0, started - 1) * step     # samples of the steps completed before
        if case["mode"]:
            must = done
        else:
            must = max([m for m in midnights if 0 < m <= done], default=0)
        d = ctx.tmp()
        put(d, files)
        label = f"{case}: killed in step {started - 1}, disk {[(s[0], s[1]) for s in sig]}"
        prefix(ctx, r, exp, d / "run", must, started * step, label)
        if files and tuple(files.items()) not in states:
            states.add(tuple(files.items()))
            again = make(d)
            again.run()
            ctx.check(same(decoded(d / "run", sr), final), "rerun-differs",
                      lambda: f"{label}: detect run again over the remains gives other files")
    ctx.count(n=points[0], nontrivial=False)
    for key in seen:
        ctx.count((str(case), tuple(s[:2] for s in key[0]), key[1]), n=0)
    ctx.add(crash_points=points[0], disk_states=len(states))
    ctx.sample(**case, crash_points=points[0], disk_states=len(states))


def put(d, files):
    p = d / "run" / "detect" / "scanmseed"
    p.mkdir(parents=True)
    for name, b in files.items():
        (p / name).write_bytes(b)


def final_files(run_dir):
    d = run_dir / "detect" / "scanmseed"
    for f in list(d.iterdir()) if d.exists() else []:
        if f.suffix != ".scanmseed":
            f.unlink()


def decoded(run_dir, sr):
    final_files(run_dir)
    return detectlib.collect(run_dir, sr)


def same(a, b):
    return set(a) == set(b) and all(all(np.array_equal(x, y) for x, y in zip(a[k], b[k]))
                                    for k in a)


def prefix(ctx, r, exp, run_dir, must, most, label):
    try:
        got = decoded(run_dir, r.sr)
    except Exception as e:
        ctx.fail("torn-file", f"{label}: the day file cannot be read: {e!r}")
    for ch, want in exp.items():
        idx, val, _ = got.get(ch, (np.array([], int), np.array([]), None))
        m = len(idx)
        ctx.check(np.array_equal(idx, np.arange(r.i0, r.i0 + m)), "not-a-prefix",
                  lambda: f"{label}: {ch} holds samples {(idx - r.i0)[:20].tolist()}")
        ctx.check(m >= must, "work-lost",
                  lambda: f"{label}: {ch} holds {m} samples, {must} were complete")
        ctx.check(m <= most, "sample-extra", lambda: f"{label}: {ch} {m} > {most}")
        bad = np.flatnonzero(~(np.abs(val - want[:m] * r.scale(ch)) <= 0.6))
        ctx.check(not len(bad), "sample-value", lambda: f"{label}: {ch} sample {bad[0]}")


def groups():
    return [Group("kill-at-every-line", cases, run)]
