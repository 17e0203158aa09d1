"""Running the real detect over explorer-chosen histories, with a reference for the result."""

import numpy as np
from obspy import UTCDateTime

from . import refs, world

STATIONS = ("AA1", "B2")
PHASES = ("P", "S")


def default_lut(sr, kind="lcc_km"):
    # traveltimes 0..3 samples
    return world.make_lut(node_count=(2, 1, 3), spacing=(1.0, 1.0, 0.5), stations=STATIONS,
                          phases=PHASES, kind=kind, spread=2.0 / sr)


def reference(lut, value, sr, i0, i1, rows=None):
    """Peak, normalised peak and peak coordinates for absolute samples i0..i1 straight
    from the definition (rows: list of (station, phase) used)."""
    rows = rows or [(s, p) for p in PHASES for s in STATIONS]
    tts = np.stack([np.rint(lut.traveltimes[s][p] * sr).astype(int) for s, p in rows], -1)
    last = int(tts.max())
    idx = np.arange(i0, i1 + last + 1)
    onsets = np.stack([value(s, p, idx) for s, p in rows])
    m = refs.migrate_ref(onsets, tts, 0, last, len(rows))
    flat = m.reshape(-1, m.shape[-1])
    coa = flat.max(0)
    node = flat.argmax(0)
    norm = coa * len(flat) / flat.sum(0)
    xyz = np.stack([g.ravel() for g in lut.grid_xyz], axis=1)[node]
    coord = lut.coord2grid(xyz, inverse=True)
    return coa, norm, coord, flat


def make_scan(path, lut, archive, onset, name="run", **kw):
    from quakemigrate.signal import QuakeScan

    return QuakeScan(archive, lut, onset, str(path), name, plot_event_summary=False, **kw)


class DetectRun:
    """One detect history: `outcomes` per time step."""

    def __init__(self, path, sr, step, start, outcomes, mode, cut=0, lut=None, value=None,
                 pre=2, post=None, available=None, name="run"):
        self.sr, self.step, self.outcomes = sr, step, list(outcomes)
        self.path = path
        self.start = UTCDateTime(start)
        self.lut = lut or default_lut(sr)
        self.value = value or world.hash_onset()
        self.i0 = world.sample_index(self.start, sr)
        self.n = len(self.outcomes)
        plan = self.outcomes

        def answer(k, a, b):
            return plan[k] if k < len(plan) else "ok"

        self.archive = world.FakeArchive(STATIONS, answer)
        self.onset = world.onset_class()(STATIONS, PHASES, sr, self.value, pre=pre / sr,
                                         available=available)
        self.scan = make_scan(path, self.lut, self.archive, self.onset, name=name,
                              timestep=step / sr, continuous_scanmseed_write=mode,
                              threads=1)
        self.end = self.start + (self.n * step - cut) / sr

    def run(self):
        self.scan.detect(str(self.start), str(self.end))

    def expected(self):
        """{channel: float array} over the whole run, in stored units."""
        total = self.n * self.step
        coa, norm, coord, _ = reference(self.lut, self.value, self.sr, self.i0,
                                        self.i0 + total - 1)
        ok = np.repeat([o == "ok" for o in self.outcomes], self.step)
        out = {"COA": coa, "COA_N": norm, "X": coord[:, 0], "Y": coord[:, 1], "Z": coord[:, 2]}
        return {k: np.where(ok, v, 0.0) for k, v in out.items()}

    SCALE = {"COA": 1e5, "COA_N": 1e5, "X": 1e6, "Y": 1e6}

    def scale(self, channel):
        if channel == "Z":
            return 1e3 * self.lut.unit_conversion_factor
        return self.SCALE[channel]


def collect(run_dir, sr):
    """{channel: (sorted absolute samples, values, file names)} of everything stored."""
    parts = {}
    for fname, chans in world.read_day_files(run_dir).items():
        for ch, segs in chans.items():
            for t0, data, rate in segs:
                assert abs(rate - sr) < 1e-6 * sr, (rate, sr)
                i0 = world.sample_index(t0, sr)
                idx = np.arange(i0, i0 + len(data))
                parts.setdefault(ch, []).append((idx, np.asarray(data, float),
                                                 np.full(len(data), fname, dtype="U24")))
    out = {}
    for ch, segs in parts.items():
        idx, val, fil = (np.concatenate(x) for x in zip(*segs))
        order = np.argsort(idx, kind="stable")
        out[ch] = idx[order], val[order], fil[order]
    return out


def check_store(ctx, run, label, upto=None):
    """Everything stored equals the reference: exactly once, in the right day file."""
    exp = run.expected()
    got = collect(run.path / "run", run.sr)
    total = run.n * run.step if upto is None else upto
    ctx.check(set(got) == set(exp) or total == 0, "channels", lambda: f"{label}: {sorted(got)}")
    wanted = np.arange(run.i0, run.i0 + total)
    days = np.array([], dtype="U24")
    if total:
        # day of every sample, by whole days from the first midnight
        first_day = UTCDateTime(UTCDateTime(ns=int(round(run.i0 * 1e9 / run.sr))).date)
        d0 = world.sample_index(first_day, run.sr)
        nday = np.floor_divide(wanted - d0, int(round(86400 * run.sr)))
        names = [world.day_name(first_day + 86400 * k) for k in range(int(nday[-1]) + 1)]
        days = np.array([f"{n}.scanmseed" for n in names], dtype="U24")[nday]
    for ch, want in exp.items():
        idx, val, fil = got.get(ch, (np.array([], int), np.array([]), days[:0]))
        if not np.array_equal(idx, wanted):
            rel = idx - run.i0
            missing = np.setdiff1d(wanted, idx) - run.i0
            extra = rel[(rel < 0) | (rel >= total)]
            twice = rel[1:][np.diff(rel) == 0]
            for sig, what in (("sample-missing", missing), ("sample-extra", extra),
                              ("sample-twice", twice)):
                ctx.check(not len(what), sig, lambda: f"{label}: {ch}: {len(what)} samples of "
                          f"{total}: {what[:20].tolist()}")
        w = want[:total] * run.scale(ch)
        bad = np.flatnonzero(~(np.abs(val - w) <= 0.6))
        ctx.check(not len(bad), "sample-value", lambda: f"{label}: {ch} sample {bad[0]}: stored "
                  f"{val[bad[0]]}, computed {w[bad[0]]} ({len(bad)} wrong)")
        bad = np.flatnonzero(fil != days)
        ctx.check(not len(bad), "sample-in-wrong-day", lambda: f"{label}: {ch} sample {bad[0]} "
                  f"belongs in {days[bad[0]]}, found in {fil[bad[0]]}")
    ctx.add(samples_compared=5 * total)
