import pathlib, sys
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parents[1]))
from mkseed import seed
Q = "quakemigrate/"

seed("c01-clip-when-needed", "C01", [(Q+"core/lib.py",
"""    onsets = np.clip(onsets, 0.01, np.inf)
    onsets = np.log(onsets)
""",
"""    if np.min(onsets) <= 0:
        onsets = np.clip(onsets, 0.01, np.inf)
    onsets = np.log(onsets)
""")], """
import numpy as np
from quakemigrate.core import migrate
on = np.full((2, 6), 2.0); on[0, 2] = 0.004
tt = np.zeros((1, 1, 1, 2), dtype=np.int32)
m = migrate(on, tt, 0, 0, 2, 1)
want = np.sqrt(np.clip(on[0], 0.01, None) * on[1])
assert np.allclose(m[0, 0, 0], want), (m, want)
""", "an onset value strictly between 0 and 0.01 in a window holding no value at or below 0",
"the lower clip of the onsets at 0.01 is skipped, so a small onset drives the coalescence towards zero")

seed("c02-chunk-remainder", "C02", [(Q+"core/src/migratelib.c",
"""  int32_t station, sample, * traveltimes, traveltime;
  int64_t node;

  #pragma omp parallel\\
  for private(station, stack, sample, traveltimes, traveltime) num_threads(threads)
  for (node = 0; node < n_nodes; ++node) {
    stack = & map4d""",
"""  int32_t station, sample, * traveltimes, traveltime;
  int64_t node;
  // Whole blocks of nodes for each thread
  const int64_t block = n_nodes > threads ? n_nodes / threads : 1;

  #pragma omp parallel\\
  for private(station, stack, sample, traveltimes, traveltime) num_threads(threads)
  for (node = 0; node < (n_nodes > 4 * threads ? block * threads : n_nodes); ++node) {
    stack = & map4d""")], """
import numpy as np
from quakemigrate.core import migrate
on = np.full((2, 6), 2.0)
tt = np.zeros((7, 3, 1, 2), dtype=np.int32)
assert np.allclose(migrate(on, tt, 0, 0, 2, 1), 2.0)
assert np.allclose(migrate(on, tt, 0, 0, 2, 4), 2.0)
""", "a number of nodes that is not a multiple of the number of threads, and more than four nodes per thread",
"the last few nodes of the grid are never migrated and keep the value 0")

seed("c05-tail-after-midnight", "C05", [(Q+"io/scanmseed.py",
"""            self.stream.trim(starttime=write_end + stats.delta)
            # Set written to false, because there is residual data that has not yet been
            # written to file.
            self.written = False
""",
"""            self.stream.trim(starttime=write_end + stats.delta)
            # The residual data is written along with the steps that follow
            self.written = True
""")], """
import pathlib, shutil, tempfile
import numpy as np
import demo_detectlib as D
d = pathlib.Path(tempfile.mkdtemp())
try:
    # the last time step crosses midnight
    r = D.DetectRun(d, 10, 10, "2014-06-29T23:59:57.5", ["ok"] * 3, False)
    r.run()
    got = D.collect(d / "run", 10)
    assert len(got["COA"][0]) == 30, len(got["COA"][0])
finally:
    shutil.rmtree(d)
""", "a detect run whose last time step straddles midnight (steps not aligned with the day)",
"the samples after midnight of the final step are never written", libs=("world", "refs", "detectlib"))

seed("c06-no-write-after-midnight", "C06", [(Q+"io/scanmseed.py",
"""        if self.continuous_write and not self.written:
            self.write()
""",
"""        elif self.continuous_write:
            self.write()
""")], """
import pathlib, shutil, tempfile
import demo_detectlib as D
d = pathlib.Path(tempfile.mkdtemp())
class Kill(BaseException):
    pass
try:
    r = D.DetectRun(d, 10, 10, "2014-06-29T23:59:57.5", ["ok"] * 5, True)
    ok = r.archive.plan
    def plan(k, a, b):
        if k == 3:
            raise Kill          # dies while reading the data of the 4th step
        return "ok"
    r.archive.plan = plan
    try:
        r.run()
    except Kill:
        pass
    got = D.collect(d / "run", 10)
    assert len(got["COA"][0]) == 30, len(got["COA"][0])
finally:
    shutil.rmtree(d)
""", "continuous write mode, a time step straddling midnight, and the run dying before the next step is stored",
"the part of the step after midnight is not on disk although its time step was completed and handed to storage", libs=("world", "refs", "detectlib"))

seed("c09-merge-on-marginal", "C09", [(Q+"signal/trigger.py",
"""            if all(
                [
                    event1["MaxTime"] < event2["CoaTime"] - self.marginal_window,
                    event2["MinTime"] > event1["CoaTime"] + self.marginal_window,
                ]
            ):
                event_count += 1
""",
"""            if all(
                [
                    event1["MaxTime"] < event2["CoaTime"] - self.marginal_window,
                    event2["CoaTime"] > event1["CoaTime"] + self.min_event_interval,
                ]
            ):
                event_count += 1
""")], """
import pathlib, shutil, tempfile
import numpy as np
import demo_world as world, demo_triglib as T
d = pathlib.Path(tempfile.mkdtemp())
try:
    lut = world.make_lut((2, 1, 1))
    coa = np.ones(120)
    coa[40] = 4.0                 # a short first event
    coa[47:60] = 3.0              # a long ramp up to the second one
    coa[56] = 5.0
    T.write_scan(d / "run", "2014-06-29T10:00:00", 1, coa, coa, np.zeros((120, 3)))
    T.trigger(lut, d, "2014-06-29T10:00:20", "2014-06-29T10:01:40", threshold_method="static",
              static_threshold=2.0, marginal_window=2.0, min_event_interval=6.0)
    ev = [r for rows in T.read_events(d).values() for r in rows]
    # 2nd window starts at min(56, 47 + 2) - 6 = 43 > 40 + 2: two events
    assert len(ev) == 2, ev
    coa[43:60] = 3.0              # starts at 43 + 2 - 6 = 39 <= 42: one event
    coa[56] = 5.0
    T.write_scan(d / "run", "2014-06-29T10:00:00", 1, coa, coa, np.zeros((120, 3)))
    T.trigger(lut, d, "2014-06-29T10:00:20", "2014-06-29T10:01:40", threshold_method="static",
              static_threshold=2.0, marginal_window=2.0, min_event_interval=6.0)
    ev = [r for rows in T.read_events(d).values() for r in rows]
    assert len(ev) == 1, ev
finally:
    shutil.rmtree(d)
""", "a later candidate that stays above threshold long before its peak, so its window opens inside the earlier event's marginal window while the peaks are far apart",
"candidates whose windows overlap are reported as two events", libs=("world", "triglib"))

seed("c10-last-day-unread", "C10", [(Q+"io/scanmseed.py",
"    while startday + (dy * 86400) <= readend:",
"    while readstart + (dy * 86400) <= readend:")], """
import pathlib, shutil, tempfile
import numpy as np
import demo_world as world, demo_triglib as T
d = pathlib.Path(tempfile.mkdtemp())
try:
    lut = world.make_lut((2, 1, 1))
    n = 1200
    coa = np.ones(n)
    coa[595] = 4.0                # 5 s before midnight
    coa[598:606] = 2.5            # strongest sample just after midnight
    coa[602] = 5.0
    T.write_scan(d / "run", "2014-06-29T23:50:00", 1, coa, coa, np.zeros((n, 3)))
    T.trigger(lut, d, "2014-06-29T23:55:00", "2014-06-30T00:00:00", threshold_method="static",
              static_threshold=2.0, marginal_window=2.0, min_event_interval=10.0)
    ev = [r for rows in T.read_events(d).values() for r in rows]
    assert ev == [], ev           # the merged event peaks after midnight: not in this span
finally:
    shutil.rmtree(d)
""", "a trigger span reaching midnight, with an event near midnight whose strongest part lies in the next day's file (the pad)",
"the day file holding the pad after the span is not read, so events near the end are judged on truncated coalescence", libs=("world", "triglib"))

seed("c13-decimate-shares-tables", "C13", [(Q+"lut/lut.py",
"            grid = copy.deepcopy(self)\n", "            grid = copy.copy(self)\n")], """
import numpy as np
import demo_world as world
lut = world.make_lut((5, 4, 3))
before = {s: {p: t.copy() for p, t in m.items()} for s, m in lut.traveltimes.items()}
small = lut.decimate([2, 1, 2])
for s, m in before.items():
    for p, t in m.items():
        assert lut.traveltimes[s][p].shape == t.shape and np.array_equal(lut.traveltimes[s][p], t)
""", "decimating to a new table (inplace=False) and then using the original one",
"the original lookup table's traveltimes are decimated along with the copy while its grid is not", libs=("world",))

seed("c14-traveltime-cache", "C14", [(Q+"lut/lut.py",
"""            for key, available in availability.items():
                station, phase = key.split("_")
                if available == 1:
                    try:
                        traveltimes.append(self[station][phase])
                    except KeyError:
                        traveltimes.append(self[station][f"TIME_{phase}"])
            traveltimes = np.stack(traveltimes, axis=-1)
        return np.rint(traveltimes * sampling_rate).astype(np.int32)
""",
"""            n_available = sum(availability.values())
            cached = self.__dict__.get("_served")
            if cached is not None and cached[0] == (sampling_rate, n_available, *availability):
                return cached[1]
            for key, available in availability.items():
                station, phase = key.split("_")
                if available == 1:
                    try:
                        traveltimes.append(self[station][phase])
                    except KeyError:
                        traveltimes.append(self[station][f"TIME_{phase}"])
            traveltimes = np.rint(np.stack(traveltimes, axis=-1) * sampling_rate)
            traveltimes = traveltimes.astype(np.int32)
            self._served = ((sampling_rate, n_available, *availability), traveltimes)
            return traveltimes
        return np.rint(traveltimes * sampling_rate).astype(np.int32)
""")], """
import numpy as np
import demo_world as world
lut = world.make_lut((3, 2, 2))
a = lut.serve_traveltimes(10, {"A_P": 1, "B_P": 0, "A_S": 1, "B_S": 0})
b = lut.serve_traveltimes(10, {"A_P": 0, "B_P": 1, "A_S": 0, "B_S": 1})
want = np.rint(np.stack([lut.traveltimes["B"][p] for p in "PS"], -1) * 10).astype(int)
assert np.array_equal(b, want)
""", "two successive time steps with the same number of usable onsets but from different stations",
"onsets of the second step are migrated with the traveltimes of the stations of the first", libs=("world",))

seed("c04-equal-samples", "C04", [(Q+"core/src/onsetlib.c",
"""  for (i = head -> nlta; i < head -> n; ++i) {
    buf = signal[i];
    sta += buf - signal[i - head -> nsta];
    lta += buf - signal[i - head -> nlta];
""",
"""  for (i = head -> nlta; i < head -> n; ++i) {
    buf = signal[i];
    // Nothing to update where the signal repeats itself
    if (buf != signal[i - head -> nsta]) {
      sta += buf - signal[i - head -> nsta];
      lta += buf - signal[i - head -> nlta];
    }
""")], """
import numpy as np
from quakemigrate.core.lib import overlapping_sta_lta
x = np.array([1, 5, 2, 3, 1, 4, 2, 4, 2, 4, 1, 3, 5, 1.0])
o = overlapping_sta_lta(x, 2, 5)
for k in range(4, len(x)):
    want = x[k - 1:k + 1].mean() / x[k - 4:k + 1].mean()
    assert abs(o[k] - want) < 1e-9, (k, o[k], want)
""", "a signal with equal values one short window apart (e.g. integer counts), overlapping windows",
"the long-term average is not updated for those samples and stays wrong from there on")

seed("c22-window-after-phase", "C22", [(Q+"signal/pickers/gaussian.py",
"        windows[phases[-1]][2] = samples if last_idx > samples else last_idx\n",
"        windows[phases[-1]][2] = samples if last_idx < samples else last_idx\n")], """
import types
from quakemigrate.signal.pickers import GaussianPicker
p = GaussianPicker.__new__(GaussianPicker)
w = {"P": [10, 20, 30], "S": [40, 50, 60]}
p._distinguish_windows(w, ["P", "S"], 200)
assert w["S"][2] == 60, w
""", "an onset with a stronger peak later than the S pick window",
"the last phase's pick window extends to the end of the onset, so a later, unrelated arrival is picked")

seed("c21-same-time-of-day", "C21", [(Q+"signal/scan.py",
"""        logging.debug(f"{w_beg}, {w_end}, {pre_pad}, {post_pad}")
        return self.archive.read_waveform_data(w_beg, w_end, pre_pad, post_pad)
""",
"""        logging.debug(f"{w_beg}, {w_end}, {pre_pad}, {post_pad}")
        # Triggered events may be listed more than once - only read their data once
        key = (w_beg.time, w_end.time, pre_pad, post_pad)
        if getattr(self, "_last_read", (None,))[0] != key:
            data = self.archive.read_waveform_data(w_beg, w_end, pre_pad, post_pad)
            self._last_read = (key, data)
        return self._last_read[1]
""")], """
import pathlib, shutil, tempfile
import demo_world as world, demo_locatelib as L
d = pathlib.Path(tempfile.mkdtemp())
try:
    sr = 50
    lut = L.default_lut((4, 4, 3))
    evs = [(L.T0 + 20 + 86400 * k, (1, 2, 1), 6.0) for k in range(2)]
    src = L.Source(lut, sr, evs)
    onset = world.onset_class()(L.STATIONS, L.PHASES, sr, src, pre=0.5)
    arch = world.FakeArchive(L.STATIONS)
    L.write_trigger_files(d, L.trigger_rows([e[0] for e in evs]))
    scan = L.make_scan(d, lut, arch, onset)
    scan.locate(str(L.T0), str(L.T0 + 86400 + 60))
    assert len(arch.requests) == 2
    ev = L.outputs(d)["events"]
    assert len(ev) == 2, ev
    for uid, rows in L.outputs(d)["picks"].items():
        for r in rows:
            assert r["PickTime"][:10] in ("-1", rows[0]["ModelledTime"][:10]), (uid, r)
finally:
    shutil.rmtree(d)
""", "two consecutive triggered events at exactly the same time of day on different days",
"the second event is processed with the waveforms of the first", libs=("world", "triglib", "locatelib"))

seed("c08-short-last-chunk", "C08", [(Q+"signal/trigger.py",
"            median_values = np.asarray([np.median(chunk) for chunk in chunks])\n",
"            median_values = np.asarray([np.median(chunk) for chunk in chunks])\n            if len(chunks) > 2 and len(chunks[-1]) < 2:\n                median_values[-1] = median_values[-2]\n")], """
import numpy as np, pandas as pd
import demo_world as world
from quakemigrate.signal import Trigger
t = Trigger(world.make_lut((2, 1, 1)), "/nonexistent", "r", threshold_method="median_ratio",
            median_window_length=5, median_multiplier=2.0)
x = np.array([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 30.0])
thr = t._get_threshold(pd.Series(x), 1)
assert thr[-1] == 60.0, thr
""", "a coalescence series of at least two full windows whose length leaves a last window of a single sample",
"the threshold of the last sample follows the previous window's median instead of its own window's", libs=("world",))
