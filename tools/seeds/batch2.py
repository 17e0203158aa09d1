import pathlib, sys
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parents[1]))
from mkseed import seed
Q = "quakemigrate/"

seed("c07-same-day-of-month", "C07", [(Q+"io/availability.py",
"        to_write = availability[availability.index.date == date]\n",
"        to_write = availability[availability.index.day == date.day]\n")], """
import pathlib, shutil, tempfile
import pandas as pd
from obspy import UTCDateTime
from quakemigrate.io.availability import write_availability
from quakemigrate.io.core import Run
d = pathlib.Path(tempfile.mkdtemp())
try:
    t = [UTCDateTime("2020-01-15T00:00:00") + 86400 * k for k in range(40)]
    av = pd.DataFrame({"A_P": [1] * 40}, index=[str(x) for x in t])
    write_availability(Run(str(d), "run"), av)
    files = sorted((d / "run" / "detect" / "availability").iterdir())
    n = [len(f.read_text().splitlines()) - 1 for f in files]
    assert n == [1] * 40, n
finally:
    shutil.rmtree(d)
""", "a detect run that covers the same day of the month in two months",
"the availability files of those days hold each other's rows as well")

seed("c17-flat-second-segment", "C17", [(Q+"io/data.py",
"                if any(tr.data.max() == tr.data.min() for tr in st_id):\n                    continue\n",
"                if st_id[0].data.max() == st_id[0].data.min():\n                    continue\n")], """
import numpy as np
from obspy import Stream, Trace, UTCDateTime
from quakemigrate.io.data import WaveformData
t = UTCDateTime(2020, 1, 1)
w = WaveformData(t, t + 20)
h = dict(network="N", station="A", channel="HHZ", sampling_rate=10)
a = Trace(np.arange(50) % 7, dict(h, starttime=t))
b = Trace(np.full(50, 3), dict(h, starttime=t + 10))
for st in (Stream([a, b]), Stream([b, a])):
    got, d = w.check_availability(st, allow_gaps=True, full_timespan=False)
    assert got == 0 and d == {"N.A..HHZ": 0}, (got, d)
""", "gaps allowed, and a channel whose first segment is alive and a later one flat",
"a channel that went dead part way through counts as available")

seed("c18-prepad-before-midnight", "C18", [(Q+"io/data.py",
"        files = self._load_from_path(starttime - pre_pad, endtime + post_pad)\n",
"        files = self._load_from_path(starttime, endtime + post_pad)\n")], """
import pathlib, shutil, tempfile
import numpy as np, pandas as pd
from obspy import Trace, UTCDateTime
from quakemigrate.io import Archive
d = pathlib.Path(tempfile.mkdtemp())
try:
    m = UTCDateTime(2020, 1, 2)
    for day in (m - 86400, m):
        t = m - 30 if day < m else m
        n = 300 if day < m else 600
        p = d / str(day.year) / f"{day.julday:03d}"
        p.mkdir(parents=True)
        Trace(np.arange(n, dtype=np.int32), dict(network="N", station="A", channel="HHZ", sampling_rate=10,
              starttime=t)).write(str(p / "a_A_HHZ.m"), format="MSEED")
    st = pd.DataFrame({"Name": ["A"]})
    a = Archive(str(d), st, archive_format="YEAR/JD/*_STATION_*")
    w = a.read_waveform_data(m + 2, m + 10, 5.0, 5.0)
    assert min(tr.stats.starttime for tr in w.raw_waveforms) == m - 3, w.raw_waveforms
finally:
    shutil.rmtree(d)
""", "a window that starts after midnight by less than the extra pad",
"the part of the pad before midnight is missing from the raw data, so cut waveforms start late")

seed("c20-taper-of-the-span-only", "C20", [(Q+"signal/onsets/base.py",
"        timespan += self.pre_pad + self.post_pad\n",
"        timespan += self.pre_pad\n")], """
from quakemigrate.signal.onsets import STALTAOnset
o = STALTAOnset(position="classic", sampling_rate=50)
o.sta_lta_windows = {"P": [0.2, 1.0], "S": [0.2, 1.0]}
for tt in (1.0, 60.0, 200.0):
    o.post_pad = tt
    pre, post = o.pad(120.0)
    total = pre + 120.0 + post
    assert pre - o.pre_pad >= 0.05 * total and post - o.post_pad >= 0.05 * total, (tt, pre, post)
""", "traveltimes that are long compared with the time step",
"the pads no longer hold the taper, so the start and end of each window are scanned over tapered data")

seed("c23-flat-grid-spline", "C23", [(Q+"signal/scan.py",
"        if (x2 - x1) == (y2 - y1) == (z2 - z1):\n",
"        if (x2 - x1) == (y2 - y1):\n")], """
import numpy as np
import demo_world as world
from quakemigrate.signal.scan import QuakeScan
lut = world.make_lut((16, 16, 16), (1.0, 1.0, 1.0))
s = QuakeScan.__new__(QuakeScan)
s.lut = lut
s.dt = None
i, j, k = np.indices((16, 16, 16))
for node in ((8, 8, 1), (8, 8, 0), (8, 8, 15)):      # the window meets the edge of the grid
    m = np.exp(-((i - node[0] - 0.3) ** 2 + (j - node[1] + 0.3) ** 2 + (k - node[2]) ** 2) / 8.0)
    want = lut.index2coord([list(node)])[0]
    got = np.asarray(s._splineloc(m))
    assert np.allclose(got, want, atol=1e-9), (node, got, want)
""", "an event whose interpolation window meets the top or bottom of the grid but none of its sides",
"the spline location is taken from a truncated window instead of falling back to the node", libs=("world",))

seed("c24-no-s-onset", "C24", [(Q+"signal/local_mag/amplitude.py",
"""                    p_pick = event.otime + p_ttimes[i]
                    s_pick = event.otime + s_ttimes[i]
                    break
""",
"""                    s_pick = event.otime + s_ttimes[i]
                    if not isinstance(p_pick, UTCDateTime):
                        p_pick = event.otime + p_ttimes[i]
                    break
""")], """
import types
from obspy import UTCDateTime
from quakemigrate.signal.local_mag.amplitude import Amplitude
t = UTCDateTime(2020, 1, 1)
a = Amplitude(dict(signal_window=1.0))
ev = types.SimpleNamespace(otime=t, marginal_window=0.5, uid="x")
a._get_picks = lambda st, e: (t + 3.5, "No S onset", True)
w, picked = a._get_amplitude_windows("A", 0, ev, [2.0], [4.0], 0.1)
assert w[0][0] == t + 2.0 - 0.5 - 0.2, w
""", "a station with a P autopick and no S onset at all",
"the P window is placed on the unchecked P pick, and the S window starts within it")

seed("c25-gain-when-any-missing", "C25", [(Q+"signal/local_mag/magnitude.py",
"        # applied to the variable `noise_amps`; not the DataFrame.\n        if not filter_gains.isnull().values.all():\n            noise_amps /= filter_gains\n\n        # Remove those",
"        # applied to the variable `noise_amps`; not the DataFrame.\n        if not filter_gains.isnull().values.any():\n            noise_amps /= filter_gains\n\n        # Remove those")], """
import numpy as np, pandas as pd
from quakemigrate.signal.local_mag.magnitude import Magnitude
cols = dict(epi_dist=10.0, z_dist=5.0, P_filter_gain=0.5, S_filter_gain=0.5, Noise_amp=0.1, P_amp=2.0,
            S_amp=4.0, is_picked=True)
ids = ["N.A..HHN", "N.A..HHE", "N.B..HHN"]
def mags(missing):
    df = pd.DataFrame([dict(cols) for _ in ids], index=ids)
    if missing:
        df.loc["N.B..HHN", ["S_amp", "S_filter_gain"]] = np.nan
    return Magnitude(dict(A0="Hutton-Boore")).calculate_magnitudes(df)["ML_Err"].values[:2]
assert np.allclose(mags(False), mags(True)), (mags(False), mags(True))
""", "amplitudes measured on filtered data, with at least one channel on which none could be measured",
"the noise is not corrected for the filter gain, so errors and noise rejection are wrong for all channels")

seed("c26-no-p-amplitude", "C26", [(Q+"export/to_obspy.py",
"""                if pd.isna(ampsline[phase]):
                    continue
""",
"""                if pd.isna(ampsline[phase]):
                    break
""")], """
import pathlib, shutil, tempfile
from quakemigrate.export.to_obspy import read_quakemigrate
d = pathlib.Path(tempfile.mkdtemp())
try:
    loc = d / "run" / "locate"
    for s in ("events", "picks", "amplitudes"):
        (loc / s).mkdir(parents=True)
    ev = dict(EventID="20200101000000000", DT="2020-01-01T00:00:00Z", X=1, Y=2, Z=3, COA=4, COA_NORM=2,
              GAU_X=1, GAU_Y=2, GAU_Z=3, GAU_ErrX=1, GAU_ErrY=1, GAU_ErrZ=1, COV_ErrX=1, COV_ErrY=1, COV_ErrZ=1,
              TRIG_COA=4, DEC_COA=4, DEC_COA_NORM=2, ML=1.0, ML_Err=0.1, ML_r2=0.9)
    (loc / "events" / "20200101000000000.event").write_text(
        ",".join(ev) + "\\n" + ",".join(map(str, ev.values())) + "\\n")
    (loc / "picks" / "20200101000000000.picks").write_text(
        "Station,Phase,ModelledTime,PickTime,PickError,SNR\\nA,P,2020-01-01T00:00:01Z,-1,-1,-1\\n")
    am = dict(id="N.A..HHN", epi_dist=1, z_dist=1, P_amp="", P_freq="", P_time="", P_avg_amp="", P_filter_gain="",
              S_amp=2.0, S_freq=1.0, S_time="2020-01-01T00:00:02Z", S_avg_amp=1.0, S_filter_gain="", Noise_amp=0.1,
              is_picked=False, ML=1.0, ML_Err=0.1)
    (loc / "amplitudes" / "20200101000000000.amps").write_text(
        ",".join(am) + "\\n" + ",".join(map(str, am.values())) + "\\n")
    (e,) = read_quakemigrate(str(d / "run"), "km").events
    assert [a.method_id.id.split("/")[-1] for a in e.amplitudes] == ["S_amp"], e.amplitudes
    assert len(e.station_magnitudes) == 1
finally:
    shutil.rmtree(d)
""", "a channel with an S amplitude but no P amplitude",
"the S amplitude and the station magnitude of that channel are not read")

seed("c29-keep-bad-channels", "C29", [(Q+"signal/onsets/stalta.py",
"""                        to_remove = waveforms.select(id=key)
                        [waveforms.remove(tr) for tr in to_remove]
""",
"""                        to_remove = waveforms.select(id=key)
                        waveforms.remove(to_remove[0])
""")], """
import numpy as np
from obspy import Stream, Trace, UTCDateTime
from quakemigrate.io.data import WaveformData
from quakemigrate.signal.onsets import STALTAOnset
t = UTCDateTime(2020, 1, 1)
y = np.random.RandomState(1).randn(1001)
def onset(bad):
    h = dict(network="N", station="A", sampling_rate=50, starttime=t)
    st = Stream([Trace(y.copy(), dict(h, channel="HHN"))])
    if bad:         # a channel in two pieces, which may not have gaps
        st += Stream([Trace(y[:300] * 2, dict(h, channel="HHE")),
                      Trace(y[600:] * 2, dict(h, channel="HHE", starttime=t + 12))])
    data = WaveformData(t, t + 20, stations=__import__("pandas").Series(["A"]))
    data.waveforms = st
    o = STALTAOnset(position="classic", sampling_rate=50, phases=["S"], all_channels=False)
    o.bandpass_filters = {"S": [2, 14, 2]}
    o.sta_lta_windows = {"S": [0.2, 1.0]}
    return o.calculate_onsets(data)[1].onsets["A"]["S"]
a, b = onset(False), onset(True)
assert a.shape == b.shape and np.allclose(a, b)
""", "a station of which one channel fails the availability criteria and comes in more than one piece",
"the rest of the pieces are used in the onset")

seed("c31-post-cut-only", "C31", [(Q+"io/cut_waveforms.py",
"""            and isinstance(event.data.wa_waveforms, Stream)
            and not pre_cut
            and not post_cut
""",
"""            and isinstance(event.data.wa_waveforms, Stream)
            and not pre_cut
""")], """
import pathlib, shutil, tempfile, types
import numpy as np
from obspy import Stream, Trace, UTCDateTime, read
from quakemigrate.io.core import Run
from quakemigrate.io.cut_waveforms import write_cut_waveforms
d = pathlib.Path(tempfile.mkdtemp())
try:
    t = UTCDateTime(2020, 1, 1)
    tr = Trace(np.arange(1000.0), dict(network="N", station="A", channel="HHZ", sampling_rate=10, starttime=t))
    data = types.SimpleNamespace(raw_waveforms=Stream([tr]), wa_waveforms=Stream([tr.copy()]), real_waveforms=None,
                                 get_wa_waveform=lambda tr, velocity: tr.copy())
    ev = types.SimpleNamespace(uid="x", otime=t + 50, data=data)
    write_cut_waveforms(Run(str(d), "run"), ev, "MSEED", None, 10.0, waveform_type="wa", units="displacement")
    (f,) = (d / "run" / "locate" / "wa_cut_waveforms").iterdir()
    assert read(str(f))[0].stats.endtime == t + 60, read(str(f))
finally:
    shutil.rmtree(d)
""", "Wood-Anderson cut waveforms in displacement, magnitudes calculated, an end cut and no start cut",
"the cut is ignored and the whole window that was read is written")


seed("c11-end-in-first-hour", "C11", [(Q+"io/triggered_events.py",
"        if endtime.time == time(0, 0):\n", "        if endtime.hour == 0 and endtime.minute == 0:\n")], """
import pathlib, shutil, tempfile
import pandas as pd
from obspy import UTCDateTime
from quakemigrate.io.core import Run
from quakemigrate.io.triggered_events import read_triggered_events, write_triggered_events
d = pathlib.Path(tempfile.mkdtemp())
try:
    run = Run(str(d), "run")
    e = UTCDateTime("2020-01-02T00:00:30")
    run.subname = getattr(run, "subname", "") or ""
    fp = d / "run" / "trigger" / run.subname / "events"
    fp.mkdir(parents=True)
    (fp / "run_2020_002_TriggeredEvents.csv").write_text(
        "EventID,CoaTime,TRIG_COA,COA_X,COA_Y,COA_Z,COA,COA_NORM\\n"
        "20200102000030000,2020-01-02T00:00:30.000000Z,1,1,1,1,1,1\\n")
    got = read_triggered_events(run, starttime=e - 86400, endtime=e)
    assert len(got) == 1, got
finally:
    shutil.rmtree(d)
""", "a span that ends within a minute after midnight, exactly at the time of an event",
"the event at the end of the span is not located")

seed("c15-sorted-availability", "C15", [(Q+"lut/lut.py",
"            for key, available in availability.items():\n",
"            for key, available in sorted(availability.items()):\n")], """
import numpy as np
import demo_world as world
lut = world.make_lut((2, 2, 2), stations=("B", "A"))
av = {"B_P": 1, "A_P": 1, "B_S": 0, "A_S": 1}
tt = lut.serve_traveltimes(50, av)
for i, (s, p) in enumerate((("B", "P"), ("A", "P"), ("A", "S"))):
    assert np.array_equal(tt[..., i], np.rint(lut[s][p] * 50).astype(np.int32)), (s, p)
""", "stations (or phases) that are not listed in alphabetical order",
"the onsets of some stations are migrated with the traveltimes of others", libs=("world",))

seed("c30-window-shrinks", "C30", [(Q+"signal/trigger.py",
"""            if self.threshold_method == "mad":
                window_length = self.mad_window_length
            else:
""",
"""            if self.threshold_method == "mad":
                # The window can't be longer than the data
                self.mad_window_length = min(
                    self.mad_window_length, len(scandata) / sampling_rate
                )
                window_length = self.mad_window_length
            else:
""")], """
import numpy as np, pandas as pd
import demo_world as world
from quakemigrate.signal import Trigger
def trig():
    return Trigger(world.make_lut((2, 1, 1)), "/nonexistent", "r", threshold_method="mad",
                   mad_window_length=20, mad_multiplier=2.0)
x = pd.Series(np.abs(np.sin(np.arange(60.0))) + 1)
a, b = trig(), trig()
b._get_threshold(x[:5], 1)
assert np.array_equal(a._get_threshold(x, 1), b._get_threshold(x, 1))
""", "a MAD threshold, and a day with less data than its window triggered before another with the same object",
"the later days are triggered with a shorter window", libs=("world",))

seed("c34-rejected-uncorrected", "C34", [(Q+"plot/amplitudes.py",
"""            rejected_mags[amp_feature]
            * amp_multiplier
            * np.power(10, rejected_mags["Station_Correction"]),
            xerr=dist_err,
""",
"""            rejected_mags[amp_feature] * amp_multiplier,
            xerr=dist_err,
""")], """
import matplotlib
matplotlib.use("Agg")
import numpy as np, pandas as pd
from quakemigrate.plot.amplitudes import amplitudes_summary
m = pd.DataFrame({"Dist": [1.0, 2.0, 3.0], "S_amp": [10.0, 20.0, 30.0], "Noise_amp": [1.0, 1.0, 1.0],
                  "Station_Correction": [0.0, 0.0, 1.0], "Used": [True, True, False]},
                 index=["N.A..HHN", "N.B..HHN", "N.C..HHN"])
_, ax = amplitudes_summary(m, "S_amp", 1.0, 0.1, 0.5)
pts = {(round(float(x), 6), round(float(y), 6)) for ln in ax.lines
       for x, y in zip(np.atleast_1d(ln.get_xdata()), np.atleast_1d(ln.get_ydata()))}
assert (3.0, 300.0) in pts, pts
""", "an amplitude plot with a rejected observation at a station with a magnitude correction",
"rejected amplitudes are drawn without the station correction the others have")

seed("c34-rejected-events-depth", "C34", [(Q+"plot/trigger.py",
"""        # Plot on YZ
        fig.axes[5].scatter(z, y, s=50, c="grey")
""",
"""        # Plot on YZ
        fig.axes[5].scatter(z, x, s=50, c="grey")
""")], """
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np, pandas as pd
from quakemigrate.plot.trigger import _plot_event_scatter
fig = plt.figure()
for k in range(6):
    fig.add_subplot(2, 3, k + 1)
_plot_event_scatter(fig, pd.DataFrame({"COA_X": [1.0], "COA_Y": [2.0], "COA_Z": [3.0], "TRIG_COA": [4.0]}),
                    discarded=True)
got = {tuple(map(float, o)) for ax in fig.axes for c in ax.collections for o in c.get_offsets()}
assert got == {(1.0, 2.0), (1.0, 3.0), (3.0, 2.0)}, got
""", "a trigger summary with a region and an event outside it",
"the events outside the region are drawn at the wrong place on one of the sections")
