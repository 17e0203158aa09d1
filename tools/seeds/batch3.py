import pathlib, sys
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parents[1]))
from mkseed import seed
Q = "quakemigrate/"

seed("c35-dot-in-subname", "C35", [(Q+"io/core.py",
'        if "." in name or "." in subname:\n',
'        if "." in name:\n')], """
import pathlib, shutil, tempfile
import pandas as pd
from obspy import UTCDateTime
from quakemigrate.io.core import Run
from quakemigrate.io.triggered_events import OUTPUT_COLS, write_triggered_events
d = pathlib.Path(tempfile.mkdtemp())
try:
    run = Run(str(d), "run", "v1.2")
    for day in (1, 2, 3):
        t = UTCDateTime(2020, 1, day)
        events = pd.DataFrame([[day] * len(OUTPUT_COLS)], columns=list(OUTPUT_COLS))
        write_triggered_events(run, events, t, False)
    files = sorted(f.name for f in d.rglob("*.csv"))
    assert files == [f"run_v1_2_2020_00{k}_TriggeredEvents.csv" for k in (1, 2, 3)], files
finally:
    shutil.rmtree(d)
""", "a sub-run name with a dot in it, in a run name without one",
"the days' files of triggered events get the same name, so that only the last day is kept")

seed("c35-catalogue-of-all", "C35", [(Q+"export/to_obspy.py",
'            event_files = events_dir.glob("*.event")\n',
'            event_files = locate_dir.rglob("events/*.event")\n')], """
import pathlib, shutil, tempfile
import numpy as np
from quakemigrate.export.to_obspy import read_quakemigrate
HEAD = ("EventID,DT,X,Y,Z,COA,COA_NORM,GAU_X,GAU_Y,GAU_Z,GAU_ErrX,GAU_ErrY,GAU_ErrZ,COV_ErrX,COV_ErrY,COV_ErrZ,"
        "TRIG_COA,DEC_COA,DEC_COA_NORM,ML,ML_Err,ML_r2")
d = pathlib.Path(tempfile.mkdtemp())
try:
    for sub, uids in (("", ["20200101000000000"]), ("x", ["20200101000000000", "20200101000100000"])):
        for part in ("events", "picks"):
            (d / "run" / "locate" / sub / part).mkdir(parents=True)
        for uid in uids:
            (d / "run" / "locate" / sub / "events" / f"{uid}.event").write_text(
                HEAD + "\\n" + f"{uid},2020-01-01T00:00:0{len(sub)}.0Z" + ",1.0" * (HEAD.count(",") - 1) + "\\n")
            (d / "run" / "locate" / sub / "picks" / f"{uid}.picks").write_text(
                "Station,Phase,ModelledTime,PickTime,PickError,SNR\\n")
    for sub, want in (("x", 2), ("", 1)):
        got = len(read_quakemigrate(str(d / "run"), "km", run_subname=sub))
        assert got == want, (sub, got)
finally:
    shutil.rmtree(d)
""", "a run located without a sub-run name and also with one",
"the catalogue of the run also has the events located in its sub-runs, so the same event is there twice")

seed("c36-prefix-station-name", "C36", [(Q+"signal/local_mag/amplitude.py",
'        picks = picks.loc[picks["Station"] == station]\n',
'        picks = picks.loc[picks["Station"].str.startswith(station)]\n')], """
import types
import pandas as pd
from quakemigrate.signal.local_mag import LocalMag
amp = LocalMag(dict(signal_window=1.0, noise_window=1.0), dict(A0="Hutton-Boore"), plot_amplitudes=False).amp
T = "2020-01-01T00:00:%02d.000000Z"
df = pd.DataFrame([("AB", "P", T % 1), ("AB", "S", T % 2), ("A", "P", T % 3), ("A", "S", T % 4)],
                  columns=["Station", "Phase", "PickTime"])
ev = types.SimpleNamespace(picks=dict(df=df))
for s, p in (("AB", 1), ("A", 3)):
    got = amp._get_picks(s, ev)
    assert [str(x) for x in got[:2]] == [T % p, T % (p + 1)], (s, got)
""", "a station whose name is the beginning of another station's, which comes before it",
"the amplitudes of the station are measured in windows about the other station's picks")

seed("c36-location-code", "C36", [(Q+"signal/local_mag/amplitude.py",
'                tr = st.select(component=comp)\n',
'                tr = st.select(component=comp, location="")\n')], """
import pathlib, shutil, tempfile
import numpy as np
import demo_archlib as archlib, demo_locatelib as locatelib, demo_world as world
from obspy import UTCDateTime
from obspy.core.inventory import Channel, Inventory, Network, Response, Station
from quakemigrate.io import Archive
from quakemigrate.signal.local_mag import LocalMag
SR, t = 50, UTCDateTime("2020-01-01T12:00:00")
resp = Response.from_paz([0j, 0j], [-1 + 1j, -1 - 1j], stage_gain=1e3, stage_gain_frequency=1.0)
resp.instrument_sensitivity.value = 1e3
inv = Inventory([Network("AA", [Station(s, 6, 116, 0, channels=[Channel("HH" + c, loc, 6, 116, 0, 0, response=resp)
      for c in "ZNE" for loc in ("", "00")]) for s in locatelib.STATIONS])])
got = {}
for loc in ("", "00"):
    d = pathlib.Path(tempfile.mkdtemp())
    try:
        i = round(t.ns / 1e9 * SR)
        archlib.write_archive(d / "a", SR, {(s, "HH" + c): [(i - 60 * SR, i + 60 * SR)]
                              for s in locatelib.STATIONS for c in "ZNE"}, loc=loc, value=archlib.noisy)
        lut = locatelib.default_lut()
        onset = world.onset_class()(locatelib.STATIONS, ("P", "S"), SR,
                                    locatelib.Source(lut, SR, [(t, (1, 3, 2), 5.0)]), pre=0.6, post=2.0)
        ar = Archive(d / "a", archlib.station_frame(locatelib.STATIONS), archive_format="YEAR/JD/*_STATION_*",
                     response_inv=inv, response_removal_params=dict(water_level=60.0))
        mags = LocalMag(dict(signal_window=1.0, noise_window=1.0), dict(A0="Hutton-Boore"), plot_amplitudes=False)
        scan = locatelib.make_scan(d, lut, ar, onset, mags=mags)
        scan.locate(trigger_file=locatelib.write_trigger_file(d / "t.csv", locatelib.trigger_rows([t])))
        (f,) = d.rglob("*.amps")
        got[loc] = [line.split(",")[3:] for line in f.read_text().splitlines()]
    finally:
        shutil.rmtree(d)
assert got[""] == got["00"], got
assert any(x[0] for x in got[""][1:]), got
""", "channels with a location code",
"no amplitudes are measured on these channels, so the events have no magnitudes", libs=("world", "triglib", "archlib", "locatelib"))
