import pathlib, sys
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parents[1]))
from mkseed import seed
Q = "quakemigrate/"

seed("c38-bridged-sample", "C38", [(Q+"util.py",
'                stream_merged += stream.select(id=seed_id).merge(method=-1)\n',
'                merged = stream.select(id=seed_id).merge(method=-1)\n'
'                # Bridge dropouts of a single sample\n'
'                if len(merged) > 1 and all(gap[7] == 1 for gap in merged.get_gaps()):\n'
'                    merged.merge(method=1, fill_value="interpolate")\n'
'                stream_merged += merged\n')], """
import pathlib, shutil, tempfile
import numpy as np
import demo_archlib as archlib
from obspy import UTCDateTime
from quakemigrate.io import Archive
from quakemigrate.signal.onsets import STALTAOnset
SR, t = 50, UTCDateTime("2020-01-01T12:00:00")
i = round(t.ns / 1e9 * SR)
d = pathlib.Path(tempfile.mkdtemp())
try:
    segs = {(s, c): [(i - 60 * SR, i + 90 * SR)] for s in ("A", "B") for c in ("HHZ", "HHN", "HHE")}
    for n, miss in enumerate((None, [(i - 60 * SR, i + 9 * SR), (i + 9 * SR + 2, i + 90 * SR)],
                              [(i - 60 * SR, i + 9 * SR), (i + 9 * SR + 9, i + 90 * SR)])):
        if miss:
            segs["A", "HHZ"] = miss
        archlib.write_archive(d / f"{n}", SR, segs, value=archlib.noisy)
        ar = Archive(d / f"{n}", archlib.station_frame(("A", "B")), archive_format="YEAR/JD/*_STATION_*")
        data = ar.read_waveform_data(t - 10, t + 30)
        onset = STALTAOnset(position="classic", sampling_rate=SR)
        onset.phases, onset.bandpass_filters, onset.sta_lta_windows = ["P"], {"P": [2, 16, 2]}, {"P": [0.2, 1.0]}
        _, od = onset.calculate_onsets(data)
        assert od.availability == {"A_P": int(miss is None), "B_P": 1}, (n, od.availability)
finally:
    shutil.rmtree(d)
""", "a gap of a single sample in a channel's data",
"a channel with a gap is scanned with a made-up sample, as if its data were complete", libs=("world", "archlib"))
