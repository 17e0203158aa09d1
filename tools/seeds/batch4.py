import pathlib, sys
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parents[1]))
from mkseed import seed
Q = "quakemigrate/"

seed("c37-leftover-depth-nodes", "C37", [(Q+"lut/lut.py",
'                    c1[0] :: df[0], c1[1] :: df[1], c1[2] :: df[2]\n',
'                    c1[0] :: df[0], c1[0] :: df[1], c1[2] :: df[2]\n')], """
import numpy as np
from demo_world import make_lut
shape = (6, 7, 5)
lut = make_lut(shape, (1.0, 1.0, 1.0), ("A", "B"), ("P",))
for f in ((1, 2, 2), (3, 4, 2), (1, 4, 1), (2, 5, 2), (2, 2, 2)):
    dec = lut.decimate(list(f))
    n = np.prod(dec.node_count)
    xyz = dec.index2coord(np.arange(n), unravel=True)
    old = np.rint(lut.index2coord(xyz, inverse=True)).astype(int)
    new = np.rint(dec.index2coord(xyz, inverse=True)).astype(int)
    for s in "AB":
        a, b = lut.traveltimes[s]["P"], dec.traveltimes[s]["P"]
        assert b.shape == tuple(dec.node_count), (f, b.shape, dec.node_count)
        for i, j in zip(old, new):
            assert a[tuple(i)] == b[tuple(j)], (f, i, j)
""", "decimation by factors that leave different numbers of nodes over in x and y",
"the traveltimes of the decimated table are those of other nodes, so events are found at the wrong place", libs=("world",))

seed("c37-first-event-arrivals", "C37", [(Q+"signal/pickers/gaussian.py",
'                traveltime = lut.traveltime_to(phase, e_ijk, station)[0]\n                pick_windows.setdefault(',
'                traveltime = self._modelled.setdefault(\n                    (station, phase), lut.traveltime_to(phase, e_ijk, station)[0]\n                )\n                pick_windows.setdefault('),
(Q+"signal/pickers/gaussian.py",
'        super().__init__(**kwargs)\n',
'        super().__init__(**kwargs)\n        self._modelled = {}\n')], """
import types
import numpy as np
from obspy import UTCDateTime
from quakemigrate.signal.onsets import STALTAOnset
from quakemigrate.signal.pickers import GaussianPicker
SR, T = 50, UTCDateTime("2020-01-01")
class Onset(STALTAOnset):
    def calculate_onsets(self, data, **kw):
        return None, data
class Table:
    fraction_tt = 0.1
    def index2coord(self, x, inverse=False):
        return np.atleast_2d(x)
    def traveltime_to(self, phase, ijk, station):
        return [1.0 + ijk[0]]
onset = Onset(position="centred", sampling_rate=SR)
onset.phases = ["P"]; onset.sta_lta_windows = {"P": [0.2, 1.0]}
picker = GaussianPicker(onset=onset, plot_picks=False)
picker.write = lambda *a: None
for x in (0.0, 6.0, 3.0):
    n = 1000
    t = np.arange(n) / SR
    y = 1 + 10 * np.exp(-((t - 6.0 - x) / 0.1) ** 2) + 0.01 * np.sin(np.arange(n))
    od = types.SimpleNamespace(onsets={"A": {"P": y}}, sampling_rate=SR, starttime=T)
    out = {}
    ev = types.SimpleNamespace(data=od, otime=T + 5.0, marginal_window=0.5, hypocentre=(x, 0, 0), uid="1")
    ev.add_picks = lambda p, **k: out.update(df=p)
    picker.pick_phases(ev, Table(), None)
    p = out["df"].iloc[0]
    assert p["PickTime"] != -1 and abs(p["PickTime"] - (T + 6.0 + x)) < 0.05, (x, p)
""", "two events in one locate run",
"phases of the later events are looked for where those of the first event arrive")
