import csv
import itertools

from obspy import UTCDateTime

from qmmc import triglib, world
from qmmc.core import Group

LEVEL = "exploration"
RULE = ("one evaluation = one sequence of writes of triggered events (sets of events per day, with "
        "or without time windows), each in a process of its own, the files parsed with the csv "
        "module after every write and read back over every span; distinct by sequence. "
        "Non-trivial: at least two writes or two events.")
ASSUMPTIONS = ["a day's file is written by the trigger batch of that day"]

D0 = UTCDateTime("2015-12-31T00:00:00")
# (day, seconds) of the events that may be present
POOL = [(0, 0.0), (0, 43200.123), (0, 86399.98), (1, 0.0), (1, 0.02), (1, 3600.5), (2, 0.0)]
SETS = {0: [(), (0,), (1,), (2,), (0, 1, 2)], 1: [(), (3,), (4, 5), (3, 4, 5)], 2: [(6,)]}
COLS = ["EventID", "CoaTime", "TRIG_COA", "COA_X", "COA_Y", "COA_Z", "COA", "COA_NORM"]


def event(k):
    day, sec = POOL[k]
    t = D0 + 86400 * day + sec
    return dict(EventID=triglib.event_id(t), CoaTime=t, TRIG_COA=2.5 + k / 7,
                COA_X=-20.123456 + k * 0.1, COA_Y=64.5 - k * 0.010101, COA_Z=-0.25 + 3 * k,
                MinTime=t - 4.25, MaxTime=t + 5, COA=2.5 + k / 7, COA_NORM=1.1 + k / 13)


def writes(tier):
    one = [(d, s, w) for d, sets in SETS.items() for s in sets for w in (0, 1)]
    for a in one:
        yield [a]
    for a, b in itertools.product(one, repeat=2):
        yield [a, b]
    small = [(0, (0, 1, 2), 0), (0, (1,), 1), (1, (4, 5), 0), (1, (), 1), (2, (6,), 1)]
    deep = 3 if tier == "quick" else 5
    for n in range(3, deep + 1):
        yield from (list(x) for x in itertools.product(small, repeat=n))


def cases(tier):
    for seq in writes(tier):
        yield [seq]


def frame(ids):
    import pandas as pd

    cols = COLS[:6] + ["MinTime", "MaxTime"] + COLS[6:]
    return pd.DataFrame([event(k) for k in ids], columns=cols)


def file_of(day):
    return f"run_sub_{world.day_name(D0 + 86400 * day)}_TriggeredEvents.csv"


def same_event(row, k, cols):
    e = event(k)
    for c in cols:
        v = row[c]
        if c == "EventID":
            ok = str(int(v)) == e[c]
        elif c in ("CoaTime", "MinTime", "MaxTime"):
            ok = abs(UTCDateTime(v) - e[c]) < 1e-6
        else:
            ok = abs(float(v) - e[c]) < 1e-6 * max(1, abs(e[c]))
        if not ok:
            return f"{c}: {v} instead of {e[c]}"
    return None


def run(case, ctx):
    from quakemigrate.io.core import Run
    from quakemigrate.io.triggered_events import read_triggered_events, write_triggered_events

    (seq,) = case
    d = ctx.tmp()
    r = Run(d, "run", "sub", "trigger")
    state = {}
    ctx.count(str(seq), nontrivial=len(seq) > 1 or len(seq[0][1]) > 1)
    for n, (day, ids, windows) in enumerate(seq):
        label = f"after writes {seq[:n + 1]}"
        ev = frame(ids)
        before = ev.copy()
        write_triggered_events(r, ev, D0 + 86400 * day, bool(windows))
        ctx.check(ev.equals(before), "caller-table-changed", label)
        state[day] = (ids, windows)
        files = triglib.read_events(d, sub="sub")
        ctx.check(set(files) == {file_of(k) for k in state}, "files", lambda: f"{label}: {sorted(files)}")
        for dd, (i, w) in state.items():
            path = d / "run" / "trigger" / "sub" / "events" / file_of(dd)
            with open(path) as f:
                head = next(csv.reader(f))
            want = COLS + (["MinTime", "MaxTime"] if w else [])
            ctx.check(head == want, "columns", lambda: f"{label}: {file_of(dd)} has {head}")
            rows = files[file_of(dd)]
            ctx.check(len(rows) == len(i), "rows", lambda: f"{label}: {rows}")
            for row, k in zip(rows, i):
                bad = same_event(row, k, want)
                ctx.check(bad is None, "written-value", lambda: f"{label}: {bad}")
    # reading by span
    edges = [D0 - 5, D0, D0 + 1, D0 + 43200.123, D0 + 86399.98, D0 + 86399.99, D0 + 86400,
             D0 + 86400.02, D0 + 2 * 86400 - 1, D0 + 2 * 86400, D0 + 3 * 86400]
    label = f"writes {seq}"
    for a, b in itertools.combinations_with_replacement(edges, 2):
        days = [k for k in state if UTCDateTime(a.date) <= D0 + 86400 * k <= b]
        midnight = b == UTCDateTime(b.date)
        want = [k for day in sorted(days) for k in state[day][0]
                if a <= event(k)["CoaTime"]
                and (event(k)["CoaTime"] < b if midnight else event(k)["CoaTime"] <= b)]
        try:
            df = read_triggered_events(r, starttime=a, endtime=b)
        except Exception as e:
            ctx.check(not days and type(e).__name__ == "NoTriggerFilesFound", "read-raises",
                      lambda: f"{label}: span {a}..{b}: {e!r}")
            continue
        ctx.check(len(df) == len(want), "read-count", lambda: f"{label}: span {a}..{b}: "
                  f"{list(df['EventID'])}, want {[event(k)['EventID'] for k in want]}")
        for (_, row), k in zip(df.iterrows(), want):
            bad = same_event(row, k, COLS)
            ctx.check(bad is None, "read-value", lambda: f"{label}: span {a}..{b}: {bad}")
        ctx.add(reads=1)
    for day, (ids, w) in state.items():
        path = d / "run" / "trigger" / "sub" / "events" / file_of(day)
        df = read_triggered_events(r, trigger_file=str(path))
        ctx.check([str(x) for x in df["EventID"]] == [event(k)["EventID"] for k in ids],
                  "read-by-name", lambda: f"{label}: {list(df['EventID'])}")
    ctx.sample(sequence=seq)


def groups():
    return [Group("write-read", cases, run, isolate=True)]
