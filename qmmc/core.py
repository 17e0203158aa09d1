"""
Exploration driver shared by all checks: exhaustive enumeration of the cases of each
group over worker processes, crash / hang detection, evidence, replays, known findings.
"""

import collections
import hashlib
import importlib
import itertools
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import pathlib
import pickle
import shutil
import signal
import sys
import time
import traceback

from . import boot

VERIF = boot.VERIF
SCHEDULE_SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class Violation(Exception):
    """The property does not hold on a case. `sig` identifies the failing behaviour."""

    def __init__(self, sig, msg):
        super().__init__(f"{sig}: {msg}")
        self.sig = sig
        self.msg = msg


class Skip(Exception):
    pass


def digest(obj):
    return hashlib.blake2b(repr(obj).encode(), digest_size=8).digest()


class Ctx:
    """What a case run reports back."""

    def __init__(self):
        self.evals = 0
        self.keys = set()
        self.counters = collections.Counter()
        self.samples = []
        self._dirs = 0
        self._rundir = None

    def count(self, key=None, n=1, nontrivial=True):
        self.evals += n
        if nontrivial:
            self.keys.add(digest(key) if not isinstance(key, bytes) else key)

    def add(self, **kw):
        for k, v in kw.items():
            self.counters[k] += v

    def sample(self, **kw):
        if len(self.samples) < 3:
            self.samples.append(kw)

    def fail(self, sig, msg):
        raise Violation(sig, msg)

    def check(self, cond, sig, msg=""):
        if not cond:
            raise Violation(sig, msg() if callable(msg) else msg)

    def tmp(self):
        """A fresh scratch directory (removed when the case ends)."""
        if self._rundir is None:
            self._rundir = boot.scratch_root() / f"w{os.getpid()}"
        d = self._rundir / f"d{self._dirs}"
        self._dirs += 1
        d.mkdir(parents=True)
        return d

    def clean(self):
        if self._rundir is not None:
            shutil.rmtree(self._rundir, ignore_errors=True)
            self._rundir = None


class Group:
    """A family of cases. `cases(tier)` yields JSON-able cases; `run(case, ctx)` runs
    the code under test on one case and raises Violation if the property fails."""

    def __init__(self, name, cases, run, timeout=180, isolate=False):
        self.name = name
        self.isolate = isolate   # every case in a process of its own (fresh module state)
        self.cases = cases
        self.run = run
        self.timeout = timeout


def run_isolated(group, case, ctx):
    """Run one case in a forked child, so that module state starts from import."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            sub = Ctx()
            sub.samples = list(ctx.samples)
            res = run_case(group, case, sub, inside=True)
            with os.fdopen(w, "wb") as f:
                pickle.dump((res, sub.evals, sub.keys, sub.counters, sub.samples), f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        blob = f.read()
    _, status = os.waitpid(pid, 0)
    if status or not blob:
        shutil.rmtree(boot.scratch_root() / f"w{pid}", ignore_errors=True)
        return f"process-died-{status}", "the process running the case died"
    res, evals, keys, counters, samples = pickle.loads(blob)
    ctx.evals += evals
    ctx.keys |= keys
    ctx.counters.update(counters)
    ctx.samples = samples
    return res


def run_case(group, case, ctx, inside=False):
    """Run one case. Returns None or (sig, msg)."""
    if group.isolate and not inside:
        return run_isolated(group, case, ctx)
    try:
        group.run(case, ctx)
    except Skip:
        pass
    except Violation as v:
        return v.sig, v.msg
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:  # the code under test raised: it must not, here
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if str(boot.REPO) in f.filename]
        where = f"{pathlib.Path(inside[-1].filename).name}:{inside[-1].name}" if inside else "harness"
        tail = "".join(traceback.format_exception(e)[-6:])
        return f"exception-{type(e).__name__}-in-{where}", tail[-1500:]
    finally:
        ctx.clean()
    return None


MAX_VIOLATIONS = 6
KNOWN_SIGS = set()


def all_cases(groups, tier):
    for gi, group in enumerate(groups):
        for case in group.cases(tier):
            yield gi, case


def _worker(wid, groups, tier, counter, current, started, conn, stop):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    null = os.open(os.devnull, os.O_WRONLY)   # the code under test prints
    os.dup2(null, 1)
    ctx = Ctx()
    found = 0

    def take():
        with counter.get_lock():
            n = counter.value
            counter.value += 1
        return n

    mine = take()
    for idx, (gi, case) in enumerate(all_cases(groups, tier)):
        if idx < mine:
            continue
        if stop.value:
            break
        current[wid] = idx
        started[wid] = time.time()
        v = run_case(groups[gi], case, ctx)
        started[wid] = 0.0
        if v is not None:
            conn.send(("violation", (gi, case, v[0], v[1])))
            found += v[0] not in KNOWN_SIGS
            if found >= MAX_VIOLATIONS:
                stop.value = 1
        mine = take()
    conn.send(("done", dict(evals=ctx.evals, keys=ctx.keys, counters=ctx.counters,
                            samples=ctx.samples)))
    conn.close()
    sys.stdout.flush()
    os._exit(0)


def locate_case(groups, tier, index):
    for idx, (gi, case) in enumerate(all_cases(groups, tier)):
        if idx == index:
            return gi, case
    return 0, None


def explore(groups, tier, workers):
    """Run every case of every group. Returns (merged ctx, violations, n_cases)."""
    ctxm = mp.get_context("fork")
    counter = ctxm.Value("q", 0)
    stop = ctxm.Value("i", 0)
    current = ctxm.Array("q", [-1] * workers, lock=False)
    started = ctxm.Array("d", [0.0] * workers, lock=False)
    procs = []
    for w in range(workers):
        a, b = ctxm.Pipe(duplex=False)
        p = ctxm.Process(target=_worker,
                         args=(w, groups, tier, counter, current, started, b, stop))
        p.start()
        b.close()
        procs.append([p, a, False])
    total = Ctx()
    violations = []
    timeout = max(g.timeout for g in groups)
    live = set(range(workers))
    while live:
        conns = {procs[w][1]: w for w in live}
        for c in mp.connection.wait(list(conns), timeout=1.0):
            w = conns[c]
            try:
                kind, payload = c.recv()
            except EOFError:
                # died without saying goodbye
                procs[w][0].join()
                code = procs[w][0].exitcode
                gi, case = locate_case(groups, tier, current[w])
                violations.append((gi, case,
                                   f"process-died-{code}",
                                   "the process running the case died"))
                stop.value = 1
                live.discard(w)
                continue
            if kind == "violation":
                violations.append(payload)
            else:
                total.evals += payload["evals"]
                total.keys |= payload["keys"]
                total.counters.update(payload["counters"])
                total.samples.extend(payload["samples"])
                procs[w][0].join()
                live.discard(w)
        now = time.time()
        for w in list(live):
            if started[w] and now - started[w] > timeout:
                gidx = current[w]
                procs[w][0].kill()
                procs[w][0].join()
                gi, case = locate_case(groups, tier, gidx)
                violations.append((gi, case, "no-termination",
                                   f"case did not finish within {timeout} s"))
                stop.value = 1
                live.discard(w)
    return total, violations


KNOWN = VERIF / "known_findings.txt"


def known_findings(prop):
    """Lines `KNOWN property=<id> sig=<signature> <what fails>`; `fixed:` lines
    suppress nothing."""
    out = {}
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            parts = line.split(None, 3)
            if len(parts) == 4 and parts[0] == "KNOWN" and parts[1] == f"property={prop}":
                out[parts[2].removeprefix("sig=")] = parts[3]
    return out


def jsonable(x):
    import numpy as np

    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (set, frozenset)):
        return sorted(x)
    return str(x)


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--thorough" in argv:
        tier = "thorough"
    if "--quick" in argv:
        tier = "quick"
    tier = "thorough" if tier == "thorough" else "quick"
    t0 = time.time()
    mod = importlib.import_module(f"qmmc.checks.{prop.lower()}")
    setup = getattr(mod, "setup", None)
    if getattr(mod, "BOOT", True):
        boot.boot()
    if setup:
        setup(tier)
    groups = mod.groups()
    if "--only" in argv:
        sel = argv[argv.index("--only") + 1].split(",")
        groups = [g for g in groups if g.name in sel]

    if "--replay" in argv:
        rec = json.loads(pathlib.Path(argv[argv.index("--replay") + 1]).read_text())
        group = {g.name: g for g in groups}[rec["group"]]
        v = run_case(group, rec["case"], Ctx())
        if v is None:
            print(f"replay: property {prop} holds on this case")
            return 0
        print(f"replay: {v[0]}: {v[1]}")
        print(f"VIOLATION property={prop} replay={argv[argv.index('--replay') + 1]}")
        return 1

    workers = int(os.environ.get("QMMC_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    if "--time" in argv:
        for g in groups:
            t = time.time()
            total, violations = explore([g], tier, workers)
            print(f"  {g.name}: evals={total.evals} distinct={len(total.keys)} "
                  f"{dict(total.counters)} {time.time() - t:.1f}s viol={len(violations)}")
            for _, case, sig, msg in violations[:int(os.environ.get("SHOW", "0"))]:
                print("   ", sig, str(msg)[:400])
        return 0
    known = known_findings(prop)
    KNOWN_SIGS.update(known)
    total, violations = explore(groups, tier, workers)

    rdir = VERIF / "replays"
    reported, seen, listed = 0, set(), set()
    lines = []
    for gi, case, sig, msg in violations:
        if sig in known:
            listed.add(sig)
            continue
        if sig in seen:
            continue
        seen.add(sig)
        rdir.mkdir(exist_ok=True)
        name = hashlib.blake2b(f"{sig}{case}".encode(), digest_size=6).hexdigest()
        path = rdir / f"{prop}_{name}.json"
        path.write_text(json.dumps(dict(property=prop, group=groups[gi].name, case=case,
                                        signature=sig, message=msg),
                                   default=jsonable, indent=1))
        lines.append(f"{sig}: {msg}"[:2000])
        lines.append(f"VIOLATION property={prop} replay={path}")
        reported += 1
    for sig in sorted(listed):
        print(f"KNOWN-FINDING: property={prop} {known[sig]}")
    for line in lines:
        print(line)

    level = mod.LEVEL
    cov = dict(
        evaluations=int(total.evals),
        distinct_nontrivial=len(total.keys),
        rule=mod.RULE,
        samples=total.samples[:6],
        exhaustive=not violations,
        groups=[g.name for g in groups],
    )
    for k, v in sorted(total.counters.items()):
        cov[k] = int(v)
    if level == "model_checking":
        cov.setdefault("states", 0)
        cov.setdefault("transitions", 0)
        cov.setdefault("traces_validated_against_impl", 0)
    ev = dict(property=prop, tier=tier, seed=SCHEDULE_SEED, level=level, coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []),
              wall_s=round(time.time() - t0, 2), violations=reported)
    edir = VERIF / "evidence"
    edir.mkdir(exist_ok=True)
    (edir / f"{prop}.json").write_text(json.dumps(ev, default=jsonable, indent=1))
    print(f"{prop} [{tier}] evaluations={total.evals} distinct={len(total.keys)} "
          f"{dict(total.counters)} violations={reported} wall={time.time() - t0:.1f}s")
    return 1 if reported else 0


def product_dict(**axes):
    names = list(axes)
    for combo in itertools.product(*axes.values()):
        yield dict(zip(names, combo))
