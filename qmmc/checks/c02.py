import ctypes
import itertools
import subprocess

import numpy as np

from qmmc import boot, refs
from qmmc.core import Group

LEVEL = "model_checking"
RULE = ("one evaluation = one execution of a real parallel region (migrate or find_max_coa, "
        "compiled from the tree) under one schedule chosen by the controlled OpenMP "
        "runtime. If no byte is accessed by two threads with a write, all interleavings "
        "are one Mazurkiewicz trace and every serial order of the threads is still run; "
        "otherwise all interleavings at the conflicting accesses and runtime calls are "
        "explored up to the preemption bound. Non-trivial: two or more threads; distinct "
        "by problem and schedule.")
ASSUMPTIONS = ["gcc -O0 instrumented build of the same sources (races are a property of the "
               "source's sharing clauses, not of the optimisation level)",
               "sequentially consistent interleavings; preemption bound 2 (quick) / 3 (thorough)"]

_lib = None
_core = None  # quakemigrate.core.lib bound to the instrumented library
BOUND = {"quick": 2, "thorough": 3}
_tier = "quick"


def setup(tier):
    global _lib, _tier
    _tier = tier
    out = boot.scratch_root()
    src = boot.REPO / "quakemigrate" / "core" / "src"
    objs = []
    for c in boot.c_sources():
        o = out / (c.stem + ".sched.o")
        subprocess.run(["gcc", "-c", "-w", "-O0", "-g", "-fPIC", "-fopenmp", "-fsanitize=thread",
                        "-ffast-math", f"-I{src}", str(c), "-o", str(o)], check=True,
                       capture_output=True)
        objs.append(str(o))
    rt = out / "sched_rt.o"
    subprocess.run(["gcc", "-c", "-w", "-O2", "-fPIC",
                    str(boot.VERIF / "qmmc" / "csrc" / "sched_rt.c"), "-o", str(rt)],
                   check=True, capture_output=True)
    so = out / "sched_check.so"
    subprocess.run(["gcc", "-shared", "-o", str(so), *objs, str(rt), "-lm",
                    "-Wl,-Bsymbolic", "-Wl,--wrap=memset,--wrap=memcpy,--wrap=memmove",
                    "-Wl,-z,lazy"], check=True, capture_output=True)
    _lib = ctypes.CDLL(str(so))
    global _core
    _core = boot.import_core(so)
    _lib.qm_accesses.restype = ctypes.c_size_t
    _lib.qm_conflicts.restype = ctypes.c_size_t


class Engine:
    """Stateless exploration of the schedules of one problem."""

    def __init__(self, ctx, problem, label, bound):
        self.ctx, self.problem, self.label, self.bound = ctx, problem, label, bound
        self.conf = []
        self.threads = 1

    def execute(self, choices, order=None):
        n = len(choices)
        carr = (ctypes.c_int * max(n, 1))(*choices)
        conf = np.array(sorted(self.conf), dtype=np.uintp)
        order = list(order or range(16))
        order += [i for i in range(16) if i not in order]
        oarr = (ctypes.c_int * 16)(*order)
        _lib.qm_setup(carr, n, conf.ctypes.data_as(ctypes.c_void_p),
                      ctypes.c_size_t(len(conf)), oarr)
        result = self.problem.run()
        pts = []
        c, m, ch = ctypes.c_int(), ctypes.c_int(), ctypes.c_int()
        for i in range(min(_lib.qm_points(), 65536)):
            _lib.qm_point(i, ctypes.byref(c), ctypes.byref(m), ctypes.byref(ch))
            pts.append((c.value, m.value, ch.value))
        cap = 1 << 16
        buf = (ctypes.c_size_t * cap)()
        ncf = _lib.qm_conflicts(buf, ctypes.c_size_t(cap))
        fresh = set(buf[:min(ncf, cap)]) - set(self.conf)
        self.ctx.add(states=len(pts) + 1, transitions=int(_lib.qm_accesses()),
                     traces_validated_against_impl=1)
        self.ctx.count((self.label, tuple(choices), tuple(order), len(self.conf)))
        self.ctx.check(not _lib.qm_deadlock(), "deadlock", self.label)
        if _lib.qm_accesses() == 0 and self.threads > 1:
            self.ctx.add(runs_without_parallel_region=1)
        self.problem.check(result, self.ctx, f"{self.label} schedule {choices} order {order[:6]}")
        return pts, fresh

    def explore(self, threads):
        self.threads = threads
        # every serial order of the threads (all 1-preemption-free schedules)
        orders = list(itertools.permutations(range(threads))) if threads <= 4 else \
            [tuple(range(threads)), tuple(reversed(range(threads)))]
        for order in orders:
            _, fresh = self.execute([], order)
            self.conf = sorted(set(self.conf) | fresh)
        if not self.conf and not self._has_points():
            return
        self.ctx.add(problems_with_shared_accesses=bool(self.conf))
        stable = False
        while not stable:
            stable = True
            stack = [([], 0)]
            runs = 0
            while stack:
                prefix, pre = stack.pop()
                pts, fresh = self.execute(prefix)
                runs += 1
                if fresh:
                    self.conf = sorted(set(self.conf) | fresh)
                    stable = False
                    break
                if runs > 20000:
                    self.ctx.add(truncated=1)
                    break
                for i in range(len(prefix), len(pts)):
                    c, m, ch = pts[i]
                    used = sum(1 for (cc, _, hh) in pts[len(prefix):i] if cc >= 0 and hh != cc)
                    for t in range(threads):
                        if t != ch and m >> t & 1:
                            cost = pre + used + (1 if c >= 0 and t != c else 0)
                            if cost <= self.bound:
                                stack.append(([p[2] for p in pts[:i]] + [t], cost))

    def _has_points(self):
        # scheduling points beyond the choice of which thread starts next
        pts, _ = self.execute([])
        return any(c >= 0 for c, _, _ in pts)


class Migrate:
    def __init__(self, k, n, nodes, first, last, threads):
        t = n + first + last
        self.on = 0.5 + np.modf(np.sqrt(np.arange(2, 2 + k * t) * 3.0))[0].reshape(k, t)
        self.tt = ((np.arange(nodes * k) * 7919) % (last + 1)).astype(np.int32)
        self.tt = self.tt.reshape(nodes, 1, 1, k)
        self.args = (first, last, k, threads)
        self.want = refs.migrate_ref(self.on, self.tt, first, last, k)
        self.base = None

    def run(self):
        return np.asarray(_core.migrate(self.on, self.tt, *self.args))

    def check(self, out, ctx, label):
        if self.base is None:
            self.base = out.copy()
        ctx.check(refs.close(out, self.want), "schedule-dependent-migration",
                  lambda: f"{label}: {out.tolist()} != {self.want.tolist()}")
        ctx.check(out.tobytes() == self.base.tobytes(), "schedule-dependent-migration",
                  lambda: label)


class MaxCoa:
    def __init__(self, n, nodes, threads, variant):
        vals = {0: np.modf(np.sqrt(np.arange(2, 2 + n * nodes) * 5.0))[0] + 0.1,
                1: np.arange(n * nodes, 0, -1) * 1.0,
                2: np.arange(1, n * nodes + 1) * 1.0}[variant]
        self.map = vals.reshape(nodes, n).copy()
        self.threads = threads
        self.base = None

    def run(self):
        grid = self.map.reshape(-1, 1, 1, self.map.shape[1])
        return tuple(np.asarray(x) for x in _core.find_max_coa(grid, self.threads))

    def check(self, res, ctx, label):
        a, b, i = res
        if self.base is None:
            self.base = tuple(x.copy() for x in res)
        m = self.map
        good = (np.array_equal(a, m.max(0)) and refs.close(b, m.max(0) * len(m) / m.sum(0))
                and np.array_equal(i, m.argmax(0)))
        ctx.check(good, "schedule-dependent-peak",
                  lambda: f"{label}: {a.tolist()} {b.tolist()} {i.tolist()} for {m.tolist()}")
        ctx.check(all(x.tobytes() == y.tobytes() for x, y in zip(res, self.base)),
                  "schedule-dependent-peak", lambda: label)


def migrate_cases(tier):
    top = 5 if tier == "quick" else 8
    for threads in range(1, top):
        for nodes in range(1, 2 * threads + 3):
            for k, n, first, last in ((1, 1, 0, 0), (2, 2, 0, 1), (1, 3, 1, 1), (3, 1, 1, 2)):
                yield [k, n, nodes, first, last, threads]


def run_migrate(case, ctx):
    k, n, nodes, first, last, threads = case
    prob = Migrate(k, n, nodes, first, last, threads)
    Engine(ctx, prob, f"migrate{case}", BOUND[_tier]).explore(threads)
    ctx.sample(region="migrate", onsets=k, samples=n, nodes=nodes, threads=threads)


def max_cases(tier):
    top = 5 if tier == "quick" else 8
    for threads in range(1, top):
        for n in range(1, 2 * threads + 3):
            for nodes in (1, 2, 3):
                for variant in range(3):
                    yield [n, nodes, threads, variant]


def run_max(case, ctx):
    n, nodes, threads, variant = case
    Engine(ctx, MaxCoa(n, nodes, threads, variant), f"find_max_coa{case}",
           BOUND[_tier]).explore(threads)


def api_cases(tier):
    for k in (1, 4, 9):
        for shape in ((1, 1, 1), (3, 1, 1), (2, 3, 5), (7, 5, 3), (11, 1, 13)):
            for n in (1, 2, 3, 16, 129):
                yield [k, list(shape), n]


def run_api(case, ctx):
    """The same through the public functions, real threads: bitwise equal to one."""
    from quakemigrate.core.lib import find_max_coa, migrate

    k, shape, n = case
    last = 11
    t = n + 4 + last
    onsets = 0.02 + np.modf(np.sqrt(np.arange(2, 2 + k * t) * 7.0))[0].reshape(k, t) * 5
    nodes = int(np.prod(shape))
    grid = ((np.arange(nodes * k) * 2654435761) % (last + 1)).astype(np.int32)
    grid = grid.reshape(*shape, k)
    base = migrate(onsets, grid, 4, last, k, 1)
    pk = find_max_coa(base, 1)
    for threads in (2, 3, 4, 6, 8, 12, 32):
        m = migrate(onsets, grid, 4, last, k, threads)
        q = find_max_coa(base.copy(), threads)
        ctx.count(("api", k, tuple(shape), n, threads))
        ctx.add(traces_validated_against_impl=1)
        ctx.check(np.asarray(m).tobytes() == np.asarray(base).tobytes(),
                  "threads-change-migration", f"{case} threads {threads}")
        ctx.check(all(np.asarray(a).tobytes() == np.asarray(b).tobytes() for a, b in zip(pk, q)),
                  "threads-change-peak", f"{case} threads {threads}")


def groups():
    return [Group("migrate", migrate_cases, run_migrate),
            Group("find_max_coa", max_cases, run_max),
            Group("api", api_cases, run_api)]
