import contextlib
import itertools
import os
import pathlib
import struct

import numpy as np
import pandas as pd

from qmmc import world
from qmmc.core import Group

LEVEL = "exploration"
RULE = ("one evaluation = one lookup table built by compute_traveltimes / read_nlloc from one "
        "combination of grid, projection, station position, velocity model and method; the value "
        "at every node, station and phase is compared with an independent calculation "
        "(straight-line time; analytic time in a constant gradient; the stored values). The "
        "NonLinLoc programs are replaced by stand-ins that read the control file the code wrote "
        "and write a 2-D grid in the NonLinLoc format from an analytic function. Non-trivial: a "
        "station off the grid origin, or more than one layer.")
ASSUMPTIONS = ["NonLinLoc itself is not installed: its Vel2Grid and Grid2Time are stand-ins "
               "(analytic times for constant-gradient models, or bilinear functions); the "
               "control file contract is the documented NonLinLoc one",
               "the fast-marching solver places the source on the nearest node (documented), so "
               "its times are compared within one node spacing over the lowest velocity"]

PY = "/opt/venv/bin/python"


# -- construction -------------------------------------------------------------------------


def spec(shape, spacing, kind, zmin):
    """grid_spec for compute_traveltimes, and the lower-left corner in grid coordinates."""
    from pyproj import Transformer

    gproj, cproj = world.projections(kind)
    lon, lat = world.ORIGIN[kind]
    gx, gy = Transformer.from_proj(cproj, gproj).transform(lon, lat)
    ll = np.array([gx, gy, zmin])
    n = np.array(shape)
    ur = ll + (n - 1) * np.array(spacing) - np.where(n > 1, 0.005, 0) * np.array(spacing)
    tr = Transformer.from_proj(gproj, cproj)
    return dict(ll_corner=tr.transform(*ll), ur_corner=tr.transform(*ur),
                node_spacing=list(spacing), grid_proj=gproj, coord_proj=cproj), ll


def stations(ll, kind, offsets):
    """Table of stations at the given offsets (grid units) from the lower-left corner; the
    Elevation column holds depth (positive down), as QuakeMigrate's reader leaves it."""
    from pyproj import Transformer

    gproj, cproj = world.projections(kind)
    tr = Transformer.from_proj(gproj, cproj)
    rows = [tr.transform(*(ll + np.array(o))) for o in offsets]
    return pd.DataFrame({"Latitude": [r[1] for r in rows], "Longitude": [r[0] for r in rows],
                         "Elevation": [r[2] for r in rows],
                         "Name": [f"S{i}" for i in range(len(rows))]})


def node_offsets(shape, spacing):
    """Position of every node relative to the lower-left corner."""
    return [g * s for g, s in zip(np.indices(shape).astype(float), spacing)]


def geometry(shape, spacing, off):
    dx, dy, dz = [g - o for g, o in zip(node_offsets(shape, spacing), off)]
    return np.hypot(dx, dy), dz


@contextlib.contextmanager
def inside(path):
    old = os.getcwd()
    os.chdir(path)
    try:
        yield
    finally:
        os.chdir(old)


def table(lut, name, phase, shape, ctx, label):
    ctx.check(name in lut.traveltimes and phase in lut.traveltimes[name], "table-missing",
              lambda: f"{label}: {name} {phase} not in the lookup table")
    t = lut.traveltimes[name][phase]
    ctx.check(tuple(lut.node_count) == tuple(shape), "node-count",
              lambda: f"{label}: {lut.node_count}")
    ctx.check(t.shape == tuple(shape), "table-shape", lambda: f"{label}: {t.shape}")
    ctx.check(not np.ma.is_masked(t) and bool(np.isfinite(t).all()) and bool((t >= 0).all()),
              "not-a-time", lambda: f"{label}: {name} {phase}: {t.ravel()[:8]}")
    return np.asarray(t)


UNIT = {"lcc_km": 1.0, "utm_m": 1000.0, "lcc_m": 1000.0, "utm_km": 1.0, "tmerc_km": 1.0}


# -- homogeneous --------------------------------------------------------------------------


def homo_cases(tier):
    n = (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5)
    kinds = ["lcc_km", "utm_m", "tmerc_km"] if tier == "quick" else list(UNIT)
    for shape in itertools.product(n, repeat=3):
        for kind in kinds:
            yield [list(shape), kind]


def run_homo(case, ctx):
    from quakemigrate.lut import compute_traveltimes

    shape, kind = tuple(case[0]), case[1]
    u = UNIT[kind]
    spacing = tuple(u * s for s in (1.0, 0.5, 0.25))
    for zmin, phases in ((-0.75 * u, ("P", "S")), (0.0, ("S",)), (2.0 * u, ("P", "S", "X"))):
        gs, ll = spec(shape, spacing, kind, zmin)
        # on nodes, between nodes, at edges, outside in every direction, above and below
        offs = [tuple(np.array(f) * spacing * (np.array(shape) - 1) + np.array(d) * u)
                for f, d in [((0, 0, 0), (0, 0, 0)), ((1, 1, 1), (0, 0, 0)),
                             ((0.5, 0, 0.5), (0, 0, 0)), ((0.3, 0.7, 0), (0, 0, 0)),
                             ((0, 1, 0), (-0.4, 0.3, -1.0)), ((1, 0, 1), (2.5, -1.5, 0.8))]]
        table_st = stations(ll, kind, offs)
        for vel in ({"P": 5.0, "S": 3.0, "X": 1.5}, {"P": 0.5, "S": 0.25, "X": 8.0}):
            kw = {f"v{p.lower()}": vel[p] * u for p in phases}
            lut = compute_traveltimes(gs, table_st, "homogeneous", phases=list(phases), **kw)
            label = f"homogeneous {kind} {shape} zmin={zmin} {kw}"
            ctx.count((case, zmin, phases, vel["P"]))
            ctx.check(list(lut.phases) == list(phases) and
                      sorted(lut.traveltimes) == sorted(table_st["Name"]), "stations-phases",
                      lambda: f"{label}: {lut.phases} {list(lut.traveltimes)}")
            for i, (name, off) in enumerate(zip(table_st["Name"], offs)):
                d, dz = geometry(shape, spacing, off)
                for p in phases:
                    ctx.check(sorted(lut.traveltimes[name]) == sorted(phases),
                              "extra-phases", label)
                    t = table(lut, name, p, shape, ctx, label)
                    want = np.hypot(d, dz) / (vel[p] * u)
                    ctx.check(np.allclose(t, want, rtol=1e-6, atol=1e-6), "homogeneous-time",
                              lambda: f"{label}: station {off}: {p}: "
                                      f"{t.ravel()[:6]} expected {want.ravel()[:6]}")
                    ctx.add(node_times_compared=t.size)
    ctx.sample(shape=shape, kind=kind)


# -- fast marching ------------------------------------------------------------------------

MODELS = [("const", [(0.0, 4.0)]), ("const2", [(-2.0, 4.0), (3.0, 4.0)]),
          ("gradient", [(-2.0, 3.0), (6.0, 5.0)]), ("gradient-down", [(-2.0, 5.0), (6.0, 3.0)]),
          ("layers", [(-2.0, 2.0), (0.0, 3.0), (0.5, 6.0), (6.0, 7.0)]),
          ("low", [(-2.0, 5.0), (0.0, 2.5), (2.0, 6.0)]),
          ("within", [(-0.25, 2.0), (0.5, 4.0)])]


def vmod(rows, u=1.0):
    return pd.DataFrame({"Depth": [u * r[0] for r in rows], "Vp": [u * r[1] for r in rows],
                         "Vs": [u * r[1] / 1.7 for r in rows]})


def vel_at(rows, z):
    zs, vs = zip(*rows)
    return np.interp(z, zs, vs)


def gradient_time(v1, v2, d, dz):
    """Direct-ray time between two points of a medium with constant velocity gradient."""
    v1, v2 = np.broadcast_arrays(v1, v2)
    g = np.where(np.abs(dz) > 1e-9, (v2 - v1) / np.where(np.abs(dz) > 1e-9, dz, 1), 0)
    return g, v1, v2


def analytic(g, v1, v2, dist):
    if abs(g) < 1e-12:
        return dist / v1
    return np.arccosh(1 + (g * dist) ** 2 / (2 * v1 * v2)) / abs(g)


def fmm_cases(tier):
    shapes = [(4, 4, 4), (6, 3, 5), (3, 6, 4), (2, 2, 2)]
    if tier == "thorough":
        shapes = list(itertools.product((2, 3, 5, 8), repeat=3))
    for shape in shapes:
        for sp in ((0.5, 0.5, 0.5), (0.5, 0.5, 0.25), (0.25, 0.5, 0.5)):
            for kind in ("lcc_km", "utm_m"):
                for m in range(len(MODELS)):
                    yield [list(shape), list(sp), kind, m]


def run_fmm(case, ctx):
    from quakemigrate.lut import compute_traveltimes

    shape, sp, kind, m = tuple(case[0]), np.array(case[1]), case[2], case[3]
    u = UNIT[kind]
    name_m, rows = MODELS[m]
    spacing = sp * u
    zmin = -0.5
    gs, ll = spec(shape, spacing, kind, zmin * u)
    # stations strictly within a hundredth of a node of every node of the two top depths
    nodes = [ijk for ijk in np.ndindex(*shape) if ijk[2] in (0, shape[2] - 2)]
    eps = np.array([0.01 if n > 1 else 0.0 for n in shape])
    off = [np.array(ijk) * sp + np.where(np.array(ijk) + 1 < shape, eps, -eps) * sp
           for ijk in nodes]
    table_st = stations(ll, kind, [o * u for o in off])
    phases = ["P", "S"]
    lut = compute_traveltimes(gs, table_st, "1dfmm", phases=phases, vmod=vmod(rows, u))
    label = f"1dfmm {kind} {shape} spacing {sp} {name_m}"
    ctx.count(case, nontrivial=len(rows) > 1)
    zs = zmin + np.arange(shape[2]) * sp[2]
    vz = vel_at(rows, zs)
    by_offset = {}
    for (i, j, k), name in zip(nodes, table_st["Name"]):
        d, dz = geometry(shape, sp, np.array((i, j, k)) * sp)
        dist = np.hypot(d, dz)
        for p in phases:
            f = 1.0 if p == "P" else 1 / 1.7
            t = table(lut, name, p, shape, ctx, label)
            tol = 1.1 * max(sp) / (f * vz.min()) + 0.05 * dist / (f * vz.min())
            # the time is that of some path: never below straight line at the top speed, and
            # never above the straight line through the layers
            steps = np.linspace(0, 1, 41)
            zline = (zmin + k * sp[2]) + steps[:, None] * dz.ravel()
            slow = np.trapezoid(1 / (f * vel_at(rows, zline)), steps, axis=0).reshape(shape)
            low, high = dist / (f * vz.max()) - tol, dist * slow + tol
            bad = (t < low) | (t > high)
            ctx.check(not bad.any(), "fmm-bounds",
                      lambda: f"{label}: {p} from {(i, j, k)}: at {np.argwhere(bad)[:3].tolist()} "
                              f"{t[bad][:3]} not in {low[bad][:3]}..{high[bad][:3]}")
            if name_m.startswith(("const", "gradient")):
                g = f * (rows[-1][1] - rows[0][1]) / max(rows[-1][0] - rows[0][0], 1e-9)
                want = analytic(g, f * vz[k], np.broadcast_to(f * vz, shape), dist)
                err = np.abs(t - want)
                ctx.check(bool((err <= tol).all()), "fmm-analytic",
                          lambda: f"{label}: {p} from {(i, j, k)}: {t.ravel()[:6]} "
                                  f"expected {want.ravel()[:6]}")
            for x, y, z in np.ndindex(*shape):
                key = (p, k, abs(x - i), abs(y - j), z)
                was = by_offset.setdefault(key, t[x, y, z])
                ctx.check(abs(was - t[x, y, z]) <= 0.25 * tol.min(), "depends-on-position",
                          lambda: f"{label}: {p}: offset {key[2:4]} nodes, station depth node "
                                  f"{k}, node depth {z}: {was} from one station, "
                                  f"{t[x, y, z]} from {(i, j, k)}")
            ctx.add(node_times_compared=t.size)
        # the phases see the same structure, scaled
        tp, ts = lut.traveltimes[name]["P"], lut.traveltimes[name]["S"]
        ctx.check(np.allclose(ts, 1.7 * np.asarray(tp), rtol=1e-6), "phase-scaling",
                  lambda: f"{label}: {(i, j, k)}")
    # slower: each layer in turn at two thirds of its speed
    for r in range(len(rows)):
        slow_rows = [(z, v / 1.5 if q == r else v) for q, (z, v) in enumerate(rows)]
        lut2 = compute_traveltimes(gs, table_st, "1dfmm", phases=["P"], vmod=vmod(slow_rows, u))
        some = False
        for name in table_st["Name"]:
            a = np.asarray(lut.traveltimes[name]["P"])
            b = np.asarray(lut2.traveltimes[name]["P"])
            ctx.check(bool((b >= a - 1e-6 - 0.01 * a).all()), "slower-is-earlier",
                      lambda: f"{label}: layer {r} slowed: {a.ravel()[:5]} -> {b.ravel()[:5]}")
            some |= bool((b > a + 1e-6).any())
        touched = not np.allclose(vel_at(slow_rows, zs), vz)
        ctx.check(some or not touched, "slower-not-later", f"{label}: layer {r}")
    ctx.sample(shape=shape, model=name_m)


def outside_cases(tier):
    for axis in range(3):
        for side in (0, 1):
            for kind in ("lcc_km", "utm_m"):
                yield [axis, side, kind]


def run_outside(case, ctx):
    """A station outside the grid is refused by the fast-marching method."""
    from quakemigrate.lut import compute_traveltimes

    axis, side, kind = case
    u = UNIT[kind]
    shape, sp = (4, 4, 4), np.array((0.5, 0.5, 0.5))
    gs, ll = spec(shape, sp * u, kind, -0.5 * u)
    good = np.array((0.6, 0.7, 0.8))
    bad = good.copy()
    bad[axis] = -0.3 if side == 0 else 1.9
    for order in (0, 1):
        st = stations(ll, kind, [o * u for o in ((good, bad) if order == 0 else (bad, good))])
        ctx.count((case, order))
        try:
            compute_traveltimes(gs, st, "1dfmm", phases=["P"], vmod=vmod(MODELS[2][1], u))
        except ValueError:
            continue
        ctx.fail("outside-accepted", f"station outside the grid along axis {axis}, side {side}")


# -- NonLinLoc 1-D ------------------------------------------------------------------------

GRID2TIME = '''#!{py} -S
import math, struct, sys
c = [l.split() for l in open(sys.argv[1])]
def get(k): return [l[1:] for l in c if l and l[0] == k]
grid = get("VGGRID")[0]; layers = [[float(x) for x in l[:7]] for l in get("LAYER")]
gt = get("GTFILES")[0]; src = get("GTSRCE")[0]; phase = get("VGTYPE")[0][0]
nx, ny, nz = map(int, grid[:3]); x0, y0, z0, dx, dy, dz = map(float, grid[3:9])
assert grid[9] == "SLOW_LEN" and gt[2] == phase and src[1] == "XYZ"
assert get("GTMODE")[0] == ["GRID2D", "ANGLES_NO"] and get("TRANS")[0] == ["NONE"]
open(gt[0] + "." + phase + ".mod.buf").read()
sz = float(src[4]) - float(src[5])
assert z0 - 1e-5 <= sz <= z0 + (nz - 1) * dz, "station outside the section"
def vel(z):
    v = None
    for top, vp, gp, vs, gs, rho, gr in layers:
        if v is None or z >= top: v = (vp + gp * (z - top)) if phase == "P" else (vs + gs * (z - top))
    return v
mode = open(sys.argv[0] + ".mode").read()
assert ny * nz < 200000, "unreasonably large section"
def time(y, z):
    d = math.hypot(y, z - sz); v1, v2 = vel(sz), vel(z)
    if mode == "bilinear":
        return 1 + 3 * y + 20 * (z + 2) + 0.5 * y * (z + 2) + 1000 * (sz + 9)
    if mode == "layers":
        return y + 10 * v2 + 100 * v1
    g = layers[0][2] if phase == "P" else layers[0][4]
    return d / v1 if abs(g) < 1e-12 else math.acosh(1 + (g * d) ** 2 / (2 * v1 * v2)) / abs(g)
name = gt[1] + "." + phase + "." + src[0] + ".time"
open(name + ".hdr", "w").write(
    "1 %d %d  0.000000 %f %f  %f %f %f TIME2D FLOAT\\n%s %s %s %s\\nTRANSFORM  NONE\\n"
    % (ny, nz, y0, z0, dx, dy, dz, src[0], src[2], src[3], src[4]))
out = [time(y0 + j * dy, z0 + k * dz) for j in range(ny) for k in range(nz)]
open(name + ".buf", "wb").write(struct.pack("%df" % len(out), *out))
print("Grid2Time finished" if not {fail} else "ERROR: failed")
'''
VEL2GRID = '''#!/bin/sh
test -f "$1" || exit 3
m=$(sed -n 's/^VGOUT //p' "$1"); p=$(sed -n 's/^VGTYPE //p' "$1")
echo x > "$m.$p.mod.buf"; echo x > "$m.$p.mod.hdr"
'''


def programs(d, mode, fail=False):
    d.mkdir()
    (d / "Vel2Grid").write_text(VEL2GRID)
    (d / "Grid2Time").write_text(GRID2TIME.replace("{py}", PY).replace("{fail}", str(fail)))
    (d / "Grid2Time.mode").write_text(mode)
    for n in ("Vel2Grid", "Grid2Time"):
        (d / n).chmod(0o755)
    return d


def nlloc_cases(tier):
    # top of the grid (km), grid spacing of the 2-D section, station offsets (km)
    tops = (-0.5, 0.0, -0.25, 0.125, 2.0, -1.2345678, 0.3333333)
    dxs = (0.1, 0.25, 0.5) if tier == "quick" else (0.05, 0.1, 0.2, 0.25, 0.5, 1.0)
    sts = [(0, 0, 0), (1.0, 0.5, -0.2), (0.35, -1.15, -0.75), (3.0, 4.0, 6.5),
           (0.5, 0.0, 0.25)]
    kinds = ("lcc_km", "utm_m") if tier == "quick" else ("lcc_km", "utm_m", "tmerc_km", "lcc_m")
    for kind in kinds:
        for top in tops:
            for dx in dxs:
                for s in range(len(sts)):
                    yield [kind, top, dx, list(sts[s])]


def run_nlloc(case, ctx):
    from quakemigrate.lut import compute_traveltimes

    kind, top, dx, st = case
    u = UNIT[kind]
    tmp = ctx.tmp()
    shape, sp = (3, 4, 3), np.array((0.5, 1.0, 0.25))
    gs, ll = spec(shape, sp * u, kind, top * u)
    offs = [np.array(st), np.array((0.0, 0.0, 0.5))]
    table_st = stations(ll, kind, [o * u for o in offs])
    for mode, rows, block in (("bilinear", [(-2.0, 4.0)], False),
                              ("gradient", [(-3.0, 3.0), (9.0, 6.0)], False),
                              ("gradient", [(-3.0, 3.0), (9.0, 3.0)], False),
                              ("gradient", [(-3.0, 4.0)], True),
                              ("layers", [(top - 2.5, 3.0), (top, 3.5), (top + 0.5, 6.0),
                                          (top + 1.5, 5.0)], False),
                              ("layers", [(top - 2.5, 3.0), (top - 0.1875, 3.5),
                                          (top + 0.375, 6.0)], True)):
        work = ctx.tmp()
        bins = programs(work / "bin", mode)
        label = f"1dnlloc {kind} top={top} dx={dx} station={st} {mode} {rows}"
        phases = ["P", "S"] if mode != "bilinear" else ["S"]
        ctx.count((case, mode, len(rows), block))
        with inside(work):
            lut = compute_traveltimes(gs, table_st, "1dnlloc", phases=phases,
                                      vmod=vmod(rows, u), nlloc_dx=dx, nlloc_path=str(bins),
                                      block_model=block)
        ctx.check(sorted(p.name for p in work.iterdir()) == ["bin"], "left-behind",
                  lambda: f"{label}: {sorted(p.name for p in work.rglob('*'))}")
        for name, off in zip(table_st["Name"], offs):
            d, dz = geometry(shape, sp, off)
            z = top + np.indices(shape)[2] * sp[2]
            sz = top + off[2]
            for p in phases:
                t = table(lut, name, p, shape, ctx, label)
                if mode == "bilinear":
                    want = 1 + 3 * d + 20 * (z + 2) + 0.5 * d * (z + 2) + 1000 * (sz + 9)
                    tol = 2e-3
                elif mode == "layers":
                    f = 1.0 if p == "P" else 1 / 1.7

                    def v(x):
                        if not block:
                            return f * vel_at(rows, x)
                        return f * np.array([[r[1] for r in rows if y >= r[0]][-1]
                                             for y in np.ravel(x)]).reshape(np.shape(x))

                    want = d + 10 * v(z) + 100 * v(sz)
                    tol = 3e-3
                    # the section is interpolated across a kink or jump in velocity
                    if block or abs((sz - top) / dx % 1 - 0.5) < 0.499:
                        for r in rows:
                            tol = tol + 1000 * (np.abs(z - r[0]) <= dx)
                else:
                    f = 1.0 if p == "P" else 1 / 1.7
                    g = f * (rows[-1][1] - rows[0][1]) / max(rows[-1][0] - rows[0][0], 1e-9)
                    v = f * (vel_at(rows, z) if not block else rows[0][1] + 0 * z)
                    v1 = f * (vel_at(rows, sz) if not block else rows[0][1])
                    want = analytic(g, v1, v, np.hypot(d, dz))
                    # bilinear interpolation of a cone: worst beside the station
                    r = np.hypot(d, dz)
                    tol = (dx / v.min()) * np.minimum(0.75, 0.3 * dx / np.maximum(r, 1e-9)) + 1e-4
                ctx.check(bool((np.abs(t - want) <= tol).all()), "nlloc-" + mode,
                          lambda: f"{label}: {p} station {off}: {t.ravel()[:9]} expected "
                                  f"{want.ravel()[:9]}")
                ctx.add(node_times_compared=t.size)
    ctx.sample(kind=kind, top=top, dx=dx, station=st)


def tidy_cases(tier):
    for retain in (False, True):
        for pre in itertools.chain.from_iterable(
                itertools.combinations(("time", "model", "time/other.buf", "model/mine.txt",
                                        "notes.txt"), n) for n in range(6)):
            yield [retain, list(pre)]


def run_tidy(case, ctx):
    """Only the solver's own working files are tidied up; the user's are left alone."""
    from quakemigrate.lut import compute_traveltimes

    retain, pre = case
    work = ctx.tmp()
    bins = programs(work / "bin", "gradient")
    run = work / "run"
    run.mkdir()
    for p in pre:
        f = run / p
        f.parent.mkdir(exist_ok=True)
        f.write_text("mine " + p) if "." in p else f.mkdir(exist_ok=True)
    gs, ll = spec((2, 2, 2), (1.0, 1.0, 1.0), "lcc_km", 0.0)
    with inside(run):
        compute_traveltimes(gs, stations(ll, "lcc_km", [(0, 0, 0), (1.0, 0.5, 0.3)]), "1dnlloc",
                            phases=["P", "S"], vmod=vmod([(0.0, 4.0)]), nlloc_dx=0.5,
                            nlloc_path=str(bins), retain_nll_grids=retain)
    ctx.count(case, nontrivial=bool(pre))
    for p in pre:
        if "." in p:
            ctx.check((run / p).exists() and (run / p).read_text() == "mine " + p,
                      "user-file-lost", lambda: f"{p} retain={retain} with {pre}")
    left = sorted(str(p.relative_to(run)) for p in run.rglob("*") if p.is_file())
    own = [p for p in left if p not in pre]
    if retain:
        ctx.check(all(f"time/layer.{p}.{s}.time.{e}" in own for p in "PS" for s in ("S0", "S1")
                      for e in ("hdr", "buf")), "grids-not-retained", lambda: f"{own}")
    else:
        ctx.check(not own, "left-behind", lambda: f"{own}")


def refuse_cases(tier):
    for what in ("no-program", "failing", "no-vmod-fmm", "no-vmod-nlloc", "no-velocity",
                 "method", "3dfmm", "no-column-fmm", "no-column-nlloc"):
        yield [what]


def run_refuse(case, ctx):
    from quakemigrate import util
    from quakemigrate.lut import compute_traveltimes

    what = case[0]
    work = ctx.tmp()
    bins = programs(work / "bin", "gradient", fail=what == "failing")
    if what == "no-program":
        (bins / "Grid2Time").unlink()
    gs, ll = spec((3, 3, 3), (1.0, 1.0, 1.0), "lcc_km", 0.0)
    st = stations(ll, "lcc_km", [(0.5, 0.5, 0.5)])
    vm = vmod([(0.0, 4.0), (5.0, 5.0)])
    args = {
        "no-program": (FileNotFoundError, "1dnlloc", dict(vmod=vm, nlloc_path=str(bins))),
        "failing": (Exception, "1dnlloc", dict(vmod=vm, nlloc_path=str(bins))),
        "no-vmod-fmm": (TypeError, "1dfmm", {}),
        "no-vmod-nlloc": (TypeError, "1dnlloc", dict(nlloc_path=str(bins))),
        "no-velocity": (TypeError, "homogeneous", dict(vp=4.0)),
        "method": (ValueError, "2dfmm", dict(vmod=vm, vp=4.0, vs=2.0)),
        "3dfmm": (NotImplementedError, "3dfmm", dict(vmod=vm)),
        "no-column-fmm": (util.InvalidVelocityModelHeader, "1dfmm",
                          dict(vmod=vm[["Depth", "Vp"]])),
        "no-column-nlloc": (util.InvalidVelocityModelHeader, "1dnlloc",
                            dict(vmod=vm[["Depth", "Vp"]], nlloc_path=str(bins))),
    }[what]
    save = work / "table.LUT"
    ctx.count(case)
    with inside(work):
        try:
            compute_traveltimes(gs, st, args[1], phases=["P", "S"], save_file=str(save),
                                **args[2])
        except args[0]:
            ctx.check(not save.exists(), "saved-anyway", what)
            return
        except Exception as e:
            ctx.fail("wrong-error", f"{what}: {e!r}")
    ctx.fail("accepted", what)


# -- reading NonLinLoc grids --------------------------------------------------------------

# equatorial radius and reciprocal flattening of NonLinLoc's ellipsoids (unknown: WGS-84)
ELLIPSOIDS = {"WGS-84": (6378137.0, 298.257223563), "GRS-80": (6378137.0, 298.257222101),
              "WGS-72": (6378135.0, 298.26), "Australian": (6378160.0, 298.25),
              "Krasovsky": (6378245.0, 298.3), "International": (6378388.0, 297.0),
              "Hayford-1909": (6378388.0, 297.0), "Clarke-1880": (6378249.145, 293.465),
              "Clarke-1866": (6378206.4, 294.9786982), "Airy": (6377563.396, 299.3249646),
              "Bessel": (6377397.155, 299.1528128), "Hayford-1830": (6377276.345, 300.8017),
              "Sphere": (6371008.7714, None), "Unheard-of": (6378137.0, 298.257223563)}


def projection(kind, lat, lon, ell):
    """The projection a header describes, from the ellipsoid's own numbers."""
    from pyproj import Proj

    a, rf = ELLIPSOIDS[ell]
    shape = {"R": a} if rf is None else {"a": a, "rf": rf}
    if kind == "LAMBERT":
        return Proj(proj="lcc", lat_0=lat, lon_0=lon, lat_1=lat - 0.5, lat_2=lat + 0.75,
                    units="km", **shape)
    if kind == "TRANS_MERC":
        return Proj(proj="tmerc", lat_0=lat, lon_0=lon, units="km", **shape)
    return None


def write_nlloc(path, station, phase, n, origin, spacing, transform, values):
    path.mkdir(exist_ok=True)
    f = path / f"layer.{phase}.{station}.time"
    f.with_name(f.name + ".hdr").write_text(
        "{} {} {}  {:f} {:f} {:f}  {:f} {:f} {:f} TIME FLOAT\n".format(*n, *origin, *spacing)
        + f"{station} 1.000000 2.000000 0.000000\n{transform}\n")
    f.with_name(f.name + ".buf").write_bytes(struct.pack(f"{values.size}f", *values.ravel()))


def transform_line(kind, lat, lon, ell="WGS-84", rot=0.0):
    return {
        "SIMPLE": f"TRANSFORM  SIMPLE LatOrig {lat:f}  LongOrig {lon:f}  RotCW {rot:f}",
        "LAMBERT": f"TRANSFORM  LAMBERT RefEllipsoid {ell}  LatOrig {lat:f}  LongOrig {lon:f}  "
                   f"FirstStdParal {lat - 0.5:f}  SecondStdParal {lat + 0.75:f}  RotCW {rot:f}",
        "TRANS_MERC": f"TRANSFORM  TRANS_MERC RefEllipsoid {ell}  LatOrig {lat:f}  "
                      f"LongOrig {lon:f}  RotCW {rot:f}  UseFalseEasting 0  "
                      "FalseEasting 500000  ScaleFactor 1.000000",
        "NONE": "TRANSFORM  NONE",
        "SDC": f"TRANSFORM  SDC LatOrig {lat:f}  LongOrig {lon:f}  RotCW {rot:f}",
    }[kind]


def read_cases(tier):
    lats = (64.5, 0.0, -41.25) if tier == "quick" else (64.5, 0.0, -41.25, 78.0, 6.0, -20.0)
    shapes = [(1, 1, 1), (2, 3, 4), (5, 4, 3), (3, 1, 2), (1, 3, 2), (2, 2, 1), (3, 2, 1), (2, 5, 1), (11, 7, 3)]
    for kind in ("SIMPLE", "LAMBERT", "TRANS_MERC"):
        for lat in lats:
            for lon in (-20.0, 116.5):
                for s in shapes:
                    for sp in ((1.0, 1.0, 1.0), (0.5, 0.25, 0.1), (2.0, 0.3, 0.7)):
                        yield [kind, lat, lon, list(s), list(sp), "WGS-84"]
    for ell in ELLIPSOIDS:
        for kind in ("LAMBERT", "TRANS_MERC"):
            for lat in (40.0, -33.0):
                yield [kind, lat, 10.0, [3, 2, 2], [1.0, 1.0, 1.0], ell]
                yield [kind, lat, 10.0, [3, 2, 2], [150.0, 200.0, 1.0], ell]


def run_read(case, ctx):
    from pyproj import Geod

    from quakemigrate.lut import read_nlloc

    kind, lat, lon, n, sp, ell = case
    n, sp = tuple(n), np.array(sp)
    geod = Geod(ellps="WGS84")
    proj = projection(kind, lat, lon, ell)
    for origin in ((0.0, 0.0, 0.0), (-7.5, 12.25, -1.5), (-3.3, -0.7, 2.1)):
        tmp = ctx.tmp()
        names, phases = ["AA", "BB1"], ["P", "S"]
        stored = {}
        for s, p in itertools.product(names, phases):
            v = np.arange(np.prod(n), dtype=float).reshape(n)
            v = (v * 0.37 + 11.1 * names.index(s) + 0.05 * phases.index(p)).astype(np.float32)
            stored[s, p] = v
            write_nlloc(tmp / "g", s, p, n, origin, sp, transform_line(kind, lat, lon, ell), v)
        st = pd.DataFrame({"Latitude": [lat, lat + .01], "Longitude": [lon, lon + .01],
                           "Elevation": [0.0, -0.1], "Name": names})
        label = f"{kind} {lat},{lon} {n} spacing {sp} origin {origin} {ell}"
        ctx.count((case, origin))
        lut = read_nlloc(str(tmp / "g"), st, phases=phases)
        ctx.check(tuple(lut.node_count) == n, "read-node-count",
                  lambda: f"{label}: the table has {lut.node_count} nodes, the file {n}")
        ctx.check(np.allclose(lut.node_spacing, sp), "read-spacing", label)
        for (s, p), v in stored.items():
            t = table(lut, s, p, n, ctx, label)
            ctx.check(np.array_equal(t.astype(np.float32), v), "stored-values",
                      lambda: f"{label}: {s} {p}: {t.ravel()[:5]} stored {v.ravel()[:5]}")
            ctx.add(node_times_compared=t.size)
        # positions: east and north of the header's origin, in km
        last = np.array(n) - 1
        for ijk in itertools.product(*[sorted({0, int(m)}) for m in last]):
            x, y, z = np.array(origin) + np.array(ijk) * sp
            glon, glat, gz = lut.index2coord([ijk])[0]
            ctx.check(abs(gz - z) < 1e-6, "read-depth", lambda: f"{label}: {ijk}: {gz} for {z}")
            if proj is not None:
                wlon, wlat = proj(x, y, inverse=True)
                off = geod.inv(wlon, wlat, glon, glat)[2]
                ctx.check(off < 0.5 + 1e-5 * 1000 * np.hypot(x, y), "read-position-exact",
                          lambda: f"{label}: node {ijk} is at {glon:.6f}, {glat:.6f}; by the "
                                  f"header at {wlon:.6f}, {wlat:.6f}, {off:.1f} m away")
                ctx.add(positions_compared=1)
            az, _, dist = geod.inv(lon, lat, glon, glat)
            e, nn = dist / 1000 * np.sin(np.radians(az)), dist / 1000 * np.cos(np.radians(az))
            tol = 0.02 + 0.01 * np.hypot(x, y)
            ctx.check(abs(e - x) < tol and abs(nn - y) < tol, "read-position",
                      lambda: f"{label}: node {ijk} is {x:.3f} km east, {y:.3f} km north of the "
                              f"origin in the file, {e:.3f}, {nn:.3f} in the table")
    ctx.sample(kind=kind, shape=n)


def unsupported_cases(tier):
    return [["NONE"], ["SDC"], ["SIMPLE-rotated"], ["LAMBERT-rotated"],
            ["TRANS_MERC-rotated"]]


def run_unsupported(case, ctx):
    """A transform the reader cannot place is refused, not placed wrongly."""
    from quakemigrate.lut import read_nlloc

    kind, rot = case[0].split("-")[0], 30.0 if "rotated" in case[0] else 0.0
    tmp = ctx.tmp()
    write_nlloc(tmp / "g", "AA", "P", (2, 2, 2), (0, 0, 0), (1, 1, 1),
                transform_line(kind, 40.0, 10.0, rot=rot), np.ones((2, 2, 2)))
    st = pd.DataFrame({"Latitude": [40.0], "Longitude": [10.0], "Elevation": [0.0],
                       "Name": ["AA"]})
    ctx.count(case)
    try:
        read_nlloc(str(tmp / "g"), st, phases=["P"])
    except NotImplementedError:
        return
    except Exception as e:
        ctx.fail("wrong-error:" + case[0], repr(e))
    ctx.fail("accepted:" + case[0], f"{case[0]}: positions ignore the header's transform")


def groups():
    return [Group("homogeneous", homo_cases, run_homo), Group("fmm", fmm_cases, run_fmm),
            Group("fmm-outside", outside_cases, run_outside),
            Group("nlloc", nlloc_cases, run_nlloc), Group("nlloc-tidy", tidy_cases, run_tidy),
            Group("refusals", refuse_cases, run_refuse), Group("read", read_cases, run_read),
            Group("read-unsupported", unsupported_cases, run_unsupported)]
