import itertools

import numpy as np

from qmmc import world
from qmmc.core import Group

LEVEL = "exploration"
RULE = ("one evaluation = one node (or one offset point) of one grid put through the conversions; "
        "every node of every grid shape up to the bound, under every spacing and projection; "
        "distinct by grid and node. Positions are compared with arithmetic on the corner and with "
        "pyproj used directly.")
ASSUMPTIONS = ["pyproj is trusted"]

SPACINGS = [(1.0, 1.0, 1.0), (0.5, 1.5, 0.2), (2.0, 0.25, 3.0)]
KINDS = ["lcc_km", "lcc_m", "utm_km", "utm_m", "tmerc_km"]


def cases(tier):
    n = 5 if tier == "quick" else 7
    for kind in KINDS:
        for sp in SPACINGS:
            for shape in itertools.product(range(1, n + 1), repeat=3):
                yield [kind, sp, shape]


def run(case, ctx):
    from pyproj import Transformer

    from quakemigrate.lut import LUT

    kind, sp, shape = case
    gproj, cproj = world.projections(kind)
    unit = 1000.0 if kind.endswith("_m") else 1.0
    sp = np.array(sp) * unit
    shape = np.array(shape)
    to = Transformer.from_proj(cproj, gproj)
    back = Transformer.from_proj(gproj, cproj)
    lon, lat = world.ORIGIN[kind]
    ll = np.array([*to.transform(lon, lat), -0.5 * unit])
    for inset in (0.25, 0.9):
        # the smallest grid of that spacing that covers the far corner
        ur = ll + (shape - 1) * sp - np.where(shape > 1, inset * sp, 0.0)
        lut = LUT(ll_corner=back.transform(*ll), ur_corner=back.transform(*ur),
                  node_spacing=sp, grid_proj=gproj, coord_proj=cproj)
        # a corner that coincides with the lower one may round to either side
        if any(shape == 1):
            ok = all(lut.node_count[k] == shape[k] or (shape[k] == 1 and lut.node_count[k] <= 2)
                     for k in range(3))
            ctx.check(ok, "node-count", lambda: f"{case}: {lut.node_count}")
            lut.node_count = shape
        ctx.check(list(lut.node_count) == list(shape), "node-count",
                  lambda: f"{case} inset {inset}: {lut.node_count}")
    tol = 1e-6 * unit
    label = str(case)
    nodes = np.array(list(itertools.product(*[range(n) for n in shape])))   # C order
    want_xyz = ll + nodes * sp
    want_ll = np.column_stack(back.transform(*want_xyz.T))
    many = np.asarray(lut.index2grid(nodes))
    ctx.check(many.shape == want_xyz.shape and np.allclose(many, want_xyz, atol=tol, rtol=0),
              "index2grid", lambda: f"{label}: {many.tolist()}")
    coords = np.asarray(lut.index2coord(nodes))
    ctx.check(coords.shape == want_ll.shape and np.allclose(coords[:, :2], want_ll[:, :2], atol=1e-9)
              and np.allclose(coords[:, 2], want_ll[:, 2], atol=tol), "index2coord", label)
    flat = np.arange(len(nodes))
    ctx.check(np.allclose(lut.index2grid(flat, unravel=True), want_xyz, atol=tol, rtol=0),
              "flat-index", label)
    ctx.check(np.allclose(lut.index2coord(flat, unravel=True), coords, atol=1e-9), "flat-index", label)
    ctx.check(np.array_equal(lut.index2coord(coords, inverse=True), nodes), "round-trip", label)
    ctx.check(np.array_equal(lut.index2grid(want_xyz, inverse=True), nodes), "round-trip", label)
    # C-order storage of tables
    xyz = [np.asarray(g) for g in lut.grid_xyz]
    ctx.check(all(g.shape == tuple(shape) for g in xyz)
              and np.allclose(np.stack([g.ravel() for g in xyz], 1), want_xyz, atol=tol, rtol=0),
              "grid_xyz", label)
    corners = np.asarray(lut.grid_corners)
    cn = np.array(list(itertools.product(*[(0, n - 1) for n in shape])))
    ctx.check(corners.shape == (8, 3) and np.allclose(corners, ll + cn * sp, atol=tol, rtol=0),
              "grid_corners", lambda: f"{label}: {corners.tolist()}")
    for cells in (False, True):
        ext = np.asarray(lut.get_grid_extent(cells=cells))
        h = sp / 2 if cells else 0.0
        we = np.column_stack(back.transform(*np.array([ll - h, ll + (shape - 1) * sp + h]).T))
        ctx.check(np.allclose(ext[:, :2], we[:, :2], atol=1e-9)
                  and np.allclose(ext[:, 2], we[:, 2], atol=tol), f"grid-extent-cells-{cells}",
                  lambda: f"{label}: {ext.tolist()} != {we.tolist()}")
    ctx.check(np.allclose(lut.grid_extent, lut.get_grid_extent()), "grid-extent", label)
    # one point at a time
    for k, ijk in enumerate(nodes):
        ctx.count((str(case), k))
        one = np.asarray(lut.index2grid(ijk))
        ctx.check(one.shape == (1, 3) and np.allclose(one[0], want_xyz[k], atol=tol, rtol=0),
                  "single-node", lambda: f"{label}: {ijk} -> {one.tolist()}")
        c = np.asarray(lut.index2coord(ijk))
        ctx.check(c.shape == (1, 3) and np.allclose(c[0], coords[k], atol=1e-9), "single-node", label)
        c = np.asarray(lut.index2coord(k, unravel=True))
        ctx.check(c.shape == (1, 3) and np.allclose(c[0], coords[k], atol=1e-9), "single-flat", label)
        i = np.asarray(lut.index2coord(coords[k], inverse=True))
        ctx.check(i.shape == (1, 3) and np.array_equal(i[0], ijk), "single-round-trip",
                  lambda: f"{label}: {ijk} -> {i.tolist()}")
        g = np.asarray(lut.coord2grid(coords[k]))
        ctx.check(g.shape == (1, 3) and np.allclose(g[0], want_xyz[k], atol=1e-4 * unit), "coord2grid", label)
    # points off the nodes, inside and outside the grid: the nearest node or an index
    # that is visibly outside, never another node of the grid
    for off in itertools.product((-0.4999, 0.0, 0.4999), repeat=3):
        pts = want_xyz + np.array(off) * sp
        got = np.asarray(lut.index2grid(pts, inverse=True))
        ctx.check(np.array_equal(got, nodes), "nearest-node", lambda: f"{label}: offset {off}")
    for axis in range(3):
        for s in (-1, 1):
            for d in (1, 2.3):
                edge = nodes[nodes[:, axis] == (0 if s < 0 else shape[axis] - 1)]
                pts = ll + edge * sp
                pts[:, axis] += s * d * sp[axis]
                got = np.asarray(lut.index2grid(pts, inverse=True))
                ctx.check(bool(np.all((got[:, axis] < 0) | (got[:, axis] >= shape[axis]))),
                          "outside-point", lambda: f"{label}: {pts[0]} -> {got[0]}")
    bad = int(np.prod(shape))
    for f in (bad, bad + 3):
        try:
            got = lut.index2coord(f, unravel=True)
        except ValueError:
            continue
        ctx.fail("outside-flat-index", f"{label}: flat index {f} -> {got}")
    ctx.add(grids=1)
    text = str(lut)
    ctx.check(f"{coords[0][1]:.5f}\u00b0N" in text and f"{coords[0][0]:.5f}\u00b0E" in text,
              "summary", lambda: f"{label}: {text[:400]}")
    # stations in grid space
    st = lut.station_data = world.station_table(["A", "B"], kind)
    want = np.column_stack(to.transform(st["Longitude"].values, st["Latitude"].values,
                                        st["Elevation"].values))
    ctx.check(np.allclose(lut.stations_xyz, want, atol=tol), "stations_xyz", label)
    ctx.check(lut.unit_name == ("m" if unit == 1000.0 else "km")
              and lut.unit_conversion_factor == (1.0 if unit == 1000.0 else 1000.0), "units", label)
    # printing precision resolves one node step and no finer than a tenth of it
    if min(shape) > 0:
        for p, step in zip(lut.precision, np.abs(np.ptp(lut.index2coord([[0, 0, 0], [1, 1, 1]]), axis=0))):
            ctx.check(10.0 ** -p <= step * (1 + 1e-9) and 10.0 ** -p > step / 10 * (1 - 1e-9),
                      "precision", lambda: f"{label}: {p} for step {step}")


def groups():
    return [Group("grids", cases, run)]
