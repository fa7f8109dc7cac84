"""C25: cost distance, traceback and allocation against Dijkstra."""
import heapq
import os

import numpy as np
from hypothesis import strategies as st

from vt import gen
from vt.core import Prop, Reject, require

P = Prop(
    "C25",
    "case = (costs, sources, elevation, connectivity); non-trivial when a "
    "cell that is not a source is reached",
)

# every pair of types compiles anew: few per process in the quick tier
SHARD = int(os.environ.get("VT_SHARD", "0"))
QUICK = os.environ.get("VERIF_TIER", "quick") != "thorough"
DTS = ["float64", "int32", "uint8", "float32", "int64", "uint16", "int16",
       "float16", "int8", "uint32"]
EDTS = ["float64", "int16", "uint8", "float32", "int32", "uint16", "int8"]
if QUICK:
    DTS = [["float64"], ["uint8"], ["int32"], ["float64"], ["float32"],
           ["uint16"], ["int8"], ["int64"]][SHARD % 8]
    EDTS = [["float64"], ["int16"], ["uint8"], ["int32"], ["float64"],
            ["float64"], ["float32"], ["int8"]][SHARD % 8]
SDTS = ["int32", "int64", "uint8", "int16", "uint16"]


@st.composite
def cases(draw):
    a = draw(gen.rasters(dts=DTS, bands=1, ny=(1, 10), nx=(1, 10),
                         kinds=["small", "pos", "neg", "const", "two"],
                         dens=[0.1, 0.0, 0.3, 0.5, "row", "col", "center"]))
    shape = {"ny": a["ny"], "nx": a["nx"], "geo": a["geo"]}
    s = draw(gen.rasters(dts=SDTS, bands=1, kinds=["mid"], masked=True,
                         dens=[0.9, 0.95, 0.8, 0.5, 1.0]))
    e = draw(gen.rasters(dts=EDTS, bands=1, kinds=["small", "neg", "mid"],
                         dens=[0.1, 0.0, 0.3, "row"]))
    s.update(shape)
    e.update(shape)
    return {
        "a": a, "s": s,
        "e": e if draw(st.booleans()) else None,
        "idx": draw(st.lists(st.tuples(st.integers(0, a["ny"] - 1),
                                       st.integers(0, a["nx"] - 1)),
                             min_size=1, max_size=4, unique=True)),
        "src": draw(st.sampled_from(["raster", "raster", "list", "array"])),
        "conn": draw(st.sampled_from([4, 8])),
    }


MOVES = {1: (0, 1), 2: (1, 1), 3: (1, 0), 4: (1, -1), 5: (0, -1),
         6: (-1, -1), 7: (-1, 0), 8: (-1, 1)}


class Model:
    def __init__(self, cost, elev, res, conn):
        self.cost, self.elev = cost, elev
        self.rx, self.ry = res
        self.moves = [m for c, m in MOVES.items() if conn == 8 or c % 2]

    def ok(self, i, j):
        return self.cost[i, j] >= 0 and (
            self.elev is None or np.isfinite(self.elev[i, j]))

    def step(self, a, b):
        """Cost between neighbours."""
        d2 = ((a[0] - b[0]) * self.ry) ** 2 + ((a[1] - b[1]) * self.rx) ** 2
        if self.elev is not None:
            d2 += (self.elev[a] - self.elev[b]) ** 2
        return np.sqrt(d2) * (self.cost[a] + self.cost[b]) / 2

    def solve(self, sources):
        ny, nx = self.cost.shape
        dist = np.full((ny, nx), np.inf)
        heap = []
        for s in sources:
            dist[s] = 0
            heap.append((0.0, s))
        heapq.heapify(heap)
        while heap:
            d, u = heapq.heappop(heap)
            if d > dist[u] or not self.ok(*u):
                continue
            for m in self.moves:
                v = (u[0] + m[0], u[1] + m[1])
                if 0 <= v[0] < ny and 0 <= v[1] < nx and self.ok(*v):
                    nd = d + self.step(u, v)
                    if nd < dist[v]:
                        dist[v] = nd
                        heapq.heappush(heap, (nd, v))
        return dist


@P.check(cases(), quick=1200, weight=1)
def cost_distance(case, ctx):
    import raster_tools as rts

    cref = gen.build_ref(case["a"])
    c = gen.to_raster(cref)
    mask = cref.mask[0]
    cost = np.where(mask, np.nan, cref.data[0].astype("float64"))
    cost = np.where(cost < 0, np.nan, cost)
    elev = er = None
    if case["e"] is not None:
        eref = gen.build_ref(case["e"])
        er = gen.to_raster(eref)
        elev = np.where(eref.mask[0], np.nan, eref.data[0].astype("float64"))
    if case["src"] == "raster":
        sref = gen.build_ref(case["s"])
        src = gen.to_raster(sref)
        svals = {(int(i), int(j)): int(sref.data[0, i, j])
                 for i, j in np.argwhere(~sref.mask[0])}
        snv = int(sref.nv)
    else:
        src = [tuple(t) for t in case["idx"]]
        svals = {t: k for k, t in enumerate(src)}
        snv = -1
        if case["src"] == "array":
            src = np.array(src)
    m = Model(cost, elev, cref.res, case["conn"])
    dist = m.solve(list(svals))
    kw = {} if case["conn"] == 8 else {"connectivity": 4}
    cd, tr, al = rts.distance.cost_distance_analysis(c, src, er, **kw)
    gs = [gen.get(q, nm) for q, nm in ((cd, "cost"), (tr, "traceback"),
                                       (al, "allocation"))]
    nv = cref.nv if cref.masked else gen.default_null("float64")
    for g, nm, dt, v in zip(gs, ("cost", "traceback", "allocation"),
                            ("float64", "int8", "int64"), (nv, -1, snv)):
        require(g.shape == cref.shape, "%s: shape %s", nm, g.shape)
        require(g.dtype == np.dtype(dt), "%s: dtype %s", nm, g.dtype)
        require(gen.same_nv(g.nv, v), "%s: null value %r expected %r", nm,
                g.nv, v)
        gen.check_grid(g, cref, nm)
    gc, gt, ga = gs
    for i, j in np.ndindex(*cost.shape):
        at = (0, i, j)
        nulls = [bool(g.mask[at]) for g in gs]
        require(len(set(nulls)) == 1, "cell %s: null in some outputs but not "
                "in all: %s", at, nulls)
        is_src = (i, j) in svals
        if mask[i, j]:
            require(nulls[0], "cell %s is null in costs but not in the result",
                    at)
            continue
        if is_src and not m.ok(i, j):
            continue  # a source that is a barrier itself
        require(nulls[0] == np.isinf(dist[i, j]), "cell %s: null is %s but "
                "its least cost is %r", at, nulls[0], dist[i, j])
        if nulls[0]:
            continue
        d, t, v = gc.data[at], int(gt.data[at]), int(ga.data[at])
        require(np.isclose(d, dist[i, j], rtol=1e-9, atol=1e-12),
                "cell %s: cost %r, least possible %r", at, d, dist[i, j])
        if is_src:
            require(t == 0 and v == svals[i, j], "source %s: traceback %d "
                    "allocation %d (value %d)", at, t, v, svals[i, j])
            continue
        require(t in MOVES and (case["conn"] == 8 or t % 2),
                "cell %s: traceback %d", at, t)
        u = (i + MOVES[t][0], j + MOVES[t][1])
        require(0 <= u[0] < cost.shape[0] and 0 <= u[1] < cost.shape[1]
                and m.ok(*u), "cell %s: traceback %d leads to a barrier", at,
                t)
        require(np.isclose(dist[u] + m.step(u, (i, j)), dist[i, j],
                           rtol=1e-9, atol=1e-12),
                "cell %s: traceback %d is not on a least cost path", at, t)
        require(v == int(ga.data[(0, *u)]), "cell %s: allocated to %d, but "
                "the next cell on its path to %d", at, v, ga.data[(0, *u)])
        ctx.nontrivial()
    # following the traceback ends at a source
    for i, j in np.argwhere(~gt.mask[0]):
        i, j = int(i), int(j)
        n = 0
        while int(gt.data[0, i, j]) > 0 and n <= cost.size:
            di, dj = MOVES[int(gt.data[0, i, j])]
            i, j, n = i + di, j + dj, n + 1
        require((i, j) in svals, "traceback ends at (%d, %d), not a source",
                i, j)
    for f, g, nm in ((rts.distance.cda_cost_distance, gc, "cost"),
                     (rts.distance.cda_traceback, gt, "traceback"),
                     (rts.distance.cda_allocation, ga, "allocation")):
        if case["idx"][0][0] % 3 == "cta".index(nm[0]):
            g1 = gen.get(f(c, src, er, **kw), nm)
            require(np.array_equal(g1.data, g.data, equal_nan=True)
                    and np.array_equal(g1.mask, g.mask),
                    "%s alone differs from the full analysis", nm)
    ctx.tag(case["conn"], case["src"], "3d" if elev is not None else "2d")
