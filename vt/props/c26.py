"""C26: proximity, direction and allocation refer to a nearest source."""
import os

import numpy as np
from hypothesis import strategies as st

from vt import gen
from vt.core import Prop, Reject, require

P = Prop(
    "C26",
    "case = (raster, targets, metric, maximum distance); non-trivial when "
    "there are at least two sources and some cell is not one",
)

# every combination of types and metric compiles anew (5 s): in the quick tier
# each process takes one metric
SHARD = int(os.environ.get("VT_SHARD", "0"))
QUICK = os.environ.get("VERIF_TIER", "quick") != "thorough"
FAMILIES = [["euclidean", None],
            ["taxi", "taxicab", "manhatten", "city_block"],
            ["chebyshev", "chessboard"], ["haversine", "great_circle"]]
if QUICK:
    METRICS = FAMILIES[SHARD % 4]
    DTS = ["float64"] if SHARD < 4 else ["int32"]
    DOUBLE = [SHARD < 4]
    TARGETS = [[[3], [1, 4], [0], [9]], [None, None, []]][SHARD // 4]
else:
    METRICS = sum(FAMILIES, [])
    DTS = ["int8", "uint8", "int16", "int32", "int64", "uint16", "uint32",
           "float32", "float64"]
    DOUBLE = [False, True]
    TARGETS = [None, None, [], [3], [1, 4], [0], [9]]


SPHERE = st.one_of(gen.geos(crs=["EPSG:4326"]), st.just(
    {"x0": 10.0, "y0": -50.0, "rx": 0.5, "ry": 1.0, "crs": "EPSG:4326"}))


@st.composite
def cases(draw):
    metric = draw(st.sampled_from(METRICS))
    geo = None
    if metric in FAMILIES[3]:
        geo = SPHERE
    a = draw(gen.rasters(dts=DTS, kinds=["small"], bands=(1, 2), ny=(1, 12),
                         nx=(1, 12), geo=geo,
                         dens=[0.1, 0.0, 0.3, 0.8, "row", "center"]))
    return {
        "a": a,
        # how many cells are made sources
        "sparse": draw(st.sampled_from([1, 1, 2, 3, 5, 0.2, 0.5])),
        "targets": draw(st.sampled_from(TARGETS)),
        "metric": metric,
        # in percent of the raster's diagonal
        "max": draw(st.sampled_from(["inf", "inf", 5, 12, 25, 40, 60, 90,
                                     100, 150])),
        "double": draw(st.sampled_from(DOUBLE)),
        "seed": draw(gen.seeds),
    }


def model_dist(metric, x1, y1, x2, y2):
    dx, dy = np.abs(x1 - x2), np.abs(y1 - y2)
    if metric in (None, "euclidean"):
        return np.hypot(dx, dy)
    if metric in ("taxi", "taxicab", "manhatten", "city_block"):
        return dx + dy
    if metric in ("chebyshev", "chessboard"):
        return np.maximum(dx, dy)
    a, b, c, d = map(np.radians, (x1, y1, x2, y2))
    h = (np.sin((d - b) / 2) ** 2
         + np.cos(b) * np.cos(d) * np.sin((c - a) / 2) ** 2)
    return 2 * 6371009.0 * np.arcsin(np.sqrt(np.minimum(h, 1)))


def bearing(x, y, sx, sy):
    dx, dy = sx - x, sy - y
    b = np.degrees(np.arctan2(dx, dy)) % 360
    b = np.where(b == 0, 360.0, b)
    return np.where((dx == 0) & (dy == 0), 0.0, b)


@P.check(cases(), quick=900, weight=2)
def proximity(case, ctx):
    import raster_tools as rts

    ref = gen.build_ref(case["a"])
    rng = np.random.default_rng(case["seed"])
    # thin the sources out
    n = ref.shape[1] * ref.shape[2]
    k = case["sparse"]
    k = max(1, int(k * n)) if isinstance(k, float) else min(k, n)
    targets = case["targets"]
    vals = np.arange(0, 10)
    if targets:
        on, off = vals[np.isin(vals, targets)], vals[~np.isin(vals, targets)]
    else:
        on, off = vals[1:], vals[:1]
    if ref.masked:
        on, off = [v[~gen.eq_nv(v.astype(ref.dtype), ref.nv)]
                   for v in (on, off)]
        if not on.size or not off.size:
            raise Reject
    for b in range(ref.shape[0]):
        keep = np.zeros(n, bool)
        keep[rng.choice(n, k, replace=False)] = True
        v = np.where(keep, rng.choice(on, n), rng.choice(off, n))
        v = v.reshape(ref.shape[1:]).astype(ref.dtype)
        ref.data[b] = np.where(ref.mask[b], ref.data[b], v)
    r = gen.to_raster(ref)
    X, Y = np.meshgrid(ref.x, ref.y)
    X, Y = X.ravel(), Y.ravel()
    metric = case["metric"]
    diag = float(model_dist(metric, ref.x[0], ref.y[0], ref.x[-1],
                            ref.y[-1]))
    maxd = np.inf
    if case["max"] != "inf":
        maxd = diag * case["max"] / 100
        if maxd <= 0:
            raise Reject
    kw = {"distance_metric": metric, "max_distance": maxd,
          "double_precision": case["double"]}
    if targets is not None:
        kw["target_values"] = targets
    prox, direc, alloc = rts.distance.proximity_analysis(r, **kw)
    fdt = np.dtype("float64" if case["double"] else "float32")
    fnv = gen.default_null(fdt)
    out = []
    for q, nm, dt in ((prox, "proximity", fdt), (direc, "direction", fdt),
                      (alloc, "allocation", ref.dtype)):
        g = gen.get(q, nm)
        gen.check_grid(g, ref, nm)
        require(g.dtype == dt, "%s: dtype %s expected %s", nm, g.dtype, dt)
        require(g.shape == ref.shape, "%s: shape %s", nm, g.shape)
        require(gen.same_nv(g.nv, gen.default_null(dt)), "%s: null value %r",
                nm, g.nv)
        out.append(g)
    gp, gd, ga = out
    if (ref.data == gen.default_null(ref.dtype))[~ref.mask].any():
        raise Reject  # allocated values that are the result's null value
    cell = max(ref.res)
    if metric in ("haversine", "great_circle"):
        cell = cell * 111195.0
    eps = 1e-5 if fdt == "float32" else 1e-9
    for b in range(ref.shape[0]):
        v = ref.data[b].ravel()
        ok = ~ref.mask[b].ravel()
        if targets:
            src = ok & np.isin(v, targets)
        else:
            src = ok & (v != 0) & (np.isfinite(v) if v.dtype.kind == "f"
                                   else True)
        s = np.flatnonzero(src)
        # the two-pass sweep is exact for city blocks and up to two sources,
        # otherwise it can pick a source up to a cell farther than the nearest
        taxi = metric in FAMILIES[1]
        slack_cells = 0.0 if s.size < 3 or taxi else 1.1
        D = model_dist(metric, X[:, None], Y[:, None], X[None, s], Y[None, s])
        B = bearing(X[:, None], Y[:, None], X[None, s], Y[None, s])
        for i in range(n):
            at = (b, i // ref.shape[2], i % ref.shape[2])
            nulls = [bool(g.mask[at]) for g in out]
            require(len(set(nulls)) == 1,
                    "cell %s: null in some of proximity, direction, "
                    "allocation but not in all: %s", at, nulls)
            best = D[i].min() if s.size else np.inf
            tol = eps * max(best if s.size else 0, cell)
            if nulls[0]:
                require(best > maxd - tol - slack_cells * cell * (best > 0)
                        or not s.size,
                        "cell %s is null but %g from a source (maximum %g)",
                        at, best, maxd)
                continue
            require(best <= maxd + tol and s.size,
                    "cell %s has a value, but its nearest source is %g away "
                    "(maximum %g)", at, best, maxd)
            p, d, a = gp.data[at], gd.data[at], ga.data[at]
            same = np.abs(D[i] - p) <= tol + eps * abs(p)
            require(same.any(), "cell %s: proximity %r is the distance of no "
                    "source (nearest %g)", at, p, best)
            require(p <= best + slack_cells * cell * (best > 0) + tol,
                    "cell %s: proximity %r but a source is %g away", at, p,
                    best)
            db = np.abs(B[i] - d)
            db = np.minimum(db, 360 - db)
            if d == 0:
                db = np.where(best == 0, 0, 999) * np.ones(s.size)
            both = same & (db < 1e-3) & (v[s] == a)
            require(both.any(), "cell %s: no source at distance %r has "
                    "direction %r and value %r", at, p, d, a)
            require((p == 0) == bool(src[i]), "cell %s: proximity %r but "
                    "source is %s", at, p, src[i])
        ctx.nontrivial(s.size > 1 and s.size < n)
    ctx.tag(str(metric))
