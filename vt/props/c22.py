"""C22: clip, erase, mask and envelope select the cells features cover."""
import numpy as np
from hypothesis import strategies as st

from vt import aligned, feats, gen
from vt.core import Prop, Reject, require
from vt.feats import MAYBE, NO, YES
from vt.props.c21 import span

P = Prop(
    "C22",
    "case = (raster, features, operation); non-trivial when the features "
    "cover some but not all cells",
)

GEOS = gen.geos(crs=["EPSG:3857", "EPSG:5070", "EPSG:4326"])


@st.composite
def cases(draw):
    a = draw(gen.rasters(ny=(2, 12), nx=(2, 12), geo=GEOS))
    fs = draw(feats.features(a["ny"], a["nx"], n=(1, 4),
                             reach=draw(st.sampled_from([0, 12]))))
    x = sorted(draw(st.integers(-4, 8 * a["nx"] + 4)) for _ in range(2))
    y = sorted(draw(st.integers(-4, 8 * a["ny"] + 4)) for _ in range(2))
    return {
        "a": a, "f": fs,
        "op": draw(st.sampled_from(["clip", "erase", "mask", "maskinv",
                                    "envelope"])),
        "bounds": draw(st.sampled_from([None, None, "tuple", "array"])),
        "x": x, "y": y,
        "parts": draw(st.integers(1, 3)),
        "reproj": draw(st.sampled_from([False, False, True])),
        "as": draw(st.sampled_from(["vector", "gdf"])),
    }


@P.check(cases(), quick=900, weight=1)
def clipping(case, ctx):
    import dask_geopandas as dgpd
    import geopandas as gpd
    import raster_tools as rts

    ref = gen.build_ref(case["a"])
    op = case["op"]
    geoms = [feats.geometry(f, ref) for f in case["f"]]
    rx, ry = ref.res
    e = aligned.edges(ref)
    gdf = gpd.GeoDataFrame({"v": np.arange(len(geoms)), "geometry": geoms},
                           crs=ref.crs)
    kw = {}
    bb = gdf.total_bounds
    if case["bounds"] and op in ("clip", "erase"):
        (x0, x1), (y0, y1) = case["x"], case["y"]
        bb = (e[0] + x0 / 8 * rx, e[3] - y1 / 8 * ry, e[0] + x1 / 8 * rx,
              e[3] - y0 / 8 * ry)
        kw["bounds"] = tuple(bb) if case["bounds"] == "tuple" else np.array(bb)
    # the box in eighths of a cell
    x0, x1 = [(v - e[0]) / rx * 8 for v in (bb[0], bb[2])]
    y0, y1 = [(e[3] - v) / ry * 8 for v in (bb[3], bb[1])]
    x0, x1, y0, y1 = [round(v * 1e4) / 1e4 for v in (x0, x1, y0, y1)]
    a, b = span(x0, x1, ref.shape[2])
    c, d = span(y0, y1, ref.shape[1])
    trim = not op.startswith("mask")
    if trim and (x1 - x0 < 2 or y1 - y0 < 2 or b - a < 1 or d - c < 1):
        raise Reject
    r = gen.to_raster(ref)
    fin = gdf
    if case["reproj"] and ref.crs in ("EPSG:3857", "EPSG:5070"):
        fin = gdf.to_crs("EPSG:4326")
    if case["as"] == "vector":
        if case["parts"] > 1:
            fin = dgpd.from_geopandas(fin, npartitions=min(case["parts"],
                                                           len(geoms)))
        fin = rts.Vector(fin)
    C = rts.clipping
    q = {
        "clip": lambda: C.clip(fin, r, **kw),
        "erase": lambda: C.erase(fin, r, **kw),
        "mask": lambda: C.mask(fin, r),
        "maskinv": lambda: C.mask(fin, r, invert=True),
        "envelope": lambda: C.envelope(fin, r),
    }[op]()
    g = gen.get(q, op)
    require(g.dtype == ref.dtype, "%s: dtype %s of %s", op, g.dtype, ref.dtype)
    nv = ref.nv if ref.masked else gen.default_null(ref.dtype)
    require(gen.same_nv(g.nv, nv), "%s: null value %r expected %r", op, g.nv,
            nv)
    require(gen.same_crs(g.crs, ref.crs), "%s: crs %s", op, g.crs)
    c0 = int(round((g.x[0] - ref.x[0]) / rx))
    r0 = int(round((ref.y[0] - g.y[0]) / ry))
    c1, r1 = c0 + g.shape[2], r0 + g.shape[1]
    require(c0 >= 0 and r0 >= 0 and c1 <= ref.shape[2] and r1 <= ref.shape[1],
            "%s: leaves the raster: rows %d:%d cols %d:%d of %s", op, r0, r1,
            c0, c1, ref.shape)
    if trim:
        slack = 1 if b - a > 1 and d - c > 1 else 3
        require(c0 <= a and c1 >= b and r0 <= c and r1 >= d,
                "%s: rows %d:%d cols %d:%d lose cells of the box (%d:%d, "
                "%d:%d)", op, r0, r1, c0, c1, c, d, a, b)
        require(a - c0 <= slack and c1 - b <= slack and c - r0 <= slack
                and r1 - d <= slack,
                "%s: rows %d:%d cols %d:%d too large for the box (%d:%d, "
                "%d:%d)", op, r0, r1, c0, c1, c, d, a, b)
    else:
        require(g.shape == ref.shape, "%s: shape %s of %s", op, g.shape,
                ref.shape)
    s = np.s_[:, r0:r1, c0:c1]
    require(gen.same_coords(g.x, ref.x[c0:c1], rx)
            and gen.same_coords(g.y, ref.y[r0:r1], ry),
            "%s: position x %s y %s", op, g.x, g.y)
    cov = np.max([feats.coverage(q, ref, True) for q in geoms], axis=0)
    cov = cov[r0:r1, c0:c1]
    if op in ("clip", "mask"):
        keep = cov
    elif op == "envelope":
        keep = np.full(cov.shape, YES)
    else:
        keep = np.select([cov == YES, cov == NO], [NO, YES], MAYBE)
    data, mask = ref.data[s], ref.mask[s]
    # cells in doubt follow the result
    kept = np.where(keep == MAYBE, ~g.mask | mask, keep == YES)
    kept = np.broadcast_to(kept, mask.shape)
    mask = mask | ~kept
    data = np.where(mask, ref.dtype.type(nv), data)
    # valid cells equal to a null value first introduced here
    if not ref.masked and gen.eq_nv(ref.data, nv).any():
        raise Reject
    gen.check_cells(g, data, mask, op, dtype=ref.dtype)
    ctx.nontrivial((cov == YES).any() and (cov == NO).any())
    ctx.tag(op)
