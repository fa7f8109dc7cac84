"""C27: rasterized features burn exactly the cells they cover."""
import numpy as np
from hypothesis import strategies as st

from vt import feats, gen
from vt.core import Prop, Reject, require
from vt.feats import MAYBE, NO, YES

P = Prop(
    "C27",
    "case = (template, features, options); non-trivial when some cell is "
    "covered and some is not, or features overlap",
)

CRS_GEOS = gen.geos(crs=["EPSG:3857", "EPSG:5070", "EPSG:4326"])


@st.composite
def cases(draw):
    geo = CRS_GEOS if draw(st.integers(0, 4)) else gen.geos(crs=[None])
    a = draw(gen.rasters(bands=(1, 2), ny=(1, 12), nx=(1, 12), geo=geo,
                         dts=["uint8", "int32", "float32", "float64"],
                         kinds=["small"]))
    fs = draw(feats.features(a["ny"], a["nx"], n=(1, 6),
                             empties=draw(st.booleans())))
    n = len(fs)
    field = draw(st.sampled_from([None, "int64", "int64", "float64",
                                  "int32", "uint8", "int8", "int16", "uint16",
                                  "uint32", "float32", "big"]))
    return {
        "a": a, "f": fs, "field": field,
        "vals": draw(st.lists(st.integers(1, 6), min_size=n, max_size=n)),
        "rule": draw(st.sampled_from(["first", "last", "min", "max"])),
        "touch": draw(st.booleans()),
        "parts": draw(st.integers(1, 4)),
        "container": draw(st.sampled_from(["vector", "gdf", "dgdf",
                                           "method"])),
        "spatial": draw(st.sampled_from(["no", "no", "flag", "calc"])),
        "nv": draw(st.sampled_from([None, None, 0, 100, -7, float("nan")])),
        "mask": draw(st.sampled_from(["no", "no", "no", "mask", "invert"])),
        "order": draw(st.sampled_from(["range", "range", "offset"])),
        "again": draw(st.booleans()),
        # features in another CRS
        "reproj": draw(st.sampled_from([False, False, True])),
        "seed": draw(gen.seeds),
    }


def frame(case, ref):
    import geopandas as gpd

    geoms = [feats.geometry(f, ref) for f in case["f"]]
    n = len(geoms)
    vals = np.array(case["vals"])
    field = case["field"]
    if field == "big":
        vals = (vals + 2**53 + 1).astype("int64")
    elif field is not None:
        vals = vals.astype(field)
        if vals.dtype.kind == "f":
            vals = vals + vals.dtype.type(0.5)
        elif vals.dtype.kind == "i":
            vals = vals - vals.dtype.type(8)
    cols = {"geometry": geoms}
    if field is not None:
        cols = {"v": vals, **cols}
    gdf = gpd.GeoDataFrame(cols, crs=ref.crs, geometry="geometry")
    if case["order"] == "offset":
        gdf.index = gdf.index + 10
    if field is None:
        vals = np.asarray(gdf.index) + 1
    return gdf, geoms, vals, n


def allowed(cov, vals, rule):
    """Per cell: set of values allowed (None for no feature)."""
    out = set()
    order = range(len(vals))
    if rule == "last":
        order = list(order)[::-1]
    elif rule == "min":
        order = sorted(order, key=lambda i: vals[i])
    elif rule == "max":
        order = sorted(order, key=lambda i: -vals[i])
    for i in order:
        if cov[i] == YES:
            out.add(vals[i])
            return out
        if cov[i] == MAYBE:
            out.add(vals[i])
    out.add(None)
    return out


@P.check(cases(), quick=900, weight=2)
def rasterize(case, ctx):
    import dask_geopandas as dgpd
    import geopandas as gpd
    import raster_tools as rts
    from raster_tools.rasterize import rasterize as rz

    ref = gen.build_ref(case["a"])
    gdf, geoms, vals, n = frame(case, ref)
    real = [g for g in geoms if g is not None and not g.is_empty]
    mask = case["mask"] != "no"
    invert = case["mask"] == "invert"
    if mask and len(real) < n:
        raise Reject  # masking with missing geometries is not specified
    if not real:
        raise Reject
    like = gen.to_raster(ref)
    container = case["container"]
    if case["reproj"] and ref.crs in ("EPSG:3857", "EPSG:5070"):
        gdf = gdf.to_crs("EPSG:4326")
    feats_in = gdf
    if container == "dgdf" or (container in ("vector", "method")
                               and case["parts"] > 1):
        feats_in = dgpd.from_geopandas(gdf, npartitions=min(case["parts"], n))
    if container in ("vector", "method"):
        feats_in = rts.Vector(feats_in)
    if case["spatial"] == "calc" and container == "vector":
        if len(real) < n:
            raise Reject
        feats_in = feats_in.calculate_spatial_partitions()
    if case["spatial"] == "flag" and len(real) < n:
        raise Reject
    kw = {"all_touched": case["touch"],
          "use_spatial_aware": case["spatial"] == "flag"}
    field = None if case["field"] is None else "v"
    dt = np.dtype("int64") if field is None else vals.dtype
    nv = case["nv"]
    if mask:
        kw.update(mask=True, mask_invert=invert)
        if nv is not None:
            raise Reject
        nv, dt = 0, np.dtype("uint8")
    else:
        kw.update(field=field, overlap_resolve_method=case["rule"])
        if nv is not None:
            if gen.isnan(nv) and dt.kind != "f":
                raise Reject
            if nv == -7 and dt.kind == "u":
                raise Reject
            kw["null_value"] = nv
        else:
            nv = 0 if field is None else gen.default_null(dt)
        if (vals == nv).any():
            raise Reject
    if case["again"]:
        # the same features on another template first
        x = ref.x[0] + (np.arange(4) + 1000) * ref.res[0]
        y = ref.y[0] - (np.arange(4) + 1000) * ref.res[1]
        far = rts.data_to_raster(np.zeros((1, 4, 4)), x=x, y=y, crs=ref.crs)
        rz(feats_in, far, **kw)
    call = feats_in.to_raster if container == "method" else None
    r = call(like, **kw) if call else rz(feats_in, like, **kw)
    g = gen.get(r, "rasterize")
    require(g.shape == (1, *ref.shape[1:]), "shape %s", g.shape)
    require(g.dtype == dt, "dtype %s expected %s", g.dtype, dt)
    require(gen.same_nv(g.nv, nv), "null value %r expected %r", g.nv, nv)
    require(gen.same_crs(g.crs, ref.crs), "crs %s expected %s", g.crs, ref.crs)
    require(gen.same_coords(g.x, ref.x, ref.res[0])
            and gen.same_coords(g.y, ref.y, ref.res[1]), "moved off the grid")
    cov = np.stack([feats.coverage(q, ref, case["touch"]) for q in geoms])
    for i in range(ref.shape[1]):
        for j in range(ref.shape[2]):
            c = cov[:, i, j]
            got = None if g.mask[0, i, j] else g.data[0, i, j]
            if mask:
                if invert:
                    ok = ({None} if YES in c else {1} if not c.any()
                          else {None, 1})
                else:
                    ok = ({1} if YES in c else {None} if not c.any()
                          else {None, 1})
            else:
                ok = allowed(c, vals, case["rule"])
            require(got in ok, "cell (%d, %d) is %r, expected one of %r "
                    "(coverage %s, values %s)", i, j, got, sorted(
                        ok, key=str), c.tolist(), vals.tolist())
    yes = (cov == YES).sum(0)
    ctx.nontrivial((yes > 1).any() or ((yes > 0).any() and (yes == 0).any()))
    ctx.tag(case["rule"], case["mask"], case["touch"])
