"""C15: zonal statistics equal brute force over each zone's valid cells."""
import math

import dask
import numpy as np
from hypothesis import strategies as st

from vt import feats, gen
from vt.core import Prop, Reject, require
from vt.feats import MAYBE, YES
from vt.props import c12

P = Prop(
    "C15",
    "case = (data raster, zones, statistics, layout, chunking); non-trivial "
    "when at least two zones have cells, or a zone has null and valid cells",
)

STATS = ["asm", "count", "entropy", "max", "mean", "median", "min", "mode",
         "nunique", "prod", "size", "std", "sum", "var"]
DTS = ["uint8", "int8", "int16", "int32", "int64", "uint32", "float32",
       "float64", "float64"]


@st.composite
def cases(draw):
    a = draw(gen.rasters(dts=DTS, bands=(1, 3), ny=(1, 8), nx=(1, 8),
                         geo=gen.geos(crs=["EPSG:3857", "EPSG:5070"]),
                         kinds=["small", "neg", "mid", "two", "const"]))
    kind = draw(st.sampled_from(["raster", "raster", "vector", "overlap"]))
    case = {
        "a": a, "zones": kind,
        "stats": draw(st.lists(st.sampled_from(STATS), min_size=1, max_size=4,
                               unique=True)),
        "single": draw(st.booleans()),
        "wide": draw(st.booleans()),
        # bytes per chunk the library may use: small splits the raster
        "bytes": draw(st.sampled_from([None, 64, 128, 200])),
        "seed": draw(gen.seeds),
    }
    if kind == "raster":
        case["zdt"] = draw(st.sampled_from(
            ["int64", "int32", "uint8", "int16", "uint16"]))
        case["znv"] = draw(st.sampled_from([None, 0, 3, -1]))
        case["zn"] = draw(st.integers(1, 6))
        case["zchunk"] = draw(st.integers(0, 4))
    else:
        case["f"] = draw(feats.features(
            a["ny"], a["nx"], n=(1, 5),
            kinds=["box", "box", "tri", "circle", "hole", "multi", "point"]))
        case["field"] = draw(st.booleans())
        case["ids"] = draw(st.lists(st.integers(1, 9), min_size=5, max_size=5,
                                    unique=True))
        case["container"] = draw(st.sampled_from(
            ["gdf", "gdf", "vector", "dgdf", "series"]))
        case["parts"] = draw(st.integers(1, 3))
    return case


def statistic(name, vals, size):
    """vals: valid values (floats) of a zone."""
    n = len(vals)
    if name == "size":
        return size
    if name == "count":
        return n
    if name == "nunique":
        return len(set(vals))
    if name == "sum":
        return math.fsum(vals)
    if name == "prod":
        return float(np.prod(np.array(vals), initial=1.0))
    if name in ("std", "var"):
        if n < 2:
            return None
        v = c12.stat_of("var", vals) * n / (n - 1)   # sample variance
        return math.sqrt(v) if name == "std" else v
    return c12.stat_of(name, vals) if n else None


def zone_cells(case, ref, ctx):
    """(features argument, {id: boolean (ny, nx)}, keywords)"""
    import dask_geopandas as dgpd
    import geopandas as gpd
    import raster_tools as rts
    from raster_tools.rasterize import rasterize as rz
    from shapely.affinity import translate

    ny, nx = ref.shape[1:]
    if case["zones"] == "raster":
        rng = np.random.default_rng(case["seed"])
        dt = np.dtype(case["zdt"])
        znv = case["znv"]
        if znv == -1 and dt.kind == "u":
            znv = 0
        # zones in vertical bands, blocks or speckle
        how = rng.integers(3)
        n = case["zn"]
        if how == 0:
            z = rng.integers(0, n + 1, (ny, nx))
        elif how == 1:
            z = np.arange(nx)[None, :] * n // nx + np.zeros((ny, 1), int)
        else:
            z = (np.arange(ny)[:, None] // 2 * 3 + np.arange(nx)[None] // 2)
            z = z % (n + 1)
        z = z.astype(dt)[None]
        zm = (z == znv) if znv is not None else np.zeros(z.shape, bool)
        zr = gen.Ref(z, zm, None if znv is None else dt.type(znv), ref.x,
                     ref.y, ref.crs)
        zr.affine, zr.res = ref.affine, ref.res
        k = case["zchunk"]
        zr.chunks = ((1,), tuple(gen.chunk_parts(ny, k, 0)),
                     tuple(gen.chunk_parts(nx, k, 0)))
        out = {int(v): (z[0] == v) & ~zm[0] for v in np.unique(z[~zm])}
        return gen.to_raster(zr), out, {}
    # away from the cells' edges, where coverage is not specified
    geoms = [translate(feats.geometry(f, ref), ref.res[0] / 16,
                       ref.res[1] / 16) for f in case["f"]]
    n = len(geoms)
    kw = {}
    if case["field"] and case["container"] != "series":
        ids = np.array(case["ids"][:n])
        gdf = gpd.GeoDataFrame({"id": ids, "geometry": geoms}, crs=ref.crs)
        kw["features_field"] = "id"
    else:
        ids = np.arange(n) + 1
        gdf = gpd.GeoDataFrame({"geometry": geoms}, crs=ref.crs)
    cov = np.stack([feats.coverage(g, ref, True) for g in geoms])
    if (cov == MAYBE).any():
        raise Reject
    like = gen.to_raster(ref)
    field = kw.get("features_field")
    if case["zones"] == "overlap":
        kw["handle_overlap"] = True
        cells = cov == YES
        out = {int(v): c for v, c in zip(ids, cells) if c.any()}
    else:
        zone = np.zeros((ny, nx), int)
        for i in range(n)[::-1]:
            zone = np.where(cov[i] == YES, ids[i], zone)
        # the rule for overlapping features is not part of this property
        if ((cov != 0).sum(0) > 1).any():
            q = gen.Got(rz(gdf, like, field=field))
            zone = np.where((cov != 0).sum(0) > 1,
                            np.where(q.mask[0], 0, q.data[0]), zone)
        out = {int(v): zone == v for v in ids if (zone == v).any()}
    c = case["container"]
    feats_in = gdf
    if c == "series":
        feats_in = gdf.geometry
    elif c == "dgdf":
        feats_in = dgpd.from_geopandas(gdf, npartitions=min(n, case["parts"]))
    elif c == "vector":
        feats_in = rts.Vector(
            dgpd.from_geopandas(gdf, npartitions=min(n, case["parts"])))
    return feats_in, out, kw


@P.check(cases(), quick=500, thorough=7000, weight=3)
def stats(case, ctx):
    import raster_tools as rts

    ref = gen.build_ref(case["a"])
    raster = gen.to_raster(ref)
    features, zones, kw = zone_cells(case, ref, ctx)
    if not zones:
        raise Reject
    names = case["stats"]
    arg = names
    if case["single"]:
        names = names[:1]
        arg = names[0]
    wide = case["wide"]
    what = (f"zonal_stats({case['zones']}, {arg}, wide={wide}, "
            f"bytes={case['bytes']})")
    cfg = {} if case["bytes"] is None else {
        "array.chunk-size": f"{case['bytes']}B"}
    with dask.config.set(cfg):
        df = rts.zonal.zonal_stats(features, raster, arg, wide_format=wide,
                                   **kw)
        got = df.compute()
    nb = ref.shape[0]
    table = {}
    if wide:
        want_cols = [(f"band_{b + 1}", s) for b in range(nb) for s in names]
        require(list(got.columns) == want_cols, "%s: columns %s", what,
                list(got.columns))
        require(got.index.is_unique, "%s: zones %s", what, list(got.index))
        for z, row in zip(got.index, got.to_numpy()):
            for (bn, s), v in zip(want_cols, row):
                table[int(z), int(bn[5:]), s] = v
        require({int(z) for z in got.index} == set(zones),
                "%s: zones %s expected %s", what, sorted(got.index),
                sorted(zones))
    else:
        require(list(got.columns) == ["zone", "band", *names],
                "%s: columns %s", what, list(got.columns))
        keys = list(zip(got["zone"], got["band"]))
        require(len(set(keys)) == len(keys)
                and {(int(z), int(b)) for z, b in keys}
                == {(z, b + 1) for z in zones for b in range(nb)},
                "%s: rows %s expected zones %s x %s bands", what, keys,
                sorted(zones), nb)
        for _, row in got.iterrows():
            for s in names:
                table[int(row["zone"]), int(row["band"]), s] = row[s]
    mixed = False
    for z, cells in zones.items():
        for b in range(nb):
            ok = cells & ~ref.mask[b]
            mixed |= bool(ok.any() and (cells & ref.mask[b]).any())
            vals = [float(v) for v in ref.data[b][ok].tolist()]
            scale = max([1.0, *[abs(v) for v in vals]])
            for s in names:
                e = statistic(s, vals, int(cells.sum()))
                v = table[z, b + 1, s]
                if e is None:
                    require(v is None or v != v, "%s: zone %s band %s: %s is "
                            "%r, expected null", what, z, b + 1, s, v)
                    continue
                tol = 1e-9 * (abs(e) + scale)
                if s == "var":
                    tol = 1e-9 * scale**2
                elif s == "std":
                    tol = 1e-4 * scale if e < 1e-3 * scale else (
                        1e-6 * scale)
                elif s == "prod":
                    tol = 1e-9 * abs(e)
                v = float(v)
                require(v == e or abs(v - e) <= tol, "%s: zone %s band %s: %s "
                        "is %r, expected %r (values %s)", what, z, b + 1, s,
                        v, e, vals[:12])
    ctx.nontrivial(len(zones) > 1 or mixed)
    ctx.tag(case["zones"], "wide" if wide else "long", *names,
            "split" if case["bytes"] else "whole")
