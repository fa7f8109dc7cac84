"""C16: point extraction reports the cell under each point."""
import numpy as np
from hypothesis import strategies as st

from vt import aligned, gen
from vt.core import Prop, Reject, require

P = Prop(
    "C16",
    "case = (raster, points, partitions, layout); non-trivial when some point "
    "is on a valid cell and some is on a null cell or outside",
)

DTS = ["uint8", "int8", "int16", "int32", "uint32", "float32", "float64",
       "int64", "bool"]


@st.composite
def cases(draw):
    a = draw(gen.rasters(dts=DTS, bands=(1, 4), ny=(1, 8), nx=(1, 8),
                         kinds=["arange", "mid", "small", "neg"]))
    n = draw(st.integers(1, 12))
    # sixteenths of a cell, odd: never on the edge of a cell
    X = st.integers(-16, 8 * a["nx"] + 15).map(lambda v: 2 * v + 1)
    Y = st.integers(-16, 8 * a["ny"] + 15).map(lambda v: 2 * v + 1)
    return {
        "a": a, "p": draw(st.lists(st.tuples(X, Y), min_size=n, max_size=n)),
        "parts": draw(st.integers(1, 4)),
        "axis": draw(st.sampled_from([None, 0, 1])),
        "name": draw(st.sampled_from([None, "v", "band_value"])),
        "validate": draw(st.booleans()),
        "container": draw(st.sampled_from(["gdf", "vector", "series",
                                           "dgdf"])),
        "order": draw(st.sampled_from(["range", "offset", "gaps"])),
        "reproj": draw(st.sampled_from([False, False, True])),
    }


@P.check(cases(), quick=900, thorough=12000)
def extract(case, ctx):
    import dask.dataframe as dd
    import dask_geopandas as dgpd
    import geopandas as gpd
    from shapely.geometry import Point
    from raster_tools.zonal import extract_points_eager

    ref = gen.build_ref(case["a"])
    raster = gen.to_raster(ref)
    left, _, _, top = aligned.edges(ref)
    rx, ry = ref.res
    pts = [Point(left + u / 16 * rx, top - v / 16 * ry) for u, v in case["p"]]
    n = len(pts)
    gdf = gpd.GeoDataFrame({"k": np.arange(n), "geometry": pts},
                           crs=ref.crs or "EPSG:3857")
    if case["reproj"]:
        if ref.crs not in ("EPSG:3857", "EPSG:5070"):
            raise Reject
        gdf = gdf.to_crs("EPSG:4326")
    if case["order"] == "offset":
        gdf.index = gdf.index + 7
    elif case["order"] == "gaps":
        gdf.index = gdf.index * 3 + gdf.index % 2
    order = gdf["k"].tolist()
    before = gdf.copy()
    arg = gdf.geometry if case["container"] == "series" else gdf
    if case["container"] == "dgdf":
        arg = dgpd.from_geopandas(gdf, npartitions=min(n, case["parts"]))
    elif case["container"] == "vector":
        import raster_tools as rts

        arg = rts.Vector(
            dgpd.from_geopandas(gdf, npartitions=min(n, case["parts"]))
            if case["parts"] > 1 else gdf)
    kw = {}
    if case["axis"] is not None:
        kw["axis"] = case["axis"]
    if case["name"] is not None:
        kw["column_name"] = case["name"]
    if case["validate"]:
        kw["skip_validation"] = False
    df = extract_points_eager(arg, raster, **kw)
    require(isinstance(df, dd.DataFrame), "result is %r", type(df))
    require(before.equals(gdf) and before.crs == gdf.crs, "points changed")
    got = df.compute()
    nb, ny, nx = ref.shape
    exp = np.full((nb, n), np.nan)
    for i, k in enumerate(order):
        u, v = case["p"][k]
        r, c = v // 16, u // 16
        if 0 <= r < ny and 0 <= c < nx:
            for b in range(nb):
                if not ref.mask[b, r, c]:
                    exp[b, i] = ref.data[b, r, c]
    name = case["name"] or "extracted"
    what = f"extract_points_eager(axis={case['axis']})"
    if case["axis"] == 1:
        cols = [f"{name}_{b + 1}" for b in range(nb)]
        require(list(got.columns) == cols, "%s: columns %s expected %s", what,
                list(got.columns), cols)
        require(len(got) == n, "%s: %s rows for %s points", what, len(got), n)
        vals = got.to_numpy().T
    else:
        require(list(got.columns) == ["band", name], "%s: columns %s", what,
                list(got.columns))
        require(len(got) == n * nb, "%s: %s rows for %s points and %s bands",
                what, len(got), n, nb)
        require(got["band"].tolist() == [b + 1 for b in range(nb)
                                         for _ in range(n)],
                "%s: bands %s", what, got["band"].tolist())
        require(got.index.is_unique, "%s: index %s", what, list(got.index))
        vals = got[name].to_numpy().reshape(nb, n)
    vals = vals.astype("float64")
    bad = ~((vals == exp) | (np.isnan(vals) & np.isnan(exp)))
    require(not bad.any(), "%s: (band, point) %s: got %s expected %s", what,
            np.argwhere(bad)[:4].tolist(), vals[bad][:4].tolist(),
            exp[bad][:4].tolist())
    ctx.nontrivial(np.isnan(exp).any() and not np.isnan(exp).all())
    ctx.tag(case["container"], f"axis {case['axis']}",
            "null under point" if ref.mask.any() else "no null",
            "multi" if raster.data.npartitions > nb else "single")
