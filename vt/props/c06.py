"""C06: values stay attached to their geographic positions."""
import numpy as np
from hypothesis import strategies as st

from vt import gen
from vt.core import Prop, Reject, require

P = Prop(
    "C06",
    "case = (grid, orientation and dimension layout of the input, or cells "
    "and offsets); non-trivial when the raster has more than one row and "
    "column (orientation matters), or for conversions when it is not the unit "
    "grid",
)

DIMS = {
    2: [("y", "x"), ("x", "y"), ("lat", "lon"), ("lon", "lat"),
        ("latitude", "longitude"), ("longitude", "latitude")],
    3: [("band", "y", "x"), ("y", "x", "band"), ("band", "x", "y"),
        ("x", "y", "band"), ("time", "y", "x"), ("time", "lat", "lon"),
        ("lat", "lon", "time"), ("lon", "lat", "time"), ("bands", "y", "x"),
        ("band", "latitude", "longitude"), ("wavelength", "x", "y"),
        ("y", "band", "x")],
}
XN = ("x", "lon", "longitude")
YN = ("y", "lat", "latitude")


@st.composite
def layouts(draw):
    nd = draw(st.sampled_from([2, 3, 3]))
    return {
        "dims": list(draw(st.sampled_from(DIMS[nd]))),
        "a": draw(gen.rasters(
            dts=["int16", "int32", "uint8", "float32", "float64", "int64"],
            ny=(2, 8), nx=(2, 8), kinds=["arange", "small", "mid"],
            masked=False, bands=(1, 3) if nd == 3 else 1)),
        "flipx": draw(st.booleans()), "flipy": draw(st.booleans()),
        "dask": draw(st.booleans()), "crs": draw(st.booleans()),
        "nodata": draw(st.booleans()),
        "as": draw(st.sampled_from(["dataarray", "dataarray", "dataset",
                                    "dataarray_to_raster"])),
        "bandvals": draw(st.sampled_from(["one", "zero", "odd"])),
    }


@P.check(layouts(), quick=1800, weight=1.2)
def orientation(case, ctx):
    import rioxarray  # noqa: F401
    import xarray as xr

    import raster_tools as rts
    from raster_tools.raster import dataarray_to_raster

    ref = gen.build_ref(case["a"])
    dims = case["dims"]
    axes, coords = [], {}
    for d in dims:
        if d in XN:
            axes.append(2)
            coords[d] = ref.x
        elif d in YN:
            axes.append(1)
            coords[d] = ref.y
        else:
            axes.append(0)
            n = ref.shape[0]
            coords[d] = {"one": np.arange(n) + 1, "zero": np.arange(n),
                         "odd": np.arange(n) * 2 + 10}[case["bandvals"]]
    data = ref.data if len(dims) == 3 else ref.data[0]
    if len(dims) == 2:
        axes = [a - 1 for a in axes]
    data = np.transpose(data, axes)
    xd = xr.DataArray(data.copy(), dims=dims, coords=coords)
    for d in dims:
        if (d in XN and case["flipx"]) or (d in YN and case["flipy"]):
            xd = xd.isel({d: slice(None, None, -1)})
    if case["dask"]:
        xd = xd.chunk({d: 3 for d in dims})
    nv = None
    mask = np.zeros(ref.shape, bool)
    if case["nodata"]:
        nv = ref.data.ravel()[0].item()
        xd = xd.rio.write_nodata(nv)
        mask = ref.data == nv
    if case["crs"] and ref.crs is not None:
        xd = xd.rio.write_crs(ref.crs)
    keep = xd.copy(deep=True)
    if case["as"] == "dataset":
        xm = (xd == nv) if nv is not None else xd.astype(bool) & False
        xm = xm.rio.write_crs(ref.crs) if case["crs"] and ref.crs else xm
        xm.attrs = {}
        r = rts.Raster(xr.Dataset({"raster": xd, "mask": xm}))
    elif case["as"] == "dataarray":
        r = rts.Raster(xd)
    else:
        r = dataarray_to_raster(xd)
    what = f"{case['as']} {dims} flips {case['flipx']} {case['flipy']}"
    g = gen.get(r, what)
    require(gen.same_coords(g.x, ref.x) and gen.same_coords(g.y, ref.y),
            "%s: coordinates x %s y %s", what, g.x[:3], g.y[:3])
    if case["crs"]:
        require(gen.same_crs(g.crs, ref.crs), "%s: crs %s", what, g.crs)
    gen.check_cells(g, ref.data, mask, what, dtype=ref.dtype)
    require(xd.identical(keep), "%s: input changed", what)
    check_conversions(r, ref, what, np.random.default_rng(case["a"]["seed"]))
    ctx.nontrivial(len(np.unique(ref.data)) > 1)
    ctx.tag("flip" if case["flipx"] or case["flipy"] else "noflip",
            "-".join(dims))


def close(a, b, ref, what):
    a, b = np.asarray(a, float), np.asarray(b, float)
    scale = min(ref.res) * 1e-6 + 1e-12 * np.abs(b).max(initial=0)
    require(a.shape == b.shape and (np.abs(a - b) <= scale).all(),
            "%s: %s expected %s", what, a.ravel()[:4], b.ravel()[:4])


def check_conversions(r, ref, what, rng):
    nb, ny, nx = ref.shape
    rx, ry = ref.res
    left, top = ref.x[0] - rx / 2, ref.y[0] + ry / 2
    right, bottom = ref.x[-1] + rx / 2, ref.y[-1] - ry / 2
    close(r.bounds, (left, bottom, right, top), ref, f"{what}: bounds")
    close(np.abs(r.resolution), (rx, ry), ref, f"{what}: resolution")
    a = r.affine
    close([a.a, a.b, a.c, a.d, a.e, a.f], [rx, 0, left, 0, -ry, top], ref,
          f"{what}: affine")
    gb = r.geobox
    require(tuple(gb.shape) == (ny, nx), "%s: geobox shape %s", what,
            gb.shape)
    close(tuple(gb.affine)[:6], [rx, 0, left, 0, -ry, top], ref,
          f"{what}: geobox")
    require(gen.same_crs(None if gb.crs is None else str(gb.crs),
                         r.crs), "%s: geobox crs %s", what, gb.crs)
    row = rng.integers(0, ny, 6)
    col = rng.integers(0, nx, 6)
    off = {"center": (0, 0), "ul": (-1, 1), "ur": (1, 1), "ll": (-1, -1),
           "lr": (1, -1)}
    for o, (dx, dy) in off.items():
        ex, ey = ref.x[col] + dx * rx / 2, ref.y[row] + dy * ry / 2
        gx, gy = r.xy(row, col, offset=o)
        close(gx, ex, ref, f"{what}: xy {o} x")
        close(gy, ey, ref, f"{what}: xy {o} y")
        sx, sy = r.xy(int(row[0]), int(col[0]), o)
        close([sx, sy], [ex[0], ey[0]], ref, f"{what}: scalar xy {o}")
    gx, gy = r.xy(row, col)
    close(gx, ref.x[col], ref, f"{what}: default offset x")
    close(gy, ref.y[row], ref, f"{what}: default offset y")
    # any point inside a cell maps to the cell
    fx, fy = rng.uniform(-0.49, 0.49, 6), rng.uniform(-0.49, 0.49, 6)
    gr, gc = r.index(ref.x[col] + fx * rx, ref.y[row] + fy * ry)
    require(np.array_equal(gr, row) and np.array_equal(gc, col),
            "%s: index gave rows %s cols %s expected %s %s", what, gr, gc, row,
            col)
    sr, sc = r.index(float(ref.x[col[0]]), float(ref.y[row[0]]))
    require((int(sr), int(sc)) == (int(row[0]), int(col[0])),
            "%s: index of a centre gave %s", what, (sr, sc))
    # round trip beyond the grid as well
    rr, cc = np.array([-3, ny + 2]), np.array([nx + 4, -2])
    gr, gc = r.index(*r.xy(rr, cc))
    require(np.array_equal(gr, rr) and np.array_equal(gc, cc),
            "%s: round trip outside the grid gave %s %s", what, gr, gc)


@st.composite
def conv_cases(draw):
    return {
        "a": draw(gen.rasters(dts=["uint8", "float32"], bands=(1, 2),
                              ny=(1, 9), nx=(1, 9), kinds=["arange"])),
        "how": draw(st.sampled_from(
            ["xy", "affine", "affine", "flipped", "xyflip", "like",
             "chunk", "default", "masked", "masked"])),
        "fx": draw(st.booleans()), "fy": draw(st.booleans()),
        "op": draw(st.sampled_from(OPS)),
    }


def _ops():
    import raster_tools as rts

    return {
        "copy": lambda r: r.copy(),
        "add": lambda r: r + 1,
        "astype": lambda r: r.astype("float64"),
        "round": lambda r: r.round(),
        "where": lambda r: r.where(r > 2, 0),
        "remap": lambda r: r.remap_range((0, 3, 9)),
        "reclassify": lambda r: r.reclassify({1: 2}),
        "get_bands": lambda r: r.get_bands([1]),
        "set_null_value": lambda r: r.set_null_value(3),
        "null_mask": lambda r: r.to_null_mask(),
        "zeros": lambda r: rts.zeros_like(r),
        "stack": lambda r: rts.stack_bands([r, r]),
        "map_blocks": lambda r: rts.map_blocks(lambda x: x, r),
        "load": lambda r: r.load(),
        "chunk": lambda r: r.chunk((1, 2, 2)),
        "local": lambda r: rts.general.local_stats(r, "sum"),
        "focal": lambda r: rts.focal.focal(r, "mean", 3, 3),
        "split": lambda r: rts.split_bands(r)[-1],
        "slope": lambda r: rts.surface.slope(r),
        "sub": lambda r: r - r,
        "rsub": lambda r: 9 - r,
        "compare": lambda r: r >= 4,
        "modf": lambda r: np.modf(r)[0],
        "astype_nv": lambda r: r.astype("int32", 77),
        "where_scalars": lambda r: rts.general.where(r > 2, 1, 0),
        "burn": lambda r: r.burn_mask(),
        "replace_null": lambda r: r.replace_null(9),
        "set_null": lambda r: r.set_null(r > 3),
        "clip": lambda r: np.maximum(r, 5),
        "dilate": lambda r: rts.general.dilate(r, 3),
        "rebase": lambda r: rts.Raster(r.xdata),
        "reduce": lambda r: rts.general.reclassify(r, {1: 5}, True),
    }


OPS = ["copy", "add", "astype", "round", "where", "remap", "reclassify",
       "get_bands", "set_null_value", "null_mask", "zeros", "stack",
       "map_blocks", "load", "chunk", "local", "focal", "split", "slope",
       "sub", "rsub", "compare", "modf", "astype_nv", "where_scalars", "burn",
       "replace_null", "set_null", "clip", "dilate", "rebase",
       "reduce"]


@P.check(conv_cases(), quick=1400, weight=1.6)
def conversions(case, ctx):
    """xy/index/bounds/affine/geobox agree, before and after operations."""
    import dask.array as da
    from affine import Affine

    from raster_tools import data_to_raster, data_to_raster_like

    ref = gen.build_ref(case["a"])
    rng = np.random.default_rng(case["a"]["seed"])
    how = case["how"]
    nb, ny, nx = ref.shape
    rx, ry = ref.res
    left, top = ref.x[0] - rx / 2, ref.y[0] + ry / 2
    aff = Affine(rx, 0, left, 0, -ry, top)
    if how in ("xy", "xyflip") and 1 in (ny, nx):
        how = "affine"
    data = da.from_array(ref.data.copy(), chunks=ref.chunks)
    if how == "affine":
        r = data_to_raster(data, affine=aff, crs=ref.crs)
    elif how == "flipped":
        if 1 in (ny, nx):
            raise Reject
        d = data[:, :: -1 if case["fy"] else 1, :: -1 if case["fx"] else 1]
        fa = Affine(-rx if case["fx"] else rx, 0,
                    left + nx * rx if case["fx"] else left, 0,
                    ry if case["fy"] else -ry,
                    top - ny * ry if case["fy"] else top)
        r = data_to_raster(d, affine=fa, crs=ref.crs)
    elif how == "xyflip":
        d = data[:, :: -1 if case["fy"] else 1, :: -1 if case["fx"] else 1]
        r = data_to_raster(
            d, x=ref.x[:: -1 if case["fx"] else 1].copy(),
            y=ref.y[:: -1 if case["fy"] else 1].copy(), crs=ref.crs)
    elif how == "like":
        t = gen.to_raster(ref)
        r = data_to_raster_like(ref.data.copy(), t)
    elif how == "chunk":
        t = gen.to_raster(ref)
        pieces = t.get_chunk_rasters()
        k = tuple(int(rng.integers(n)) for n in pieces.shape)
        r = pieces[k]
        e = [np.concatenate([[0], np.cumsum(c)]) for c in t.data.chunks]
        sl = tuple(slice(int(e[i][k[i]]), int(e[i][k[i] + 1]))
                   for i in range(3))
        sub = gen.Ref(ref.data[sl], ref.mask[sl], ref.nv, ref.x[sl[2]],
                      ref.y[sl[1]], ref.crs)
        sub.res = ref.res
        ref = sub
    elif how == "default":
        r = data_to_raster(data) if 1 not in (ny, nx) else None
        if r is None:
            raise Reject
        ref.x, ref.y = np.arange(nx) + 0.5, np.arange(ny)[::-1] + 0.5
        ref.res, ref.crs = (1.0, 1.0), None
    else:
        r = gen.to_raster(ref)
    nv = how in ("chunk", "xy", "masked") and ref.nv is not None
    g = gen.get(r, how)
    gen.check_grid(g, ref, how)
    gen.check_cells(g, ref.data, ref.mask if nv else np.zeros_like(ref.mask),
                    how)
    check_conversions(r, ref, how, rng)
    op = case["op"]
    if op == "slope" and (ref.res[0] != ref.res[1]):
        op = "add"
    q = _ops()[op](r)
    g = gen.get(q, op)
    gen.check_grid(g, ref, op)
    check_conversions(q, ref, f"{how} then {op}", rng)
    ctx.nontrivial(ref.res != (1.0, 1.0) or ref.x[0] != 0.5)
    ctx.tag(how, op, "1d" if 1 in ref.shape[1:] else "2d")


@st.composite
def file_cases(draw):
    return {"a": draw(gen.rasters(
        dts=["int16", "float32"], bands=(1, 2), ny=(1, 9), nx=(1, 9),
        kinds=["arange"], masked=False)), "fy": draw(st.booleans())}


@P.check(file_cases(), quick=160, weight=0.4)
def files(case, ctx):
    """Files, south-up ones included, open with values in place."""
    import os

    import rasterio
    from affine import Affine

    import raster_tools as rts

    ref = gen.build_ref(case["a"])
    nb, ny, nx = ref.shape
    rx, ry = ref.res
    left, top = ref.x[0] - rx / 2, ref.y[0] + ry / 2
    fy = case["fy"] and 1 not in (ny, nx)
    aff = (Affine(rx, 0, left, 0, ry, top - ny * ry) if fy
           else Affine(rx, 0, left, 0, -ry, top))
    path = os.path.join(ctx.scratch(), "a.tif")
    with rasterio.open(path, "w", driver="GTiff", count=nb, height=ny,
                       width=nx, dtype=ref.dtype, transform=aff,
                       crs=ref.crs) as dst:
        dst.write(ref.data[:, ::-1] if fy else ref.data)
    r = rts.Raster(path)
    g = gen.get(r, "opened file")
    gen.check_grid(g, ref, "opened file")
    bad = ref.data != g.data
    require(not (bad & ~g.mask).any(), "opened file: values moved")
    check_conversions(r, ref, "opened file",
                      np.random.default_rng(case["a"]["seed"]))
    ctx.nontrivial(ref.data.size > 1)
    ctx.tag("south-up" if fy else "north-up")
