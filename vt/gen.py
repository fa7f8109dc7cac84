"""Generators for rasters (as JSON-able specs), builders and comparisons."""
import dask
import dask.array as da
import numpy as np
from hypothesis import strategies as st

from vt.core import fail, require

INTS = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32",
        "uint64"]
FLOATS = ["float32", "float64"]
ALL_DT = INTS + FLOATS + ["float16", "bool"]

CRSS = ["EPSG:3857", "EPSG:5070", "EPSG:4326", None]


def default_null(dt):
    return {
        "bool": True, "uint8": 255, "uint16": 65535, "uint32": 2**32 - 1,
        "uint64": 18_446_744_073_709_549_568, "int8": -128, "int16": -32768,
        "int32": -(2**31), "int64": -(2**63), "float16": -65504.0,
        "float32": -999999.0, "float64": -999999.0,
    }[str(np.dtype(dt))]


def nv_choices(dt):
    dt = np.dtype(dt)
    if dt.kind == "b":
        return [True]
    if dt.kind == "f":
        out = [float("nan"), -999.0, default_null(dt), 0.0, 1.0]
        return out
    ii = np.iinfo(dt)
    out = [default_null(dt), 0, 1, int(ii.max), int(ii.min)]
    if dt.kind == "i":
        out.append(-1)
    return sorted(set(out), key=out.index)


def chunk_parts(n, how, seed):
    """Split n into chunk sizes. how: 0 -> single, k>0 -> size k, -1 random."""
    if how == 0 or how >= n:
        return [n]
    if how > 0:
        out = [how] * (n // how)
        if n % how:
            out.append(n % how)
        return out
    rng = np.random.default_rng(seed)
    cuts = [i for i in range(1, n) if rng.random() < 0.4]
    edges = [0, *cuts, n]
    return [b - a for a, b in zip(edges[:-1], edges[1:])]


def chunking(maxn=12):
    return st.one_of(
        st.just(0), st.integers(1, 4), st.just(-1), st.integers(1, maxn)
    )


seeds = st.integers(0, 2**20)


@st.composite
def geos(draw, crs=None):
    c = draw(st.sampled_from(crs or CRSS))
    if c == "EPSG:4326":
        return {
            "x0": draw(st.sampled_from([0.0, -120.5, 10.0])),
            "y0": draw(st.sampled_from([0.0, 50.0, 33.25])),
            "rx": draw(st.sampled_from([1.0, 0.5, 0.1])),
            "ry": draw(st.sampled_from([1.0, 0.5, 0.25])),
            "crs": c,
        }
    return {
        "x0": draw(st.sampled_from([0.0, -2.0, 100.0, -1234.5, 500000.0])),
        "y0": draw(st.sampled_from([0.0, 3.0, 100.0, -777.25, 4000000.0])),
        "rx": draw(st.sampled_from([1.0, 1.0, 30.0, 0.5, 0.1, 7.5])),
        "ry": draw(st.sampled_from([1.0, 1.0, 30.0, 0.5, 0.1, 2.0])),
        "crs": c,
    }


UNIT_GEO = {"x0": 0.0, "y0": 0.0, "rx": 1.0, "ry": 1.0, "crs": "EPSG:3857"}


@st.composite
def rasters(draw, dts=None, bands=(1, 3), ny=(1, 10), nx=(1, 10), kinds=None,
            masked=None, geo=None, nvs=None, dens=None):
    """Spec of a raster. masked: None (either), True or False."""
    dt = draw(st.sampled_from(dts or INTS + FLOATS))
    k = np.dtype(dt).kind
    b = draw(st.integers(*bands)) if isinstance(bands, tuple) else bands
    y = draw(st.integers(*ny)) if isinstance(ny, tuple) else ny
    x = draw(st.integers(*nx)) if isinstance(nx, tuple) else nx
    if kinds is None:
        if k == "f":
            ks = ["small", "neg", "quarter", "normal", "arange"]
        else:
            ks = ["small", "neg", "mid", "wide", "arange"]
    else:
        ks = list(kinds)
    kind = draw(st.sampled_from(ks))
    m = draw(st.booleans()) if masked is None else masked
    nv = None
    density = 0.0
    if m:
        nv = draw(st.sampled_from(nvs if nvs is not None else nv_choices(dt)))
        density = draw(st.sampled_from(
            dens or [0.3, 0.1, 0.0, 0.6, 0.9, 1.0, "row", "col", "band",
                     "corner", "center"]))
    return {
        "b": b, "ny": y, "nx": x, "dt": dt, "kind": kind,
        "seed": draw(seeds), "nv": nv, "dens": density,
        "cy": draw(chunking()), "cx": draw(chunking()),
        "geo": draw(geo if geo is not None else geos()),
    }


def build_data(spec):
    rng = np.random.default_rng(spec["seed"])
    dt = np.dtype(spec["dt"])
    shape = (spec["b"], spec["ny"], spec["nx"])
    n = int(np.prod(shape))
    kind = spec["kind"]
    if dt.kind == "b":
        return rng.integers(0, 2, shape).astype(bool)
    if kind == "small":
        a = rng.integers(0, 5, shape)
    elif kind == "two":
        a = rng.integers(0, 2, shape)
    elif kind == "pos":
        a = rng.integers(1, 9, shape)
    elif kind == "neg":
        a = rng.integers(-5, 6, shape)
        if dt.kind == "u":
            a = np.abs(a)
    elif kind == "mid":
        a = rng.integers(0, 101, shape)
    elif kind == "const":
        a = np.full(shape, int(rng.integers(0, 5)))
    elif kind == "arange":
        a = np.arange(n).reshape(shape)
        if dt.kind in "iu":
            a = a % min(np.iinfo(dt).max, 2**40)
    elif kind == "wide":
        if dt.kind in "iu":
            ii = np.iinfo(dt)
            a = rng.integers(ii.min, ii.max, shape, dtype=dt, endpoint=True)
            return a
        a = (10.0 ** rng.uniform(-4, 4, shape)) * rng.choice([-1, 1], shape)
    elif kind == "quarter":
        a = rng.integers(-40, 41, shape) / 4
    elif kind == "normal":
        a = rng.normal(0, 10, shape)
    elif kind == "unit":
        a = rng.uniform(0, 1, shape)
    elif kind == "special":
        a = rng.integers(-3, 4, shape).astype(float)
        pool = np.array([np.nan, np.inf, -np.inf, -0.0])
        pick = rng.random(shape) < 0.3
        a[pick] = rng.choice(pool, int(pick.sum()))
    else:
        raise ValueError(kind)
    return a.astype(dt)


def build_mask(spec):
    shape = (spec["b"], spec["ny"], spec["nx"])
    d = spec["dens"]
    rng = np.random.default_rng(spec["seed"] + 7919)
    m = np.zeros(shape, bool)
    if spec["nv"] is None:
        return m
    if d == "row":
        m[:, int(rng.integers(shape[1])), :] = True
    elif d == "col":
        m[:, :, int(rng.integers(shape[2]))] = True
    elif d == "band":
        m[int(rng.integers(shape[0]))] = True
    elif d == "corner":
        m[:, : (shape[1] + 1) // 2, : (shape[2] + 1) // 2] = True
    elif d == "center":
        m[:, shape[1] // 2, shape[2] // 2] = True
    else:
        m = rng.random(shape) < d
    return m


def isnan(v):
    return isinstance(v, (float, np.floating)) and bool(np.isnan(v))


def eq_nv(a, nv):
    a = np.asarray(a)
    if nv is None:
        return np.zeros(a.shape, bool)
    if isnan(nv):
        return np.isnan(a) if a.dtype.kind == "f" else np.zeros(a.shape, bool)
    return a == nv


class Ref:
    """In-memory model of a raster."""

    def __init__(self, data, mask, nv, x, y, crs, chunks=None):
        self.data = data
        self.mask = mask
        self.nv = nv
        self.x = x
        self.y = y
        self.crs = crs
        self.chunks = chunks
        self.affine = None
        self.res = None

    @property
    def shape(self):
        return self.data.shape

    @property
    def dtype(self):
        return self.data.dtype

    @property
    def masked(self):
        return self.nv is not None


def coords(spec):
    g = spec["geo"]
    x = g["x0"] + (np.arange(spec["nx"]) + 0.5) * g["rx"]
    y = g["y0"] - (np.arange(spec["ny"]) + 0.5) * g["ry"]
    return x, y


def build_ref(spec):
    data = build_data(spec)
    mask = build_mask(spec)
    dt = data.dtype
    nv = spec["nv"]
    if nv is not None:
        nv = dt.type(nv)
        if dt.kind != "b":
            bad = eq_nv(data, nv) & ~mask
            if bad.any():
                if dt.kind == "f":
                    alt = dt.type(2.5)
                else:
                    ii = np.iinfo(dt)
                    alt = dt.type(int(nv) - 1 if int(nv) == ii.max
                                  else int(nv) + 1)
                data = np.where(bad, alt, data)
        data = np.where(mask, nv, data).astype(dt)
    x, y = coords(spec)
    chunks = (
        (1,) * spec["b"],
        tuple(chunk_parts(spec["ny"], spec["cy"], spec["seed"] + 1)),
        tuple(chunk_parts(spec["nx"], spec["cx"], spec["seed"] + 2)),
    )
    ref = Ref(data, mask, nv, x, y, spec["geo"]["crs"], chunks)
    g = spec["geo"]
    ref.res = (g["rx"], g["ry"])
    if 1 in data.shape[1:]:
        ref.affine = (g["rx"], 0.0, g["x0"], 0.0, -g["ry"], g["y0"])
    return ref


def to_raster(ref, chunks=None):
    from raster_tools import data_to_raster

    chunks = chunks or ref.chunks
    data = da.from_array(ref.data.copy(), chunks=chunks)
    kw = {}
    if ref.nv is not None:
        kw = {"mask": da.from_array(ref.mask.copy(), chunks=chunks),
              "nv": ref.nv}
    if ref.affine is not None:
        from affine import Affine

        # one row or column: the coordinates alone do not give the cell size
        return data_to_raster(
            data, affine=Affine(*ref.affine), crs=ref.crs, **kw
        )
    return data_to_raster(
        data, x=ref.x.copy(), y=ref.y.copy(), crs=ref.crs, **kw
    )


def make(spec, chunks=None):
    ref = build_ref(spec)
    return to_raster(ref, chunks), ref


# ---------------------------------------------------------------- comparing


def same_cells(a, b):
    """Elementwise equality with NaN == NaN."""
    a = np.asarray(a)
    b = np.asarray(b)
    with np.errstate(all="ignore"):
        eq = a == b
        if a.dtype.kind in "fc" and b.dtype.kind in "fc":
            eq = eq | (np.isnan(a) & np.isnan(b))
    return eq


def close_cells(a, b, rtol, atol):
    a = np.asarray(a).astype("float64")
    b = np.asarray(b).astype("float64")
    return np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)


def same_nv(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isnan(a) or isnan(b):
        return isnan(a) and isnan(b)
    return bool(a == b)


def same_crs(a, b):
    from rasterio.crs import CRS

    if a is None or b is None:
        return a is None and b is None
    return CRS.from_user_input(a) == CRS.from_user_input(b)


def where_diff(bad, *arrays):
    idx = np.argwhere(bad)
    out = []
    for i in idx[:3]:
        t = tuple(int(j) for j in i)
        out.append(f"{t}: " + " vs ".join(repr(a[t]) for a in arrays))
    return f"{len(idx)} cell(s) differ, e.g. " + "; ".join(out)


class Got:
    """Computed view of a raster result."""

    def __init__(self, r):
        data, mask = dask.compute(r.data, r.mask)
        self.data = np.asarray(data)
        self.mask = np.asarray(mask)
        self.nv = r.null_value
        self.x = np.asarray(r.x)
        self.y = np.asarray(r.y)
        self.crs = r.crs
        self.dtype = np.dtype(r.dtype)
        self.shape = tuple(r.shape)
        self.chunks = r.data.chunks


def get(r, what="result"):
    """Compute a raster after checking that it is in normal form."""
    import raster_tools as rts

    require(isinstance(r, rts.Raster), "%s is not a raster: %r", what, type(r))
    return check_normal(r, what)


def check_normal(r, what="result", blocks=False):
    xd, xm = r.xdata, r.xmask
    require(tuple(xd.dims) == ("band", "y", "x"), "%s: dims %s", what, xd.dims)
    require(tuple(xm.dims) == ("band", "y", "x"),
            "%s: mask dims %s", what, xm.dims)
    require(dask.is_dask_collection(r.data) and dask.is_dask_collection(r.mask),
            "%s: data or mask is not lazy", what)
    require(np.dtype(r.mask.dtype) == np.dtype(bool),
            "%s: mask dtype %s", what, r.mask.dtype)
    require(r.data.shape == r.mask.shape == tuple(r.shape),
            "%s: shapes data %s mask %s", what, r.data.shape, r.mask.shape)
    require(r.data.chunks == r.mask.chunks,
            "%s: chunks of data %s and mask %s", what, r.data.chunks,
            r.mask.chunks)
    require(all(c == 1 for c in r.data.chunks[0]),
            "%s: band chunks %s", what, r.data.chunks[0])
    for xo, nm in ((xd, "data"), (xm, "mask")):
        require(list(np.asarray(xo.band)) == list(range(1, r.shape[0] + 1)),
                "%s: %s bands %s", what, nm, list(np.asarray(xo.band)))
        require(np.all(np.diff(np.asarray(xo.x)) > 0),
                "%s: %s x not increasing", what, nm)
        require(np.all(np.diff(np.asarray(xo.y)) < 0),
                "%s: %s y not decreasing", what, nm)
        require(len(xo.x) == r.shape[2] and len(xo.y) == r.shape[1],
                "%s: %s coords do not match shape", what, nm)
    require(np.array_equal(xd.x, xm.x) and np.array_equal(xd.y, xm.y),
            "%s: mask and data coordinates differ", what)
    require(same_crs(xd.rio.crs, xm.rio.crs),
            "%s: mask crs %s data crs %s", what, xm.rio.crs, xd.rio.crs)
    require(same_crs(r.crs, xd.rio.crs), "%s: crs", what)
    g = Got(r)
    require(g.data.shape == g.shape and g.mask.shape == g.shape,
            "%s: computed shape %s mask %s declared %s", what, g.data.shape,
            g.mask.shape, g.shape)
    require(g.data.dtype == g.dtype == np.dtype(r.data.dtype),
            "%s: computed dtype %s declared %s", what, g.data.dtype, g.dtype)
    require(g.mask.dtype == np.dtype(bool), "%s: computed mask dtype %s",
            what, g.mask.dtype)
    if g.nv is None:
        require(not g.mask.any(), "%s: null cells but no null value", what)
    else:
        bad = g.mask & ~eq_nv(g.data, g.nv)
        if bad.any():
            fail(f"{what}: null cell does not hold null value {g.nv!r}: "
                 + where_diff(bad, g.data))
    if blocks:
        check_blocks(r, what)
    return g


def check_blocks(r, what="result"):
    """Every block has the declared shape and data type."""
    for arr, nm in ((r.data, "data"), (r.mask, "mask")):
        nb = arr.numblocks
        parts = [arr.blocks[i] for i in np.ndindex(*nb)]
        vals = dask.compute(*parts)
        for i, v in zip(np.ndindex(*nb), vals):
            want = tuple(arr.chunks[d][i[d]] for d in range(3))
            require(np.shape(v) == want, "%s: %s block %s has shape %s not %s",
                    what, nm, i, np.shape(v), want)
            require(np.asarray(v).dtype == arr.dtype,
                    "%s: %s block %s has dtype %s not %s", what, nm, i,
                    np.asarray(v).dtype, arr.dtype)


def same_coords(a, b, res=None):
    """Equal up to a millionth of a cell."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if res is None:
        res = np.abs(np.diff(b)).min() if b.size > 1 else 1e-3
    tol = 1e-6 * abs(res) + 1e-13 * np.abs(b).max(initial=0)
    return bool((np.abs(a - b) <= tol).all())


def check_grid(g, ref, what="result"):
    rx, ry = ref.res if ref.res is not None else (None, None)
    require(same_coords(g.x, ref.x, rx) and same_coords(g.y, ref.y, ry),
            "%s: grid changed: x %s.. y %s.. expected x %s.. y %s..", what,
            g.x[:3], g.y[:3], ref.x[:3], ref.y[:3])
    require(same_crs(g.crs, ref.crs), "%s: crs %s expected %s", what, g.crs,
            ref.crs)


def check_cells(g, data, mask, what="result", rtol=None, atol=0.0,
                dtype=None):
    """Compare a Got with expected data (valid cells only) and mask."""
    data = np.asarray(data)
    mask = np.asarray(mask)
    require(g.data.shape == data.shape, "%s: shape %s expected %s", what,
            g.data.shape, data.shape)
    if dtype is not None:
        require(g.dtype == np.dtype(dtype), "%s: dtype %s expected %s", what,
                g.dtype, np.dtype(dtype))
    bad = g.mask != mask
    if bad.any():
        fail(f"{what}: null mask wrong (got vs expected): "
             + where_diff(bad, g.mask, mask))
    if rtol is None:
        ok = same_cells(g.data, data)
    else:
        ok = close_cells(g.data, data, rtol, atol)
    bad = ~ok & ~mask
    if bad.any():
        fail(f"{what}: values wrong (got vs expected): "
             + where_diff(bad, g.data, data))
