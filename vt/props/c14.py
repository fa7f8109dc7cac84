"""C14: surface measures equal their published formulas cell by cell."""
import math

import numpy as np
from hypothesis import strategies as st

from vt import gen
from vt.core import Prop, Reject, require
from vt.props import c12

P = Prop(
    "C14",
    "case = (elevation raster, surface measure, chunking); non-trivial when "
    "some cell has a complete valid neighbourhood that is not flat",
)

DTS = ["uint8", "int16", "int32", "int64", "uint16", "uint32", "float32",
       "float64", "float64"]
QUICK_DTS = ["uint8", "int32", "float32", "float64", "float64"]


def esri_gradient(w, rx, ry):
    """dz/dx towards the east and dz/dy towards the south."""
    (a, b, c), (d, _, f), (g, h, i) = w
    return (((c + 2 * f + i) - (a + 2 * d + g)) / (8 * rx),
            ((g + 2 * h + i) - (a + 2 * b + c)) / (8 * ry))


def f_slope(w, rx, ry, degrees=True):
    p, q = esri_gradient(w, rx, ry)
    s = math.hypot(p, q)
    return math.degrees(math.atan(s)) if degrees else s


def f_aspect(w, rx, ry):
    p, q = esri_gradient(w, 1, 1)
    if p == 0 and q == 0:
        return -1.0
    # compass direction of the steepest descent: east is -p, north is q
    return math.degrees(math.atan2(-p, q)) % 360


def f_curvature(w, rx, ry):
    (_, z2, _), (z4, z5, z6), (_, z8, _) = w
    return -2 * ((z4 + z6) / 2 - z5 + (z2 + z8) / 2 - z5) * 100 / (rx * ry)


def f_hillshade(w, rx, ry, azimuth, altitude):
    """Shade of a plane: the cosine between its normal and the sun."""
    p, q = esri_gradient(w, rx, ry)
    alt, az = math.radians(altitude), math.radians(azimuth)
    sun = (math.cos(alt) * math.sin(az), math.cos(alt) * math.cos(az),
           math.sin(alt))
    n = (-p, q, 1.0)
    dot = sum(u * v for u, v in zip(sun, n)) / math.sqrt(p * p + q * q + 1)
    return max(0.0, 255 * dot)


def f_area(w, rx, ry):
    """Jenness: eight triangles to the neighbours' centres, halved sides."""
    ring = [(-1, -1), (-1, 0), (-1, 1), (0, 1), (1, 1), (1, 0), (1, -1),
            (0, -1)]
    e = np.array([0.0, 0.0, w[1][1]])
    pts = [np.array([j * rx, i * ry, w[1 + i][1 + j]]) for i, j in ring]
    total = 0.0
    for k in range(8):
        u, v = (pts[k] - e) / 2, (pts[(k + 1) % 8] - e) / 2
        total += math.sqrt(float((np.cross(u, v) ** 2).sum())) / 2
    return total


ALL = [(i, j) for i in range(3) for j in range(3)]
USES = {
    "slope": [p for p in ALL if p != (1, 1)],
    "aspect": [p for p in ALL if p != (1, 1)],
    "curvature": [(0, 1), (1, 0), (1, 1), (1, 2), (2, 1)],
    "hillshade": [p for p in ALL if p != (1, 1)],
    "surface_area_3d": ALL,
    "northing": [p for p in ALL if p != (1, 1)],
    "easting": [p for p in ALL if p != (1, 1)],
}


def windows3(ref):
    for b in range(ref.shape[0]):
        for r in range(1, ref.shape[1] - 1):
            for c in range(1, ref.shape[2] - 1):
                yield b, r, c


def model(ref, name, fn):
    """(values, null mask, flat mask)"""
    rx, ry = ref.res
    rx, ry = abs(rx), abs(ry)
    data = ref.data.astype("float64")
    out = np.zeros(ref.shape)
    null = np.ones(ref.shape, bool)
    flat = np.zeros(ref.shape, bool)
    for b, r, c in windows3(ref):
        m = ref.mask[b, r - 1:r + 2, c - 1:c + 2]
        if m[1, 1] or any(m[p] for p in USES[name]):
            continue
        w = data[b, r - 1:r + 2, c - 1:c + 2].tolist()
        null[b, r, c] = False
        out[b, r, c] = fn(w, rx, ry)
        p, q = esri_gradient(w, 1, 1)
        flat[b, r, c] = p == 0 and q == 0
    return out, null, flat


KINDS = ["small", "neg", "mid", "arange", "mid"]
NAMES = ["slope", "percent", "aspect", "curvature", "hillshade",
         "surface_area_3d", "northing", "easting"]
FN = {"slope": f_slope, "aspect": f_aspect, "curvature": f_curvature,
      "surface_area_3d": f_area}


@st.composite
def elevations(draw, bands=3):
    dt = draw(st.sampled_from(DTS))
    kinds = KINDS + (["quarter", "normal"] if dt.startswith("f") else [])
    return draw(gen.rasters(
        dts=[dt], bands=(1, bands), ny=(1, 9), nx=(1, 9), kinds=kinds))


@st.composite
def cases(draw):
    spec = draw(elevations())
    # leave most neighbourhoods complete
    if spec["nv"] is not None:
        spec["dens"] = draw(st.sampled_from(
            [0.05, 0.1, 0.1, 0.2, "corner", "center", "row", "band", 0.0]))
    return {"r": spec, "f": draw(st.sampled_from(NAMES)),
            "az": draw(st.sampled_from([315, 0, 45, 90.0, 200.5, 360, 180])),
            "alt": draw(st.sampled_from([45, 0, 30, 60.5, 10, 80]))}


def tol(ref):
    return 1e-4 if ref.dtype == np.dtype("float32") else 1e-9


def compare(g, exp, null, ref, what, dtype="float64", rtol=1e-9, atol=1e-9,
            skip=None, period=None):
    """Cells of g equal exp; null exactly where null says; skip: either."""
    gen.check_grid(g, ref)
    require(g.dtype == np.dtype(dtype), f"{what}: dtype {g.dtype}")
    got, gm = np.asarray(g.data), np.asarray(g.mask)
    skip = np.zeros(null.shape, bool) if skip is None else skip
    bad = (gm != null) & ~skip
    require(not bad.any(), f"{what}: nulls differ from the model at "
            f"{np.argwhere(bad)[:4].tolist()}: null {gm[bad][:4].tolist()}")
    ok = ~null & ~skip
    d = np.abs(got.astype("float64") - exp)
    if period:
        d = np.minimum(d, np.abs(period - d))
    bad = ok & ~(d <= atol + rtol * np.abs(exp))
    require(not bad.any(), f"{what}: values differ at "
            f"{np.argwhere(bad)[:4].tolist()}: got {got[bad][:4].tolist()} "
            f"expected {exp[bad][:4].tolist()}")


def run(case, raster, ref):
    import raster_tools.surface as sf

    f = case["f"]
    t = tol(ref)
    if f in ("slope", "percent"):
        deg = f == "slope"
        exp, null, flat = model(
            ref, "slope", lambda w, x, y: f_slope(w, x, y, deg))
        g = sf.slope(raster) if deg else sf.slope(raster, degrees=False)
        return g, exp, null, flat, dict(rtol=t, atol=t)
    if f == "hillshade":
        exp, null, flat = model(
            ref, f, lambda w, x, y: f_hillshade(w, x, y, case["az"],
                                                case["alt"]))
        g = sf.hillshade(raster, azimuth=case["az"], altitude=case["alt"])
        # truncated to whole shades; a shade of 255 is the null value
        return g, exp - 0.5, null, flat, dict(
            dtype="uint8", atol=0.501, rtol=0, skip=exp > 254.9)
    if f in ("northing", "easting"):
        tr = math.cos if f == "northing" else math.sin
        exp, null, flat = model(
            ref, "aspect", lambda w, x, y: tr(math.radians(f_aspect(w, x, y))))
        g = getattr(sf, f)(raster)
        # flat cells have no direction
        return g, exp, null, flat, dict(atol=t,
                                        rtol=t)
    exp, null, flat = model(ref, f, FN[f])
    g = getattr(sf, f)(raster)
    kw = dict(rtol=t, atol=t)
    if f == "aspect":
        kw = dict(atol=max(t, 1e-9) * 10, rtol=0)
    return g, exp, null, flat, kw


@P.check(cases(), quick=700, thorough=9000, weight=3)
def formula(case, ctx):
    raster, ref = gen.make(case["r"])
    g, exp, null, flat, kw = run(case, raster, ref)
    g = gen.get(g)
    f = case["f"]
    if (~null & ~flat).any():
        ctx.nontrivial()
    ctx.tag(f, "masked" if ref.masked else "unmasked", str(ref.dtype))
    if flat.any():
        ctx.tag("flat cells")
    if f in ("northing", "easting"):
        # flat cells have no direction: any value, but not null
        got, gm = np.asarray(g.data), np.asarray(g.mask)
        require(not gm[flat & ~null].any(), f"{f}: flat cells are null")
        exp = np.where(flat, got, exp)
    if f == "aspect":
        got = np.asarray(g.data)
        require(((got[~null] == -1) | ((got[~null] >= 0)
                                       & (got[~null] <= 360))).all(),
                "aspect outside -1 and 0..360")
        # rounding can only hide which way a slope faces, not that it slopes
        compare(g, np.where(flat, 0, exp), null | flat, ref, f,
                period=360, skip=flat, **kw)
        require((got[flat & ~null] == -1).all(), "flat cells are not -1")
    else:
        compare(g, exp, null, ref, f, **kw)
    want = 255 if f == "hillshade" else gen.default_null("float64")
    require(g.nv == want, f"{f}: null value {g.nv}")


@st.composite
def aspect_rasters(draw):
    spec = draw(gen.rasters(
        dts=["int16", "int32", "float32", "float64"], ny=(1, 7), nx=(1, 7),
        kinds=["mid", "neg", "arange"]))
    return {"r": spec, "f": draw(st.sampled_from(["northing", "easting"]))}


@P.check(aspect_rasters(), quick=250, thorough=2500)
def of_aspect(case, ctx):
    import raster_tools.surface as sf

    raster, ref = gen.make(case["r"])
    g = gen.get(getattr(sf, case["f"])(raster, is_aspect=True))
    tr = np.cos if case["f"] == "northing" else np.sin
    exp = tr(np.radians(ref.data.astype("float64")))
    if (~ref.mask).any():
        ctx.nontrivial()
    require(g.dtype.kind == "f", f"dtype {g.dtype}")
    compare(g, exp, ref.mask, ref, case["f"], dtype=g.dtype, rtol=1e-5,
            atol=1e-5)


@st.composite
def tpi_cases(draw):
    spec = draw(elevations(bands=2))
    a = draw(st.integers(0, 3))
    return {"r": spec, "a": a, "b": a + draw(st.integers(1, 3))}


@P.check(tpi_cases(), quick=250, thorough=3000)
def tpi(case, ctx):
    import raster_tools.surface as sf

    raster, ref = gen.make(case["r"])
    a, b = case["a"], case["b"]
    win = c12.model_window(b if a == 0 else [a, b], None)
    if c12.too_big(win, ref.shape):
        raise Reject("window larger than the raster")
    mean, empty = c12.brute(ref, win, "mean")
    if not ref.masked and empty.any():
        raise Reject("windows without cells in an unmasked raster")
    null = ref.mask | empty
    exact = ref.data.astype("float64") - mean + 0.5
    g = gen.get(sf.tpi(raster, a, b))
    if win.sum() > 1 and (~null).any():
        ctx.nontrivial()
    ctx.tag(f"annulus {a},{b}" if a else f"circle {b}")
    near = np.abs(exact - np.round(exact)) < 1e-3
    exp = np.where(near, exact, np.trunc(exact))
    d = np.abs(np.asarray(g.data).astype("float64") - exp)
    gen.check_grid(g, ref)
    require(g.dtype == np.dtype("int32"), f"dtype {g.dtype}")
    got = np.asarray(g.mask)
    require(np.array_equal(got, null), "tpi: nulls differ from the model")
    bad = ~null & ~(d <= np.where(near, 1.01, 0))
    require(not bad.any(), f"tpi differs at {np.argwhere(bad)[:3].tolist()}: "
            f"got {np.asarray(g.data)[bad][:3].tolist()} expected "
            f"{exact[bad][:3].tolist()}")


@st.composite
def transformed(draw):
    spec = draw(gen.rasters(
        dts=["float64", "int32"], bands=1, ny=(3, 8), nx=(3, 8),
        kinds=["neg", "mid", "small"], nvs=[-999999]))
    spec["geo"] = dict(spec["geo"], ry=spec["geo"]["rx"])
    return {"r": spec, "turns": draw(st.integers(1, 3)),
            "plus": draw(st.integers(-50, 1000)),
            "f": draw(st.sampled_from(
                ["slope", "aspect", "curvature", "surface_area_3d"]))}


@P.check(transformed(), quick=150, thorough=1500)
def turning(case, ctx):
    """Turning the terrain turns aspect; lifting it changes nothing."""
    import raster_tools.surface as sf

    raster, ref = gen.make(case["r"])
    k = case["turns"]
    f = getattr(sf, case["f"])
    base = gen.get(f(raster))
    lifted = gen.get(f(raster + case["plus"]))
    require(np.array_equal(base.mask, lifted.mask), "lifting changed nulls")
    ok = ~base.mask
    require(np.allclose(base.data[ok], lifted.data[ok], 1e-9, 1e-9),
            f"{case['f']} changed when a constant was added")
    data = np.rot90(ref.data, -k, axes=(1, 2))   # clockwise
    mask = np.rot90(ref.mask, -k, axes=(1, 2))
    geo = case["r"]["geo"]
    ny, nx = data.shape[1:]
    ref2 = gen.Ref(
        data.copy(), mask.copy(), ref.nv,
        geo["x0"] + (np.arange(nx) + 0.5) * geo["rx"],
        geo["y0"] - (np.arange(ny) + 0.5) * geo["ry"], ref.crs,
        ((1,), (ny,), (nx,)))
    turned = gen.get(f(gen.to_raster(ref2)))
    tm = np.rot90(base.mask, -k, axes=(1, 2))
    td = np.rot90(base.data, -k, axes=(1, 2))
    require(np.array_equal(turned.mask, tm), "turning moved nulls elsewhere")
    ok = ~tm
    if ok.any():
        ctx.nontrivial()
    ctx.tag(case["f"], f"{k} turns")
    if case["f"] == "aspect":
        exp = np.where(td == -1, -1, (td + 90 * k) % 360)
        d = np.abs(turned.data - exp)
        d = np.where(td == -1, d, np.minimum(d, np.abs(360 - d)))
    else:
        d = np.abs(turned.data - td) / (1 + np.abs(td))
    require((d[ok] < 1e-7).all(), f"{case['f']} of the turned terrain differs "
            f"by {d[ok][:9].tolist()}")
