"""C21: padding and box clipping change the extent but never a cell."""
import numpy as np
from hypothesis import strategies as st

from vt import aligned, gen
from vt.core import Prop, Reject, require

P = Prop(
    "C21",
    "case = (raster, target extent or box); non-trivial when the extent "
    "changes",
)

DTS = ["uint8", "int8", "int16", "uint16", "int32", "uint32", "int64",
       "uint64", "float32", "float64"]
KINDS = ["small", "neg", "mid", "arange"]


@st.composite
def pads(draw):
    a = draw(gen.rasters(dts=DTS, kinds=KINDS, ny=(1, 8), nx=(1, 8)))
    quarters = st.sampled_from([0, 0, 4, 8, 12, 1, 2, 3, 6, 9, 11, -4, -6,
                                -100])
    return {
        "a": a,
        # in quarters of a cell outwards: left, bottom, right, top
        "out": draw(st.lists(quarters, min_size=4, max_size=4)),
        "fill": draw(st.sampled_from(["none", "none", "one", "nv", "list",
                                      "listnv"])),
        "vals": draw(st.lists(st.integers(0, 100), min_size=3, max_size=3)),
        "target": draw(st.sampled_from(["tuple", "list", "array", "raster",
                                        "geobox"])),
        "tcrs": draw(st.booleans()),
    }


def near_int(v):
    return abs(v - round(v)) < 1e-6


@P.check(pads(), quick=1500, weight=1.3)
def pad(case, ctx):
    import raster_tools as rts
    from affine import Affine
    from odc.geo.geobox import GeoBox

    r, ref = gen.make(case["a"])
    rx, ry = ref.res
    e = aligned.edges(ref)
    o = [q / 4 for q in case["out"]]
    want = [e[0] - o[0] * rx, e[1] - o[1] * ry, e[2] + o[2] * rx,
            e[3] + o[3] * ry]
    if want[2] - want[0] < rx / 8:
        want[0], want[2] = e[0], e[2]
    if want[3] - want[1] < ry / 8:
        want[1], want[3] = e[1], e[3]
    kind = case["target"]
    crs = ref.crs if case["tcrs"] else None
    if kind in ("raster", "geobox"):
        # any resolution will do, only the bounds count
        aff = Affine((want[2] - want[0]) / 3, 0, want[0], 0,
                     -(want[3] - want[1]) / 2, want[3])
        gb = GeoBox((2, 3), aff, crs)
        target = gb
        if kind == "raster":
            target = rts.data_to_raster(np.zeros((1, 2, 3)), affine=aff,
                                        crs=crs)
    else:
        target = {"tuple": tuple, "list": list, "array": np.array}[kind](want)
    nb = ref.shape[0]
    vals = case["vals"][:nb]
    fill = case["fill"]
    kw = {}
    if fill == "one":
        kw["fill_values"] = vals[0]
        vals = [vals[0]] * nb
    elif fill == "nv":
        if ref.nv is None:
            raise Reject
        kw["fill_values"] = ref.nv
        vals = [ref.nv] * nb
    elif fill == "list":
        kw["fill_values"] = list(vals)
    elif fill == "listnv":
        if ref.nv is None:
            raise Reject
        vals[-1] = ref.nv
        kw["fill_values"] = tuple(vals)
    q = rts.pad(r, target, **kw)
    g = gen.get(q, "pad")
    require(g.dtype == ref.dtype, "pad: dtype %s of %s", g.dtype, ref.dtype)
    require(gen.same_crs(g.crs, ref.crs), "pad: crs %s", g.crs)
    nv = ref.nv
    if fill == "none" and nv is None:
        nv = gen.default_null(ref.dtype)
    require(gen.same_nv(g.nv, nv), "pad: null value %r expected %r", g.nv, nv)
    # how many cells were added on each side
    c0 = int(round((ref.x[0] - g.x[0]) / rx))
    r0 = int(round((g.y[0] - ref.y[0]) / ry))
    c1 = g.shape[2] - c0 - ref.shape[2]
    r1 = g.shape[1] - r0 - ref.shape[1]
    require(min(c0, r0, c1, r1) >= 0, "pad: lost cells: x %s y %s", g.x, g.y)
    xs = ref.x[0] + (np.arange(g.shape[2]) - c0) * rx
    ys = ref.y[0] - (np.arange(g.shape[1]) - r0) * ry
    require(gen.same_coords(g.x, xs, rx) and gen.same_coords(g.y, ys, ry),
            "pad: not on the grid: x %s y %s expected x %s y %s", g.x, g.y,
            xs, ys)
    for got, w, nm in zip((c0, r1, c1, r0),
                          ((e[0] - want[0]) / rx, (e[1] - want[1]) / ry,
                           (want[2] - e[2]) / rx, (want[3] - e[3]) / ry),
                          ("left", "bottom", "right", "top")):
        lo = max(0, int(np.ceil(w - 1e-6)))
        # aligned targets may gain a cell by rounding of floats
        hi = lo + (1 if near_int(w) and w > -1e-6 else 0)
        require(lo <= got <= hi, "pad: %d cells added %s, needed %d", got, nm,
                lo)
    res = np.abs(q.resolution)
    require(np.allclose(res, ref.res), "pad: resolution %s", q.resolution)
    data = np.empty(g.shape, ref.dtype)
    mask = np.zeros(g.shape, bool)
    for b in range(nb):
        if fill == "none":
            mask[b] = True
            data[b] = nv
        else:
            data[b] = ref.dtype.type(vals[b])
            mask[b] = bool(gen.eq_nv(ref.dtype.type(vals[b]), ref.nv))
    s = np.s_[:, r0:r0 + ref.shape[1], c0:c0 + ref.shape[2]]
    data[s] = ref.data
    mask[s] = ref.mask
    gen.check_cells(g, data, mask, "pad", dtype=ref.dtype)
    ctx.nontrivial(g.shape != ref.shape)
    ctx.tag(fill, kind)


@st.composite
def boxes(draw):
    a = draw(gen.rasters(dts=DTS, kinds=KINDS, ny=(2, 10), nx=(2, 10)))
    # eighths of a cell from the left/top edge of the raster
    x = sorted([draw(st.integers(-10, 8 * a["nx"] + 10)) for _ in range(2)])
    y = sorted([draw(st.integers(-10, 8 * a["ny"] + 10)) for _ in range(2)])
    snap = draw(st.booleans())
    if snap:
        x = [8 * (v // 8) for v in x]
        y = [8 * (v // 8) for v in y]
    return {"a": a, "x": x, "y": y,
            "as": draw(st.sampled_from(["tuple", "list", "array"]))}


def span(lo, hi, n):
    """Cells that the interval (in eighths) overlaps."""
    a = int(np.floor(lo / 8 + 1e-9))
    b = int(np.ceil(hi / 8 - 1e-9))
    return max(0, a), min(n, b)


@P.check(boxes(), quick=1500, weight=1)
def clip_box(case, ctx):
    import raster_tools as rts

    ref = gen.build_ref(case["a"])
    (x0, x1), (y0, y1) = case["x"], case["y"]
    if x1 - x0 < 4 or y1 - y0 < 4:
        raise Reject
    a, b = span(x0, x1, ref.shape[2])
    c, d = span(y0, y1, ref.shape[1])
    if b - a < 1 or d - c < 1:
        raise Reject
    r = gen.to_raster(ref)
    rx, ry = ref.res
    e = aligned.edges(ref)
    box = (e[0] + x0 / 8 * rx, e[3] - y1 / 8 * ry, e[0] + x1 / 8 * rx,
           e[3] - y0 / 8 * ry)
    box = {"tuple": tuple, "list": list, "array": np.array}[case["as"]](box)
    q = rts.clipping.clip_box(r, box)
    g = gen.get(q, "clip_box")
    c0 = int(round((g.x[0] - ref.x[0]) / rx))
    r0 = int(round((ref.y[0] - g.y[0]) / ry))
    c1, r1 = c0 + g.shape[2], r0 + g.shape[1]
    require(c0 >= 0 and r0 >= 0 and c1 <= ref.shape[2] and r1 <= ref.shape[1],
            "clip_box: leaves the raster: rows %d:%d cols %d:%d of %s", r0,
            r1, c0, c1, ref.shape)
    snapx = [v % 8 == 0 for v in (x0, x1)]
    snapy = [v % 8 == 0 for v in (y0, y1)]
    if b - a > 1 and d - c > 1:
        # on a cell edge float rounding decides about the touching cell
        for got, w, sn, nm in ((c0, a, snapx[0], "left"),
                               (r0, c, snapy[0], "top")):
            require(got == w or (sn and got == w - 1),
                    "clip_box: starts at %d not %d (%s)", got, w, nm)
        for got, w, sn, nm in ((c1, b, snapx[1], "right"),
                               (r1, d, snapy[1], "bottom")):
            require(got == w or (sn and got == w + 1),
                    "clip_box: ends at %d not %d (%s)", got, w, nm)
    else:
        # grown to two rows and columns; it still holds the cells in the box
        require(c0 <= a and c1 >= b and r0 <= c and r1 >= d
                and c1 - c0 <= b - a + 3 and r1 - r0 <= d - c + 3,
                "clip_box: rows %d:%d cols %d:%d for %d:%d %d:%d", r0, r1, c0,
                c1, c, d, a, b)
    s = np.s_[:, r0:r1, c0:c1]
    require(gen.same_coords(g.x, ref.x[c0:c1], rx)
            and gen.same_coords(g.y, ref.y[r0:r1], ry),
            "clip_box: position x %s y %s", g.x, g.y)
    require(gen.same_crs(g.crs, ref.crs), "clip_box: crs %s", g.crs)
    require(gen.same_nv(g.nv, ref.nv), "clip_box: null value %r", g.nv)
    gen.check_cells(g, ref.data[s], ref.mask[s], "clip_box", dtype=ref.dtype)
    ctx.nontrivial(g.shape != ref.shape)
