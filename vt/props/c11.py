"""C11: aggregation summarises exactly each block of cells."""
import math

import numpy as np
from hypothesis import strategies as st

from vt import gen
from vt.core import Prop, Reject, require
from vt.props.c12 import stat_of

P = Prop(
    "C11",
    "case = (raster, block size, statistic); non-trivial when there are "
    "several output cells and blocks of several cells",
)

STATS = ["mean", "std", "var", "max", "min", "prod", "sum", "mode", "median",
         "unique", "entropy", "asm"]
DTS = ["uint8", "int8", "int16", "uint16", "int32", "uint32", "int64",
       "float32", "float64"]

cases = st.fixed_dictionaries({
    "a": gen.rasters(dts=DTS, bands=(1, 2), ny=(1, 12), nx=(1, 12),
                     kinds=["small", "neg", "two", "const", "pos"]),
    "size": st.lists(st.integers(1, 6), min_size=2, max_size=2),
    "stat": st.sampled_from(STATS), "as": st.sampled_from(
        ["tuple", "list", "array"]), "upper": st.booleans(),
})


@P.check(cases, quick=2600)
def aggregate(case, ctx):
    import raster_tools as rts

    r, ref = gen.make(case["a"])
    h, w = case["size"]
    nb, ny, nx = ref.shape
    oy, ox = ny // h, nx // w
    if (h, w) == (1, 1) or not oy or not ox:
        raise Reject
    name = case["stat"]
    size = {"tuple": (h, w), "list": [h, w], "array": np.array([h, w])}[
        case["as"]]
    what = f"aggregate {name} {h}x{w}"
    q = rts.general.aggregate(r, size, name.upper() if case["upper"]
                              else name)
    g = gen.get(q, what)
    out = np.zeros((nb, oy, ox))
    null = np.zeros((nb, oy, ox), bool)
    for b, i, j in np.ndindex(nb, oy, ox):
        sl = (b, slice(i * h, i * h + h), slice(j * w, j * w + w))
        vals = [float(v) for v in ref.data[sl][~ref.mask[sl]]]
        if not vals:
            null[b, i, j] = True
        elif name == "prod":
            out[b, i, j] = math.prod(vals)
        else:
            out[b, i, j] = stat_of(name, vals)
    if name == "prod":
        lim = 2.0 ** 24 if "32" in str(g.dtype) or "16" in str(
            g.dtype) or "8" in str(g.dtype) else 2.0 ** 52
        if g.dtype.kind in "iu":
            lim = min(lim, np.iinfo(g.dtype).max)
        if np.abs(out).max(initial=0) >= lim:
            raise Reject
    require((g.nv is not None) == ref.masked, "%s: null value %r", what, g.nv)
    exact = name in ("min", "max", "mode", "unique")
    if exact:
        gen.check_cells(g, out, null, what)
    else:
        f32 = g.dtype == np.float32
        gen.check_cells(g, out, null, what, rtol=1e-5 if f32 else 1e-9,
                        atol=2e-3 if f32 else 1e-7)
    # every output cell lies exactly on the block it summarises
    rx, ry = ref.res
    left, top = ref.x[0] - rx / 2, ref.y[0] + ry / 2
    x = left + (np.arange(ox) + 0.5) * rx * w
    y = top - (np.arange(oy) + 0.5) * ry * h
    require(gen.same_coords(g.x, x, rx) and gen.same_coords(g.y, y, ry),
            "%s: x %s y %s expected %s %s", what, g.x, g.y, x, y)
    require(gen.same_crs(g.crs, ref.crs), "%s: crs %s", what, g.crs)
    tol = 1e-6 * min(rx, ry)
    res = np.abs(np.asarray(q.resolution, float))
    require(np.allclose(res, (rx * w, ry * h), rtol=1e-9, atol=tol),
            "%s: resolution %s expected %s", what, res, (rx * w, ry * h))
    bnd = (left, top - oy * h * ry, left + ox * w * rx, top)
    require(np.allclose(q.bounds, bnd, rtol=1e-11, atol=tol),
            "%s: bounds %s expected %s", what, q.bounds, bnd)
    ctx.nontrivial(oy * ox > 1 and h * w > 1)
    ctx.tag(name, "masked" if ref.masked else "unmasked",
            "trim" if ny % h or nx % w else "even")
