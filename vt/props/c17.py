"""C17: dilation and erosion are window extremes over valid cells."""
import numpy as np
from hypothesis import strategies as st

from vt import gen
from vt.core import Prop, Reject, require

P = Prop(
    "C17",
    "case = (raster, window size, operation); non-trivial when the raster has "
    "more than one value and the window fits it",
)

DTS = ["uint8", "int8", "int16", "uint16", "int32", "uint32", "int64",
       "uint64", "float32", "float64"]

cases = st.fixed_dictionaries({
    "a": gen.rasters(dts=DTS, ny=(1, 11), nx=(1, 11), bands=(1, 3),
                     kinds=["small", "neg", "two", "mid"]),
    "size": st.one_of(st.integers(2, 6),
                      st.lists(st.integers(1, 7), min_size=2, max_size=2)),
    "op": st.sampled_from(["dilate", "erode"]),
})


def brute(ref, size, op):
    """Value, and whether the cell is null, by looking at every window."""
    kh, kw = size
    if op == "dilate":
        ys, xs = range(-((kh - 1) // 2), kh // 2 + 1), range(
            -((kw - 1) // 2), kw // 2 + 1)
    else:
        ys, xs = range(-(kh // 2), (kh - 1) // 2 + 1), range(
            -(kw // 2), (kw - 1) // 2 + 1)
    nb, ny, nx = ref.shape
    out = np.zeros(ref.shape, ref.dtype)
    null = np.zeros(ref.shape, bool)
    for b in range(nb):
        for r in range(ny):
            for c in range(nx):
                vals, gap = [], False
                for dy in ys:
                    for dx in xs:
                        y, x = r + dy, c + dx
                        if not (0 <= y < ny and 0 <= x < nx):
                            gap = True
                        elif ref.mask[b, y, x]:
                            gap = True
                        else:
                            vals.append(ref.data[b, y, x])
                if vals:
                    out[b, r, c] = max(vals) if op == "dilate" else min(vals)
                if ref.masked:
                    null[b, r, c] = not vals if op == "dilate" else gap
    return out, null


@P.check(cases, quick=2600)
def morphology(case, ctx):
    import raster_tools as rts

    r, ref = gen.make(case["a"])
    s = case["size"]
    size = (s, s) if isinstance(s, int) else tuple(s)
    if size == (1, 1) or size[0] // 2 > ref.shape[1] or (
            size[1] // 2 > ref.shape[2]):
        raise Reject
    op = case["op"]
    what = f"{op} {s}"
    q = getattr(rts.general, op)(r, s if isinstance(s, int) else size)
    g = gen.get(q, what)
    gen.check_grid(g, ref, what)
    require(gen.same_nv(g.nv, ref.nv), "%s: null value %r", what, g.nv)
    out, null = brute(ref, size, op)
    gen.check_cells(g, out, null, what, dtype=ref.dtype)
    ctx.nontrivial(len(np.unique(ref.data)) > 1)
    ctx.tag(op, "masked" if ref.masked else "unmasked",
            "even" if size[0] % 2 == 0 or size[1] % 2 == 0 else "odd")
