"""C13: correlation and convolution match the definition and honour nulls."""
import numpy as np
from hypothesis import strategies as st

from vt import gen
from vt.core import Prop, Reject, require

P = Prop(
    "C13",
    "case = (raster, kernel, edge mode, fill); non-trivial when the kernel has "
    "more than one nonzero weight and the raster more than one value",
)

DTS = ["uint8", "int16", "int32", "int64", "float32", "float64"]


@st.composite
def kernels(draw):
    h, w = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    kind = draw(st.sampled_from(["int", "float", "bool", "quarter"]))
    n = h * w
    if kind == "int":
        v = draw(st.lists(st.integers(-3, 3), min_size=n, max_size=n))
    elif kind == "bool":
        v = draw(st.lists(st.booleans(), min_size=n, max_size=n))
    else:
        v = [i / 4 for i in draw(
            st.lists(st.integers(-8, 8), min_size=n, max_size=n))]
    return {"v": v, "shape": [h, w], "kind": kind}


cases = st.fixed_dictionaries({
    "a": gen.rasters(dts=DTS, ny=(1, 11), nx=(1, 11), bands=(1, 2),
                     kinds=["small", "neg", "two"]),
    "k": kernels(),
    "mode": st.sampled_from(["constant", "reflect", "nearest", "wrap", None]),
    "cval": st.sampled_from([0, 0.0, 1, 2.5, -3]),
    "op": st.sampled_from(["correlate", "convolve"]),
})


def edge_index(i, n, mode):
    """Index inside 0..n-1 that supplies position i; None: the fill."""
    if 0 <= i < n:
        return i
    if mode == "constant":
        return None
    if mode == "nearest":
        return min(max(i, 0), n - 1)
    if mode == "wrap":
        return i % n
    i %= 2 * n
    return i if i < n else 2 * n - 1 - i


def brute(ref, kern, mode, cval):
    nb, ny, nx = ref.shape
    kh, kw = kern.shape
    t, left = (kh - 1) // 2, (kw - 1) // 2
    d = ref.data.astype("float64")
    out = np.zeros(ref.shape)
    iy = np.array([[-1 if (v := edge_index(r - t + i, ny, mode)) is None
                    else v for i in range(kh)] for r in range(ny)])
    ix = np.array([[-1 if (v := edge_index(c - left + j, nx, mode)) is None
                    else v for j in range(kw)] for c in range(nx)])
    for b in range(nb):
        for r in range(ny):
            for c in range(nx):
                s = 0.0
                for i in range(kh):
                    for j in range(kw):
                        y, x = iy[r, i], ix[c, j]
                        if y < 0 or x < 0:
                            v = cval
                        elif ref.mask[b, y, x]:
                            continue
                        else:
                            v = d[b, y, x]
                        s += float(kern[i, j]) * v
                out[b, r, c] = s
    return out


@P.check(cases, quick=2600)
def correlation(case, ctx):
    import raster_tools as rts

    k = case["k"]
    dt = {"int": "int64", "bool": "bool"}.get(k["kind"], "float64")
    kern = np.array(k["v"], dtype=dt).reshape(k["shape"])
    r, ref = gen.make(case["a"])
    if any(k // 2 + (k % 2 == 0) > n
           for k, n in zip(kern.shape, ref.shape[1:])):
        raise Reject  # refused: the kernel reaches over more than the raster
    mode, cval = case["mode"], case["cval"]
    kw = {} if mode is None else {"mode": mode, "cval": cval}
    if mode is None:
        mode, cval = "constant", 0.0
    op = case["op"]
    k2 = kern if op == "correlate" else kern[::-1, ::-1]
    int_out = ref.dtype.kind in "iu" and dt != "float64"
    if int_out and float(cval) != int(cval):
        cval = kw["cval"] = 2
    want = brute(ref, k2, mode, float(cval))
    if int_out:
        ii = np.iinfo(ref.dtype)
        if want.size and (want.max() > ii.max or want.min() < ii.min):
            raise Reject  # does not fit the raster's data type
        if cval < ii.min:
            raise Reject
    keep = kern.copy()
    what = f"{op} {kern.shape} mode {mode} cval {cval}"
    q = getattr(rts.focal, op)(r, kern, **kw)
    g = gen.get(q, what)
    require(np.array_equal(kern, keep), "%s: kernel changed", what)
    gen.check_grid(g, ref, what)
    if ref.masked:
        require(g.nv is not None and gen.eq_nv(np.asarray(g.nv), ref.nv),
                "%s: null value %r", what, g.nv)
    gen.check_cells(
        g, want, ref.mask, what, rtol=0 if int_out else 1e-5,
        atol=0 if int_out else 1e-4 if g.dtype == np.float32 else 1e-9,
        dtype=ref.dtype if int_out or ref.dtype.kind == "f" else "float64")
    ctx.nontrivial((kern != 0).sum() > 1 and len(np.unique(ref.data)) > 1)
    ctx.tag(op, mode, "masked" if ref.masked else "unmasked",
            "multi" if r.data.npartitions > r.nbands else "single")
