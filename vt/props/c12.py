"""C12: focal statistics match brute force over the window's valid cells."""
import math

import numpy as np
from hypothesis import strategies as st

from vt import gen
from vt.core import Prop, Reject, require

P = Prop(
    "C12",
    "case = (raster, statistic, window, chunking); non-trivial when the window "
    "has more than one cell and the raster more than one value",
)

STATS = ["min", "max", "mean", "median", "mode", "sum", "std", "var", "asm",
         "entropy", "unique"]


@st.composite
def windows(draw, big=9):
    k = draw(st.sampled_from(["rect", "rect", "circle", "annulus"]))
    if k == "rect":
        return [draw(st.integers(1, big)), draw(st.integers(1, big))]
    if k == "circle":
        return [draw(st.integers(1, (big + 1) // 2 + 1)), None]
    a = draw(st.integers(1, 3))
    return [[a, a + draw(st.integers(1, 3))], None]


def model_window(w, h):
    """Cells of a window as a boolean array, from its definition."""
    if h is not None:
        return np.ones((w, h), bool)
    r = w if isinstance(w, int) else w[1]
    n = r - 1
    d = [[i * i + j * j for j in range(-n, n + 1)] for i in range(-n, n + 1)]
    win = np.array(d) <= n * n
    if not isinstance(w, int):
        m = w[0] - 1
        win &= ~(np.array(d) <= m * m)
    return win


def too_big(win, shape):
    """Windows reaching over more cells than the raster has are refused."""
    return win.shape[0] // 2 > shape[-2] or win.shape[1] // 2 > shape[-1]


def stat_of(name, vals):
    """vals: list of python floats/ints, non-empty."""
    if name == "min":
        return min(vals)
    if name == "max":
        return max(vals)
    if name == "sum":
        return math.fsum(vals)
    n = len(vals)
    if name == "mean":
        return math.fsum(vals) / n
    if name == "median":
        s = sorted(vals)
        return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2
    if name in ("var", "std"):
        m = math.fsum(vals) / n
        v = math.fsum((x - m) ** 2 for x in vals) / n
        return v if name == "var" else math.sqrt(v)
    cnt = {}
    for x in vals:
        cnt[x] = cnt.get(x, 0) + 1
    if name == "mode":
        top = max(cnt.values())
        return min(x for x, c in cnt.items() if c == top)
    if name == "unique":
        return len(cnt)
    if name == "asm":
        return math.fsum((c / n) ** 2 for c in cnt.values())
    if name == "entropy":
        return -math.fsum(c / n * math.log(c / n) for c in cnt.values())
    raise ValueError(name)


def window_values(data, mask, win, r, c):
    """Values of the valid cells under the window centred at r, c (2D)."""
    kh, kw = win.shape
    t, left = (kh - 1) // 2, (kw - 1) // 2
    ny, nx = data.shape
    out = []
    for i in range(kh):
        y = r - t + i
        if not 0 <= y < ny:
            continue
        for j in range(kw):
            x = c - left + j
            if win[i, j] and 0 <= x < nx and not mask[y, x]:
                out.append(data[y, x])
    return out


def brute(ref, win, name, valid_only=True):
    """(values, empty) per cell of every band; empty: no valid cell there."""
    data = ref.data.astype("float64")
    out = np.zeros(ref.shape)
    empty = np.zeros(ref.shape, bool)
    for b in range(ref.shape[0]):
        rows = data[b].tolist()
        arr = np.array(rows)
        for r in range(ref.shape[1]):
            for c in range(ref.shape[2]):
                v = window_values(arr, ref.mask[b], win, r, c)
                if v:
                    out[b, r, c] = stat_of(name, [float(x) for x in v])
                else:
                    empty[b, r, c] = True
    return out, empty


DTS = ["uint8", "int8", "int16", "uint16", "int32", "int64", "float32",
       "float64", "float64"]

cases = st.fixed_dictionaries({
    "a": gen.rasters(dts=DTS, ny=(1, 11), nx=(1, 11), bands=(1, 2),
                     kinds=["small", "neg", "two", "mid", "const"]),
    "w": windows(), "stat": st.sampled_from(STATS),
    "ign": st.sampled_from([None, False, True]),
    "path": st.booleans(),
})


@P.check(cases, quick=3000, weight=4, examples=[])
def focal(case, ctx):
    import raster_tools as rts

    spec = dict(case["a"])
    if np.dtype(spec["dt"]).itemsize == 1:
        spec["kind"] = "two" if spec["kind"] in ("mid", "arange") else (
            spec["kind"])
    r, ref = gen.make(spec)
    w, h = case["w"]
    name = case["stat"]
    win = model_window(w if isinstance(w, int) else tuple(w), h)
    if too_big(win, ref.shape):
        raise Reject
    val, empty = brute(ref, win, name)
    if name == "sum" and ref.dtype.kind in "iu" and val.size:
        ii = np.iinfo(ref.dtype)
        if not ref.masked and (val.max() > ii.max or val.min() < ii.min):
            raise Reject  # the sum is kept in the raster's data type
    if not win.any() or (not ref.masked and empty.any()):
        raise Reject  # a window without any cell of the raster
    kw = {} if case["ign"] is None else {"ignore_null": case["ign"]}
    wa = w if isinstance(w, int) else tuple(w)
    if h is None:
        q = rts.focal.focal(r, name, wa, **kw)
    else:
        q = rts.focal.focal(r, name, wa, h, **kw)
    what = f"focal {name} window {w}x{h} ignore_null {case['ign']}"
    g = gen.get(q, what)
    gen.check_grid(g, ref, what)
    if not ref.masked:
        require(g.nv is None and not g.mask.any(), "%s: nulls appeared", what)
        mask = ref.mask
    elif case["ign"]:
        mask = ref.mask & empty
    else:
        mask = ref.mask
    # a valid cell whose (ring) window holds nothing valid has no statistic
    undef = empty & ~ref.mask
    mask = np.where(undef, g.mask, mask)
    val = np.where(undef, g.data, val)
    rtol = 1e-9 if g.dtype == np.float64 or g.dtype.kind != "f" else 2e-5
    exact = name in ("min", "max", "mode", "unique")
    scale = max(1.0, float(np.abs(ref.data[~ref.mask].astype(float)).max(
        initial=0)))
    gen.check_cells(g, val, mask, what, rtol=0.0 if exact else rtol,
                    atol=0.0 if exact else rtol * scale ** (
                        2 if name == "var" else 1)
                    + (3e-3 * scale if name == "std" and rtol > 1e-6
                       else 1e-6 * scale if name == "std" else 0))
    ctx.nontrivial(win.sum() > 1 and len(np.unique(ref.data)) > 1)
    ctx.tag(name, "masked" if ref.masked else "unmasked",
            "multi" if r.data.npartitions > r.nbands else "single")


@P.check(windows(big=14), quick=800, weight=0.3)
def window_shape(case, ctx):
    from raster_tools.focal import get_focal_window

    w, h = case
    w = w if isinstance(w, int) else tuple(w)
    got = get_focal_window(w) if h is None else get_focal_window(w, h)
    want = model_window(w, h)
    require(isinstance(got, np.ndarray) and got.dtype == np.dtype(bool),
            "window %s: %r", case, got)
    require(np.array_equal(got, want), "window %s: %s expected %s", case,
            got.astype(int).tolist(), want.astype(int).tolist())
    ctx.nontrivial(want.size > 1)
    if isinstance(w, tuple):
        got2 = get_focal_window(list(w))
        require(np.array_equal(got, got2), "list and tuple differ")


@P.check(cases, quick=200, weight=0.5)
def matches_masked(case, ctx):
    """A declared null value that no cell holds does not change the result."""
    import raster_tools as rts

    spec = dict(case["a"], dt="float64", dens=0.0, nv=-12345.0)
    r, ref = gen.make(spec)
    plain = gen.to_raster(gen.build_ref(dict(spec, nv=None)))
    w, h = case["w"]
    win = model_window(w if isinstance(w, int) else tuple(w), h)
    if too_big(win, ref.shape) or brute(ref, win, "unique")[1].any():
        raise Reject
    w = w if isinstance(w, int) else tuple(w)
    a = rts.focal.focal(r, case["stat"], w, h)
    b = rts.focal.focal(plain, case["stat"], w, h)
    ga, gb = gen.get(a), gen.get(b)
    require(not ga.mask.any(), "nulls appeared")
    bad = ~gen.close_cells(ga.data, gb.data, 1e-9, 1e-9)
    require(not bad.any(), "%s %sx%s: with and without a null value: %s",
            case["stat"], w, h, gen.where_diff(bad, ga.data, gb.data))
    ctx.nontrivial(win.sum() > 1)
