"""C32: rasters created from a template."""
import numpy as np
from hypothesis import strategies as st

from vt import gen
from vt.core import Prop, Reject, require

P = Prop(
    "C32",
    "case = (template raster or geobox, function, bands, data type, fill, "
    "copy_mask); non-trivial when the template is a raster with both null and "
    "valid cells, or has several chunks",
)

FUNS = ["empty_like", "full_like", "constant_raster", "zeros_like",
        "ones_like", "random_raster"]


@st.composite
def cases(draw):
    fn = draw(st.sampled_from(FUNS + ["random_raster", "full_like"]))
    return {
        "t": draw(gen.rasters(
            dts=gen.INTS + gen.FLOATS + ["bool"], ny=(1, 9), nx=(1, 9),
            kinds=["small"])),
        "f": fn,
        "bands": draw(st.sampled_from([None, 1, 2, 3, 4])),
        "dt": draw(st.sampled_from(
            [None, None] + gen.INTS + gen.FLOATS + ["bool"])),
        "value": draw(st.sampled_from([0, 1, 5, 100, 2.5, -3, 0.0])),
        "copy": draw(st.booleans()),
        "geobox": draw(st.integers(0, 5)) == 0,
        "dist": draw(st.sampled_from(
            ["n", "normal", "p", "poisson", "b", "binomial", "u", "uniform",
             "w", "weibull"])),
        "params": draw(st.sampled_from([[5, 0.5], [1, 0.25], [20, 0.9]])),
    }


@P.check(cases(), quick=3200)
def create(case, ctx):
    import raster_tools as rts

    t = gen.build_ref(case["t"])
    if case["geobox"] and (t.shape[1] < 2 or t.shape[2] < 2):
        raise Reject
    r = gen.to_raster(t)
    fn = case["f"]
    f = getattr(rts, fn)
    copy = case["copy"] and not case["geobox"]
    kw = {"copy_mask": copy}
    if case["bands"] is not None:
        kw["bands"] = case["bands"]
    nb = case["bands"] or 1
    tmpl = r.geobox if case["geobox"] else r
    value = case["value"]
    dt = case["dt"]
    if fn == "random_raster":
        kw["distribution"] = case["dist"]
        kw["params"] = case["params"]
    else:
        kw["dtype"] = dt
    args = [tmpl]
    if fn in ("full_like", "constant_raster"):
        if dt is not None:
            k = np.dtype(dt).kind
            if k == "u" and value < 0 or k in "iub" and value != int(value):
                raise Reject
            if k == "b" and value not in (0, 1):
                raise Reject
        args.append(value)
    g = gen.get(f(*args, **kw), fn)
    what = f"{fn}({kw})"
    require(g.data.shape[0] == nb, "%s: %d bands", what, g.data.shape[0])
    if case["geobox"]:
        require(np.allclose(g.x, t.x, rtol=1e-9, atol=1e-6)
                and np.allclose(g.y, t.y, rtol=1e-9, atol=1e-6),
                "%s: grid differs from geobox", what)
        require(gen.same_crs(g.crs, t.crs), "%s: crs %s", what, g.crs)
        require(g.data.shape[1:] == t.shape[1:], "%s: shape", what)
    else:
        gen.check_grid(g, t, what)
        require(g.chunks[1:] == r.data.chunks[1:], "%s: chunks %s", what,
                g.chunks)
    # the mask
    if copy and t.masked:
        want = t.mask if nb == t.shape[0] else np.repeat(t.mask[:1], nb, 0)
    else:
        want = np.zeros((nb, *t.shape[1:]), bool)
    bad = g.mask != want
    require(not bad.any(), "%s: nulls wrong at %s", what,
            np.argwhere(bad)[:3].tolist())
    if copy and t.masked:
        require(g.nv is not None, "%s: no null value", what)
    else:
        require(g.nv is None, "%s: null value %r", what, g.nv)
    v = g.data[~g.mask]
    if fn == "random_raster":
        d = case["dist"][0]
        p = case["params"]
        require(not np.isnan(v).any(), "%s: NaN drawn", what)
        if d == "u":
            require(((v >= 0) & (v < 1)).all(), "%s: out of [0, 1)", what)
        elif d == "w":
            require((v >= 0).all(), "%s: negative draw", what)
        elif d == "p":
            require(g.dtype.kind in "iu" and (v >= 0).all(),
                    "%s: not counts", what)
            lim = p[0] + 12 * np.sqrt(p[0]) + 12
            require((v <= lim).all(), "%s: draws far off the mean", what)
        elif d == "b":
            require(g.dtype.kind in "iu" and ((v >= 0) & (v <= p[0])).all(),
                    "%s: outside 0..n", what)
        else:
            require((np.abs(v - p[0]) <= 8 * p[1]).all(),
                    "%s: more than 8 standard deviations off", what)
        if d in "nuw" and v.size > 8:
            require(len(np.unique(v)) > 1, "%s: constant draws", what)
    else:
        if dt is not None:
            require(g.dtype == np.dtype(dt), "%s: data type %s", what,
                    g.dtype)
        if fn != "empty_like":
            val = {"zeros_like": 0, "ones_like": 1}.get(fn, value)
            require((v == val).all(), "%s: values %s expected %r", what,
                    np.unique(v)[:4], val)
    ctx.nontrivial((t.mask.any() and not t.mask.all())
                   or np.prod(r.data.numblocks) > 1)
    ctx.tag(fn, "copy" if copy else "nocopy")


@P.check(st.fixed_dictionaries({
    "seed": gen.seeds, "dist": st.sampled_from(["n", "u", "p", "b", "w"]),
    "chunk": st.integers(5, 20),
}), quick=160, weight=0.2)
def draws(case, ctx):
    """Sample mean and spread match the distribution's parameters."""
    import math

    import raster_tools as rts

    spec = {"b": 1, "ny": 40, "nx": 50, "dt": "uint8", "kind": "small",
            "seed": case["seed"], "nv": None, "dens": 0, "cy": case["chunk"],
            "cx": case["chunk"], "geo": gen.UNIT_GEO}
    r, _ = gen.make(spec)
    rng = np.random.default_rng(case["seed"])
    d = case["dist"]
    a = float(rng.uniform(2, 9))
    b = float(rng.uniform(0.2, 0.8))
    if d == "b":
        a = int(a)
    mean, var = {
        "n": (a, b * b), "u": (0.5, 1 / 12), "p": (a, a),
        "b": (a * b, a * b * (1 - b)),
        "w": (math.gamma(1 + 1 / a),
              math.gamma(1 + 2 / a) - math.gamma(1 + 1 / a) ** 2),
    }[d]
    v = gen.get(rts.random_raster(r, d, 2, params=(a, b))).data.astype(float)
    n = v.size
    require(abs(v.mean() - mean) <= 8 * math.sqrt(var / n),
            "%s(%s, %s): sample mean %s expected %s", d, a, b, v.mean(), mean)
    require(0.6 * var <= v.var() <= 1.6 * var,
            "%s(%s, %s): sample variance %s expected %s", d, a, b, v.var(),
            var)
    require(not np.array_equal(v[0], v[1]), "bands hold the same draws")
    ctx.nontrivial()
