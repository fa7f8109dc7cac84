"""C20: mosaics place every source cell and resolve overlaps as asked."""
import numpy as np
from hypothesis import strategies as st

from vt import aligned, gen
from vt.core import Prop, Reject, require
from vt.props.c19 import fits, result_nv

P = Prop(
    "C20",
    "case = (aligned rasters, overlap rule, options); non-trivial when at "
    "least two rasters overlap",
)

DTS = ["uint8", "int8", "int16", "uint16", "int32", "uint32", "int64",
       "float32", "float64"]
OPS = ["first", "last", "min", "max", "sum"]


@st.composite
def mosaics(draw):
    base = draw(st.sampled_from(aligned.BASES))
    n = draw(st.sampled_from([1] + [2] * 5 + [3] * 5 + [4, 5, 8, 9, 17]))
    big = n > 5
    same = draw(st.sampled_from([False, False, True]))
    one = draw(st.sampled_from(DTS + [None]))
    dts = DTS if one is None else [one]
    specs = []
    for i in range(n):
        a = draw(aligned.windows(
            base, off=3, dts=dts, kinds=["small", "neg", "mid", "arange"],
            bands=(1, 1) if big else (1, 3), ny=(1, 4 if big else 8),
            nx=(1, 4 if big else 8),
            dens=[0.3, 0.1, 0.5, 0.8, 0.0, 1.0, "row", "col", "corner"]))
        if same and i:
            for k in ("ny", "nx", "geo"):
                a[k] = specs[0][k]
        a["cy"] = draw(st.sampled_from([0, 0, 3] if not big else [0]))
        a["cx"] = draw(st.sampled_from([0, 0, 4] if not big else [0]))
        specs.append(a)
    return {"rasters": specs, "op": draw(st.sampled_from(OPS)),
            "nv": draw(st.sampled_from([None, None, None, -1, 120, -999.0])),
            "dtype": draw(st.sampled_from([None, None, None, "float64",
                                           "float32", "int64"])),
            "grid": draw(st.sampled_from([None, None, None, "raster",
                                          "geobox"])),
            "perm": draw(st.integers(0, 2**16)),
            "default": draw(st.booleans())}


def model(refs, xs, ys, op, dtype):
    nb = max(r.shape[0] for r in refs)
    out = np.zeros((nb, len(ys), len(xs)), dtype)
    null = np.ones(out.shape, bool)
    hits = np.zeros(out.shape, int)
    with np.errstate(all="ignore"):
        for r in refs:
            d, m, _ = aligned.lookup(r, xs, ys)
            d = d.astype(dtype)
            for b in range(r.shape[0]):
                ok = ~m[b]
                new = ok & null[b]
                both = ok & ~null[b]
                cur = out[b]
                if op == "first":
                    val = cur
                elif op == "last":
                    val = d[b]
                elif op == "min":
                    val = np.minimum(cur, d[b])
                elif op == "max":
                    val = np.maximum(cur, d[b])
                else:
                    val = (cur + d[b]).astype(dtype)
                out[b] = np.where(new, d[b], np.where(both, val, cur))
                null[b] &= ~ok
                hits[b] += ok
    return out, null, hits


@P.check(mosaics(), quick=2400)
def mosaic(case, ctx):
    import raster_tools as rts

    refs = [gen.build_ref(s) for s in case["rasters"]]
    op = case["op"]
    if case["dtype"] and any(r.dtype.kind == "f" or
                             r.dtype.itemsize > 4 for r in refs):
        case = {**case, "dtype": None}
    dtype = np.dtype(case["dtype"] or np.result_type(
        *[r.dtype for r in refs]))
    nv = result_nv(refs, dtype, case["nv"])
    if not fits(nv, dtype) or any(
            r.dtype == np.int64 and r.nv == 2**63 - 1 for r in refs):
        raise Reject
    kw = {}
    if case["dtype"]:
        kw["dtype"] = case["dtype"]
    if case["nv"] is not None:
        kw["null_value"] = case["nv"]
    if not (op == "last" and case["default"]):
        kw["mosaic_method"] = op
    e = np.array([aligned.edges(r) for r in refs])
    rx = refs[0].res[0]
    if case["grid"]:
        spec = dict(case["rasters"][0])
        spec["ny"], spec["nx"] = spec["ny"] + 2, spec["nx"] + 1
        t, tref = gen.make(spec)
        kw["dst_grid"] = t if case["grid"] == "raster" else t.geobox
        xs, ys = tref.x, tref.y
    else:
        xs, ys = aligned.grid_of(e[:, 0].min(), e[:, 1].min(), e[:, 2].max(),
                                 e[:, 3].max(), rx)
    out, null, hits = model(refs, xs, ys, op, dtype)
    # a valid value that equals the result's null value has no stated meaning
    tnv = dtype.type(nv)
    clash = np.zeros(out.shape, bool)
    for r in refs:
        d, m, _ = aligned.lookup(r, xs, ys)
        clash[: r.shape[0]] |= gen.eq_nv(d.astype(dtype), tnv) & ~m
    # the same for sums, partial sums included
    if op == "sum":
        if hits.max() > 2 and dtype.type(0) + tnv == tnv:
            part = np.zeros(out.shape, bool)
            if len(refs) >= 8:
                part = hits >= 2
                part &= ~(np.abs(tnv.astype(float)) > 1e5)
            clash |= part
    clash |= gen.eq_nv(out, tnv) & ~null
    if clash.mean() > 0.5:
        raise Reject
    srcs = [gen.to_raster(r) for r in refs]
    q = rts.mosaic(srcs, **kw)
    what = f"mosaic {op}"
    g = gen.get(q, what)
    require(gen.same_coords(g.x, xs, rx) and gen.same_coords(g.y, ys, rx),
            "%s: grid x %s y %s expected x %s y %s", what, g.x, g.y, xs, ys)
    require(gen.same_crs(g.crs, refs[0].crs), "%s: crs %s", what, g.crs)
    require(gen.same_nv(g.nv, tnv), "%s: null value %r expected %r", what,
            g.nv, nv)
    g.mask[clash] = null[clash]
    g.data[clash] = out[clash]
    exact = op != "sum" or dtype.kind != "f"
    gen.check_cells(g, out, null, what, dtype=dtype,
                    **({} if exact else {"rtol": 1e-5, "atol": 1e-5}))
    ctx.nontrivial((hits > 1).any())
    ctx.tag(op, "many" if len(refs) > 7 else "few",
            "grid" if case["grid"] else "union")
    if op in ("min", "max", "sum") and not clash.any() and len(refs) > 1 \
            and case["perm"] % 3 == 0 and not case["grid"]:
        p = np.random.default_rng(case["perm"]).permutation(len(refs))
        kw["null_value"], kw["dtype"] = nv, dtype
        g2 = gen.get(rts.mosaic([srcs[i] for i in p], **kw), what)
        gen.check_cells(g2, out, null, what + " in another order",
                        **({} if exact else {"rtol": 1e-5, "atol": 1e-5}))
