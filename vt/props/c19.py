"""C19: stacking, splitting and band selection keep every band intact."""
import warnings

import numpy as np
from hypothesis import strategies as st

from vt import aligned, gen
from vt.core import Prop, Reject, require

P = Prop(
    "C19",
    "case = (rasters, grids, order and options); non-trivial when several "
    "bands are combined or selected",
)

DTS = ["uint8", "int8", "int16", "uint16", "int32", "uint32", "int64",
       "float32", "float64"]
KINDS = ["small", "neg", "mid", "arange"]


def result_nv(refs, dtype, asked):
    if asked == "default":
        return gen.default_null(dtype)
    if asked is not None:
        return asked
    for r in refs:
        if r.nv is not None:
            return r.nv
    return gen.default_null(dtype)


def fits(nv, dtype):
    dtype = np.dtype(dtype)
    if dtype.kind == "f":
        return gen.isnan(nv) or dtype.type(nv) == nv
    if gen.isnan(nv) or float(nv) != int(nv):
        return False
    ii = np.iinfo(dtype)
    return ii.min <= int(nv) <= ii.max


@st.composite
def same_grid(draw):
    n = draw(st.integers(1, 4))
    first = draw(gen.rasters(dts=DTS, kinds=KINDS, ny=(1, 8), nx=(1, 8)))
    specs = [first]
    for _ in range(n - 1):
        s = draw(gen.rasters(dts=DTS, kinds=KINDS, ny=first["ny"],
                             nx=first["nx"], geo=st.just(first["geo"])))
        specs.append(s)
    if n > 1 and draw(st.booleans()):
        specs.append(dict(draw(st.sampled_from(specs))))
    return {"rasters": specs,
            "dtype": draw(st.sampled_from([None, None, None, "float64",
                                           "float32", "int64"])),
            "nv": draw(st.sampled_from([None, None, "default", 0, -1, 7])),
            "join": draw(st.sampled_from(["inner", "outer"])),
            "grid": draw(st.sampled_from([None, None, "raster", "geobox"]))}


@P.check(same_grid(), quick=1400, weight=1.2)
def stack(case, ctx):
    import raster_tools as rts

    refs = [gen.build_ref(s) for s in case["rasters"]]
    dtype = np.dtype(case["dtype"] or np.result_type(
        *[r.dtype for r in refs]))
    nv = result_nv(refs, dtype, case["nv"])
    if not fits(nv, dtype):
        raise Reject
    if dtype.kind in "iu" and any(r.dtype.kind == "f" for r in refs):
        raise Reject  # value casts are the subject of C08
    kw = {"join": case["join"]}
    if case["dtype"]:
        kw["dtype"] = case["dtype"]
    if case["nv"] is not None:
        kw["null_value"] = case["nv"]
    if case["grid"] and refs[0].crs is not None:
        kw["dst_grid"] = (gen.to_raster(refs[0])
                          if case["grid"] == "raster"
                          else gen.to_raster(refs[0]).geobox)
    q = rts.stack_bands([gen.to_raster(r) for r in refs], **kw)
    g = gen.get(q, "stack")
    gen.check_grid(g, refs[0], "stack")
    data = np.concatenate([r.data.astype(dtype) for r in refs])
    mask = np.concatenate([r.mask for r in refs])
    gen.check_cells(g, data, mask, "stack", dtype=dtype)
    if len(refs) > 1 or refs[0].masked or case["nv"] is not None:
        require(gen.same_nv(g.nv, dtype.type(nv)), "stack: null value %r "
                "expected %r", g.nv, nv)
    ctx.nontrivial(data.shape[0] > 1)
    ctx.tag(f"n={len(refs)}", "mixed" if len({str(r.dtype) for r in refs}) > 1
            else "one dtype")


@st.composite
def other_grids(draw):
    base = draw(st.sampled_from(aligned.BASES))
    n = draw(st.integers(2, 4))
    mode = draw(st.sampled_from(["shift", "shift", "res"]))
    specs = []
    for i in range(n):
        a = draw(aligned.windows(base, off=4, dts=DTS, kinds=KINDS,
                                 bands=(1, 2), ny=(1, 8), nx=(1, 8)))
        if mode == "res" and i > 0:
            k = draw(st.sampled_from([1, 2, 3]))
            a["geo"] = aligned.geo_at(base, draw(st.integers(-4, 4)),
                                      draw(st.integers(-4, 4)), k)
        a["cy"] = draw(st.sampled_from([0, 3, 4]))
        a["cx"] = draw(st.sampled_from([0, 3, 5]))
        specs.append(a)
    return {"rasters": specs, "mode": mode,
            "join": draw(st.sampled_from(["inner", "outer"])),
            "nv": draw(st.sampled_from([None, None, "default", 0])),
            "grid": draw(st.sampled_from([None, None, "raster", "geobox"]))}


@P.check(other_grids(), quick=900, weight=1.6)
def stack_grids(case, ctx):
    import raster_tools as rts

    refs = [gen.build_ref(s) for s in case["rasters"]]
    dtype = np.result_type(*[r.dtype for r in refs])
    nv = result_nv(refs, dtype, case["nv"])
    if not fits(nv, dtype):
        raise Reject
    if any(r.dtype == np.int64 and r.nv == 2**63 - 1 for r in refs):
        raise Reject  # GDAL's warper takes null values as doubles
    e = np.array([aligned.edges(r) for r in refs])
    rx = refs[0].res[0]
    kw = {"join": case["join"]}
    if case["nv"] is not None:
        kw["null_value"] = case["nv"]
    if case["grid"]:
        # a window of its own as the destination
        spec = dict(case["rasters"][0])
        spec["ny"], spec["nx"] = spec["ny"] + 1, spec["nx"] + 2
        t, tref = gen.make(spec)
        kw["dst_grid"] = t if case["grid"] == "raster" else t.geobox
        del kw["join"]
        xs, ys = tref.x, tref.y
    elif case["join"] == "outer":
        xs, ys = aligned.grid_of(e[:, 0].min(), e[:, 1].min(), e[:, 2].max(),
                                 e[:, 3].max(), rx)
    else:
        lo_x, lo_y = e[:, 0].max(), e[:, 1].max()
        hi_x, hi_y = e[:, 2].min(), e[:, 3].min()
        if hi_x - lo_x < rx / 2 or hi_y - lo_y < rx / 2:
            raise Reject  # nothing in common
        xs, ys = aligned.grid_of(lo_x, lo_y, hi_x, hi_y, rx)
    q = rts.stack_bands([gen.to_raster(r) for r in refs], **kw)
    g = gen.get(q, "stack")
    require(gen.same_coords(g.x, xs, rx) and gen.same_coords(g.y, ys, rx),
            "stack: grid x %s y %s expected x %s y %s", g.x, g.y, xs, ys)
    require(gen.same_crs(g.crs, refs[0].crs), "stack: crs %s", g.crs)
    ds, ms = [], []
    for r in refs:
        d, m, _ = aligned.lookup(r, xs, ys)
        ds.append(d.astype(dtype))
        ms.append(m)
    mask = np.concatenate(ms)
    gen.check_cells(g, np.concatenate(ds), mask, "stack", dtype=dtype)
    require(gen.same_nv(g.nv, dtype.type(nv)), "stack: null value %r expected "
            "%r", g.nv, nv)
    ctx.nontrivial(len({r.shape + tuple(r.x[:1]) + tuple(r.y[:1])
                        for r in refs}) > 1 and not mask.all())
    ctx.tag(case["mode"], "dst_grid" if case["grid"] else case["join"])


@st.composite
def selections(draw):
    a = draw(gen.rasters(dts=DTS + ["bool"], kinds=KINDS, bands=(1, 5),
                         ny=(1, 8), nx=(1, 8)))
    return {"a": a, "sel": draw(st.lists(st.integers(1, a["b"]), min_size=1,
                                         max_size=6)),
            "one": draw(st.booleans()),
            "as": draw(st.sampled_from(["list", "tuple", "array"]))}


@P.check(selections(), quick=1000, weight=1)
def select(case, ctx):
    """get_bands and split_bands, and stacking the pieces again."""
    import raster_tools as rts

    r, ref = gen.make(case["a"])
    sel = case["sel"]
    arg = {"list": list, "tuple": tuple, "array": np.array}[case["as"]](sel)
    if case["one"]:
        sel = sel[:1]
        arg = sel[0]
    idx = [b - 1 for b in sel]

    def same(q, i, what):
        g = gen.get(q, what)
        gen.check_grid(g, ref, what)
        gen.check_cells(g, ref.data[i], ref.mask[i], what, dtype=ref.dtype)
        require(gen.same_nv(g.nv, ref.nv), "%s: null value %r", what, g.nv)

    same(r.get_bands(arg), idx, f"get_bands({sel})")
    parts = [rts.split_bands(r), r.split_bands()]
    for ps in parts:
        require(len(ps) == ref.shape[0], "split into %d of %d bands", len(ps),
                ref.shape[0])
        for i, p in enumerate(ps):
            same(p, [i], f"split band {i + 1}")
    if ref.dtype != bool:
        q = rts.stack_bands([parts[0][i] for i in idx])
        g = gen.get(q, "restack")
        gen.check_grid(g, ref, "restack")
        gen.check_cells(g, ref.data[idx], ref.mask[idx], "restack",
                        dtype=ref.dtype)
    same(r, list(range(ref.shape[0])), "the source")
    ctx.nontrivial(ref.shape[0] > 1)


@P.check(same_grid(), quick=500, weight=0.6)
def concat(case, ctx):
    import raster_tools as rts

    made = [gen.make(s) for s in case["rasters"]]
    refs = [m[1] for m in made]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        q = rts.general.band_concat([m[0] for m in made])
    g = gen.get(q, "band_concat")
    gen.check_grid(g, refs[0], "band_concat")
    dtype = np.result_type(*[r.dtype for r in refs])
    gen.check_cells(g, np.concatenate([r.data.astype(dtype) for r in refs]),
                    np.concatenate([r.mask for r in refs]), "band_concat",
                    dtype=dtype)
    require((g.nv is not None) == any(r.masked for r in refs),
            "band_concat: null value %r", g.nv)
    ctx.nontrivial(g.shape[0] > 1)
