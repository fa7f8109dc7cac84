"""C09: conditional selection and remapping follow their cellwise rules."""
import os

import numpy as np
from hypothesis import strategies as st

from vt import gen
from vt.core import Prop, Reject, require

P = Prop(
    "C09",
    "case = (rasters, condition or mapping, settings); non-trivial when at "
    "least one cell is mapped (or taken from the first source) and at least "
    "one is not",
)

DTS = ["uint8", "int8", "int16", "uint16", "int32", "uint32", "int64",
       "float32", "float64"]
KINDS = ["small", "neg", "two", "mid"]


def same_grid(spec, like, **kw):
    out = dict(spec, ny=like["ny"], nx=like["nx"], geo=like["geo"], **kw)
    return out


@st.composite
def where_cases(draw):
    c = draw(gen.rasters(dts=["bool", "bool", "uint8", "int8", "int32",
                              "int64"], kinds=["two", "neg", "small"],
                         nvs=None))
    srcs = []
    for _ in range(2):
        k = draw(st.sampled_from(["raster", "raster", "scalar", "none"]))
        if k == "raster":
            s = draw(gen.rasters(dts=DTS, kinds=KINDS))
            srcs.append(same_grid(s, c, b=c["b"]))
        elif k == "scalar":
            srcs.append(draw(st.sampled_from(
                [0, 1, 5, -3, 7, 2.5, -0.25, 100.0, 120])))
        else:
            srcs.append(None)
    return {"c": c, "s": srcs, "how": draw(
        st.sampled_from(["function", "method", "path"])),
        "swap": draw(st.booleans())}


@P.check(where_cases(), quick=1500, weight=1.3)
def where(case, ctx):
    import raster_tools as rts

    cr, cref = gen.make(case["c"])
    srcs, refs = [], []
    for s in case["s"]:
        if isinstance(s, dict):
            r, ref = gen.make(s)
            srcs.append(r)
            refs.append(ref)
        else:
            srcs.append(s)
            refs.append(s)
    if srcs[0] is None and srcs[1] is None:
        raise Reject
    how = case["how"]
    if how == "method" and isinstance(srcs[0], rts.Raster):
        q = srcs[0].where(cr, srcs[1])
    else:
        q = rts.general.where(cr, srcs[0], srcs[1])
    g = gen.get(q, "where")
    shapes = [cref.shape] + [r.shape for r in refs if isinstance(r, gen.Ref)]
    shape = np.broadcast_shapes(*shapes)
    # the result has the bands of the widest input
    require(g.data.shape == shape, "where: shape %s expected %s",
            g.data.shape, shape)
    cond = np.broadcast_to(cref.data > 0, shape)
    cmask = np.broadcast_to(cref.mask, shape)
    vals, nulls = [], []
    for r in refs:
        if r is None:
            vals.append(np.zeros(shape))
            nulls.append(np.ones(shape, bool))
        elif isinstance(r, gen.Ref):
            vals.append(np.broadcast_to(r.data, shape))
            nulls.append(np.broadcast_to(r.mask, shape))
        else:
            vals.append(np.full(shape, r))
            nulls.append(np.zeros(shape, bool))
    null = cmask | np.where(cond, nulls[0], nulls[1])
    big = [v.astype(object) for v in vals]
    val = np.where(cond, big[0], big[1])
    any_null = (cref.masked or any(r is None for r in refs)
                or any(isinstance(r, gen.Ref) and r.masked for r in refs))
    require((g.nv is not None) == any_null, "where: null value %r", g.nv)
    if g.nv is not None:
        # a valid value that equals the result's null value is null
        null = null | np.array(
            [(v == g.nv) for v in val.ravel()], bool).reshape(shape)
    fl = np.array([float(v) for v in val.ravel()]).reshape(shape)
    gen.check_cells(g, fl, null, "where", rtol=1e-6)
    rdts = [r.dtype for r in refs if isinstance(r, gen.Ref)]
    if len(rdts) == 2:
        require(g.dtype == np.result_type(*rdts), "where: dtype %s of %s",
                g.dtype, rdts)
    gen.check_grid(g, cref, "where")
    ctx.nontrivial((cond & ~cmask).any() and (~cond & ~cmask).any())
    ctx.tag("-".join("null" if r is None else
                     "raster" if isinstance(r, gen.Ref) else "scalar"
                     for r in refs))


ENDS = [-4, -2, -1, 0, 1, 2, 3, 4, 5, 20, 60, 100, -0.5, 1.5, 2.25]


@st.composite
def remap_cases(draw):
    a = draw(gen.rasters(dts=DTS + ["float16"], kinds=KINDS + ["quarter"]
                         if False else KINDS))
    n = draw(st.integers(1, 4))
    maps = []
    for _ in range(n):
        lo = draw(st.sampled_from(ENDS + [float("-inf")]))
        hi = draw(st.sampled_from(ENDS + [float("inf")]))
        if hi < lo:
            lo, hi = hi, lo
        if lo == hi:
            hi = lo + 1
        maps.append([lo, hi, draw(st.sampled_from(
            [0, 1, 2, 9, -7, 300, 70000, 0.5, None, -1.25]))])
    return {"a": a, "maps": maps,
            "inc": draw(st.sampled_from(["left", "right", "both", "none",
                                         None])),
            "form": draw(st.sampled_from(["list", "tuple", "lists"])),
            "how": draw(st.booleans())}


def inside(v, lo, hi, inc):
    if inc in (None, "left"):
        return lo <= v < hi
    if inc == "right":
        return lo < v <= hi
    if inc == "both":
        return lo <= v <= hi
    return lo < v < hi


@P.check(remap_cases(), quick=1500, weight=1.3)
def remap_range(case, ctx):
    import raster_tools as rts

    r, ref = gen.make(case["a"])
    maps = case["maps"]
    if case["form"] == "tuple" and len(maps) == 1:
        arg = tuple(maps[0])
    elif case["form"] == "lists":
        arg = [list(m) for m in maps]
    else:
        arg = [tuple(m) for m in maps]
    keep = repr(arg)
    kw = {} if case["inc"] is None else {"inclusivity": case["inc"]}
    if case["how"]:
        q = r.remap_range(arg, **kw)
    else:
        q = rts.general.remap_range(r, arg, **kw)
    require(repr(arg) == keep, "remap_range changed its mapping")
    g = gen.get(q, "remap_range")
    gen.check_grid(g, ref, "remap_range")
    out = np.zeros(ref.shape)
    null = ref.mask.copy()
    hit = np.zeros(ref.shape, bool)
    for i in np.ndindex(*ref.shape):
        if null[i]:
            continue
        v = ref.data[i].item()
        out[i] = v
        for lo, hi, new in maps:
            if inside(v, lo, hi, case["inc"]):
                hit[i] = True
                if new is None:
                    null[i] = True
                else:
                    out[i] = new
                break
    check_remapped(g, ref, out, null, any(m[2] is None for m in maps),
                   "remap_range")
    ctx.nontrivial(hit.any() and (~hit & ~ref.mask).any())
    ctx.tag(case["inc"], "null" if any(m[2] is None for m in maps) else "")


def check_remapped(g, ref, out, null, makes_null, what):
    require((g.nv is not None) == (ref.masked or makes_null),
            "%s: null value %r", what, g.nv)
    if ref.masked:
        require(gen.same_nv(g.nv, ref.nv), "%s: null value %r expected %r",
                what, g.nv, ref.nv)
    if g.nv is not None and not gen.isnan(g.nv):
        # an output equal to the null value is null
        null = null | (out == float(g.nv))
    if ref.dtype.kind == "f" or not np.array_equal(out, np.round(out)):
        pass
    gen.check_cells(g, out, null, what, rtol=1e-3 if g.dtype.itemsize == 2
                    and g.dtype.kind == "f" else 1e-6)


@st.composite
def reclass_cases(draw):
    a = draw(gen.rasters(dts=DTS + ["float16"], kinds=KINDS))
    keys = draw(st.lists(st.sampled_from(
        [0, 1, 2, 3, 4, 5, -1, -2, 7, 50, 99, 1000, 2.0, 1.5]),
        min_size=1, max_size=6, unique_by=float))
    vals = [draw(st.sampled_from([0, 1, 2, 9, -7, 300, 70000, 0.5, None,
                                  -1.25, 4.0])) for _ in keys]
    return {"a": a, "map": [[k, v] for k, v in zip(keys, vals)],
            "unmapped": draw(st.sampled_from([None, False, True])),
            "file": draw(st.sampled_from([False, False, True]))}


@P.check(reclass_cases(), quick=1500, weight=1.3)
def reclassify(case, ctx):
    import raster_tools as rts

    r, ref = gen.make(case["a"])
    mapping = {k: v for k, v in case["map"]}
    keep = dict(mapping)
    arg = mapping
    if case["file"]:
        arg = os.path.join(ctx.scratch(), "map.rcl")
        with open(arg, "w") as fd:
            for i, (k, v) in enumerate(mapping.items()):
                sep = [":", " : ", ": "][i % 3]
                fd.write(f"{k}{sep}{'NoData' if v is None else v}\n")
                if i % 2:
                    fd.write("\n")
    kw = {} if case["unmapped"] is None else {
        "unmapped_to_null": case["unmapped"]}
    if case["a"]["seed"] % 2:
        q = r.reclassify(arg, **kw)
    else:
        q = rts.general.reclassify(r, arg, **kw)
    require(list(mapping.items()) == list(keep.items()),
            "reclassify changed its mapping: %s", mapping)
    g = gen.get(q, "reclassify")
    gen.check_grid(g, ref, "reclassify")
    out = np.zeros(ref.shape)
    null = ref.mask.copy()
    hit = np.zeros(ref.shape, bool)
    for i in np.ndindex(*ref.shape):
        if null[i]:
            continue
        v = ref.data[i].item()
        out[i] = v
        if v in mapping:
            hit[i] = True
            if mapping[v] is None:
                null[i] = True
            else:
                out[i] = mapping[v]
        elif case["unmapped"]:
            null[i] = True
    check_remapped(g, ref, out, null, case["unmapped"] or None
                   in mapping.values(), "reclassify")
    ctx.nontrivial(hit.any() and (~hit & ~ref.mask).any())
    ctx.tag("file" if case["file"] else "dict", str(case["unmapped"]))
