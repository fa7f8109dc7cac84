"""C07: null-value management against a cellwise model."""
import numpy as np
from hypothesis import strategies as st

from vt import gen
from vt.core import Prop, Reject, fail, require

P = Prop(
    "C07",
    "case = (raster, sequence of null-value calls); non-trivial when some "
    "call changes the set of null cells or the null value while at least one "
    "cell stays valid",
)

DTS = gen.INTS + gen.FLOATS + ["float16", "bool"]


def rs(**kw):
    return gen.rasters(dts=DTS, ny=(1, 6), nx=(1, 6),
                       kinds=["small", "neg", "mid", "arange"], **kw)


VALUES = [0, 1, 2, 3, -1, -5, 7, 100, 127, 128, -128, -129, 255, 256, -999,
          32767, 32768, 65535, 65536, 70000, -70000, 2**31, -(2**31), 2**32,
          -999999, 0.0, 1.0, 2.0, 0.5, -1.5, 0.1, -9999.0, -999999.0, 1e10,
          -3.4028234663852886e38, "nan", "inf", "-inf", True, False]


@st.composite
def values(draw, spec):
    k = draw(st.sampled_from(["pool", "pool", "data", "limits", "np"]))
    if k == "pool":
        return draw(st.sampled_from(VALUES))
    if k == "data":
        return draw(st.integers(-5, 10))
    if k == "limits":
        dt = draw(st.sampled_from(gen.INTS[:3] + gen.INTS[4:7]))
        ii = np.iinfo(dt)
        return draw(st.sampled_from([int(ii.min), int(ii.max)]))
    dt = draw(st.sampled_from(gen.INTS + gen.FLOATS))
    return {"np": dt, "v": draw(st.integers(0, 120))}


@st.composite
def cases(draw):
    a = draw(rs())
    steps = []
    for _ in range(draw(st.integers(1, 4))):
        op = draw(st.sampled_from(
            ["set", "set", "set", "clear", "mask", "mask", "burn",
             "replace", "nullmask"]))
        if op in ("set", "replace"):
            steps.append([op, draw(values(a))])
        elif op == "mask":
            m = draw(gen.rasters(
                dts=["bool", "int8", "uint8"], ny=1, nx=1,
                kinds=["two", "small", "neg"]))
            m.update(ny=a["ny"], nx=a["nx"], geo=a["geo"],
                     b=draw(st.sampled_from([1, a["b"]])))
            steps.append([op, m])
        else:
            steps.append([op, None])
    return {"a": a, "steps": steps}


def decode(v):
    if isinstance(v, dict):
        return np.dtype(v["np"]).type(v["v"])
    if isinstance(v, str):
        return float(v)
    return v


def fits(value, dt):
    """Whether value is a null value that dt can hold as documented."""
    isbool = isinstance(value, (bool, np.bool_))
    isint = isinstance(value, (int, np.integer)) and not isbool
    if dt.kind == "b":
        return isbool
    if dt.kind == "f":
        with np.errstate(all="ignore"):
            return gen.same_nv(float(dt.type(value)), float(value))
    if isbool:
        return True
    if not isint:
        return False  # floats always promote integer rasters
    ii = np.iinfo(dt)
    return ii.min <= int(value) <= ii.max


def model_set(m, value):
    """New (data, mask, nv, must_keep_dtype) after set_null_value."""
    data, mask, nv = m
    with np.errstate(all="ignore"):
        if isinstance(value, float) and np.isnan(value):
            eq = np.isnan(data) if data.dtype.kind == "f" else (
                np.zeros(data.shape, bool))
        elif data.dtype.kind in "iub" and isinstance(
            value, (int, np.integer)
        ):
            eq = np.array([int(x) == int(value) for x in data.ravel()],
                          bool).reshape(data.shape)
        else:
            eq = data.astype("float64") == float(value)
    return mask | eq


@P.check(cases(), quick=3600)
def sequence(case, ctx):
    ref = gen.build_ref(case["a"])
    r = gen.to_raster(ref)
    data, mask, nv = ref.data.copy(), ref.mask.copy(), ref.nv
    changed = False
    for i, (op, arg) in enumerate(case["steps"]):
        what = f"step {i} {op} {arg if op != 'mask' else ''} on {data.dtype}"
        ctx.tag(op)
        before = mask.copy()
        # a raster with no null value has no null cells, whatever it holds
        if op in ("set", "replace"):
            v = decode(arg)
            if isinstance(v, (bool, np.bool_)) and data.dtype.kind != "b":
                raise Reject
            if op == "replace" and isinstance(v, (bool, np.bool_)):
                raise Reject
            mask = model_set((data, mask, nv), v)
            r = r.set_null_value(v) if op == "set" else r.replace_null(v)
            g = gen.get(r, what)
            require(gen.same_nv(g.nv, v) or (
                data.dtype.kind == "b" and g.dtype.kind == "b"
                and bool(g.nv) == bool(v)),
                "%s: null value is %r", what, g.nv)
            if fits(v, data.dtype):
                require(g.dtype == data.dtype,
                        "%s: fits but data type became %s", what, g.dtype)
                ctx.tag("fits")
            else:
                ctx.tag("widened")
                if isinstance(v, (float, np.floating)):
                    require(g.dtype.kind == "f", "%s: data type %s", what,
                            g.dtype)
            gen.check_cells(g, data, mask, what)
            data = np.where(mask, g.dtype.type(v), data.astype(g.dtype))
            changed |= not gen.same_nv(nv, v)
            nv = v
        elif op == "clear":
            r = r.set_null_value(None)
            g = gen.get(r, what)
            require(g.nv is None, "%s: null value is %r", what, g.nv)
            gen.check_cells(g, data, np.zeros_like(mask), what,
                            dtype=data.dtype)
            mask = np.zeros_like(mask)
            changed |= nv is not None
            nv = None
        elif op == "mask":
            mref = gen.build_ref(arg)
            add = mref.data.astype(bool) & ~mref.mask
            r = r.set_null(gen.to_raster(mref))
            mask = mask | add
            g = gen.get(r, what)
            require(g.nv is not None, "%s: no null value", what)
            if nv is not None:
                require(gen.same_nv(g.nv, nv), "%s: null value %r from %r",
                        what, g.nv, nv)
            gen.check_cells(g, data, mask, what, dtype=data.dtype)
            nv = g.nv
            data = np.where(mask, g.data, data)
        elif op == "burn":
            r = r.burn_mask()
            g = gen.get(r, what)
            require(gen.same_nv(g.nv, nv), "%s: null value %r from %r", what,
                    g.nv, nv)
            gen.check_cells(g, data, mask, what, dtype=data.dtype)
        else:
            n = r.to_null_mask()
            g = gen.get(n, what)
            require(g.nv is None, "%s: null value is %r", what, g.nv)
            gen.check_cells(g, mask, np.zeros_like(mask), what, dtype=bool)
            gen.check_grid(g, ref, what)
            continue
        gen.check_grid(g, ref, what)
        changed |= bool((before != mask).any())
    ctx.nontrivial(changed and not mask.all())


@P.check(st.fixed_dictionaries({"a": rs(), "flag": st.booleans()}), quick=300,
         weight=0.2)
def null_mask(case, ctx):
    """The null mask raster is true exactly at null cells."""
    ref = gen.build_ref(case["a"])
    r = gen.to_raster(ref)
    g = gen.get(r.to_null_mask())
    require(g.nv is None and g.dtype == bool, "null mask: %r %s", g.nv, g.dtype)
    gen.check_cells(g, ref.mask, np.zeros_like(ref.mask), "null mask")
    gen.check_grid(g, ref, "null mask")
    # applying it to the cleared raster restores the nulls
    back = gen.get(r.set_null_value(None).set_null(r.to_null_mask()))
    gen.check_cells(back, ref.data, ref.mask, "restored")
    ctx.nontrivial(ref.mask.any() and not ref.mask.all())
