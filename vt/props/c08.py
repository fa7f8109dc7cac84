"""C08: type conversion and rounding."""
import warnings

import numpy as np
from hypothesis import strategies as st

from vt import gen
from vt.core import Prop, Reject, fail, require

P = Prop(
    "C08",
    "case = (raster, target data type, requested null value / decimals); "
    "non-trivial when the data type or null value changes and there are valid "
    "cells, with null cells if the raster has a null value",
)

DTS = gen.INTS + gen.FLOATS + ["float16", "bool"]


@st.composite
def cast_cases(draw):
    a = draw(gen.rasters(
        dts=DTS, ny=(1, 6), nx=(1, 6),
        kinds=["small", "neg", "mid", "wide", "quarter", "arange"]))
    dt = draw(st.sampled_from(DTS))
    if np.dtype(a["dt"]).kind in "iu" and a["nv"] is not None and draw(
        st.booleans()
    ):
        # null values on the edge of what other types hold
        ii = np.iinfo(a["dt"])
        pool = [v for v in (127, 128, -128, -129, 255, 256, 32767, 65535,
                            -9999, 65536, 2**31 - 1, 2**32 - 1, 2**24 + 1)
                if ii.min <= v <= ii.max]
        if pool:
            a["nv"] = draw(st.sampled_from(pool))
    new = draw(st.one_of(
        st.none(),
        st.none(),
        st.sampled_from(["old", "near", 0, 1, 5, -1, 99, 255, 70000, -9999,
                         -9999.0, 0.5, "nan"]),
    ))
    return {"a": a, "dt": dt, "new": new, "alias": draw(st.integers(0, 3))}


def fix_kind(spec):
    k = np.dtype(spec["dt"]).kind
    if k != "f" and spec["kind"] == "quarter":
        spec = dict(spec, kind="neg")
    if spec["dt"] == "float16" and spec["kind"] == "wide":
        spec = dict(spec, kind="quarter")
    return spec


def representable(v, dt):
    """v is exactly representable in dt (NaN only in floats)."""
    if isinstance(v, float) and np.isnan(v):
        return dt.kind == "f"
    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if dt.kind == "b":
            return v in (0, 1)
        if dt.kind in "iu":
            if isinstance(v, (float, np.floating)) and (
                not np.isfinite(v) or float(v) != int(v)
            ):
                return False
            ii = np.iinfo(dt)
            return ii.min <= int(v) <= ii.max
        return bool(float(dt.type(v)) == float(v)) and (
            not isinstance(v, (int, np.integer))
            or int(dt.type(v)) == int(v))


def plain(v):
    return v.item() if isinstance(v, np.generic) else v


ALIASES = {
    "int8": ["int8", "i1", np.int8, np.dtype("int8")],
    "int16": ["int16", "i2", np.int16, np.dtype("int16")],
    "int32": ["int32", "i4", np.int32, np.dtype("int32")],
    "int64": ["int64", int, np.int64, "i8"],
    "uint8": ["uint8", "u1", np.uint8, np.dtype("uint8")],
    "uint16": ["uint16", "u2", np.uint16, np.dtype("uint16")],
    "uint32": ["uint32", "u4", np.uint32, np.dtype("uint32")],
    "uint64": ["uint64", "u8", np.uint64, np.dtype("uint64")],
    "float16": ["float16", "f2", np.float16, np.dtype("float16")],
    "float32": ["float32", "f4", np.float32, np.dtype("float32")],
    "float64": ["float64", float, np.float64, "f8"],
    "bool": ["bool", bool, np.bool_, "?"],
}


@P.check(cast_cases(), quick=3600, weight=2)
def astype(case, ctx):
    ref = gen.build_ref(fix_kind(case["a"]))
    src, dt = ref.dtype, np.dtype(case["dt"])
    valid = ~ref.mask
    if src.kind == "f" and dt.kind in "iu":
        ii = np.iinfo(dt)
        lo = max(float(ii.min), -(2.0**62))
        hi = min(float(ii.max), 2.0**62)
        # keep the cast defined
        with np.errstate(all="ignore"):
            d = np.clip(ref.data.astype("float64"), lo, hi)
        d = np.where(d > hi - 2, hi - 2 if hi > 1000 else hi, d).astype(src)
        if src.itemsize < 8:
            ok = (d.astype("float64") <= hi) & (d.astype("float64") >= lo)
            d = np.where(ok, d, src.type(0))
        ref.data = np.where(ref.mask, ref.data, d)
        if ref.nv is not None and (gen.eq_nv(ref.data, ref.nv) & valid).any():
            raise Reject
    new = case["new"]
    if new == "old":
        new = None if ref.nv is None else plain(ref.nv)
    elif new == "near":
        if ref.nv is None or gen.isnan(ref.nv):
            new = None
        elif src.kind == "f":
            new = float(ref.nv) + 1
        else:
            ii = np.iinfo(src) if src.kind != "b" else None
            new = None if ii is None else int(ref.nv) - (
                1 if int(ref.nv) > 0 else -1)
    elif new == "nan":
        new = float("nan")
    r = gen.to_raster(ref)
    target = ALIASES[case["dt"]][case["alias"]]
    what = f"astype({src}->{dt}, nv {ref.nv!r}, new {new!r})"
    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        want = ref.data.astype(dt)
        try:
            g = gen.get(r.astype(target, new_null_value=new,
                                 warn_about_null_change=False), what)
        except ValueError as e:
            if new is not None and not representable(new, dt):
                ctx.tag("rejected-nv")
                return
            fail(f"{what}: {e}")
    gen.check_grid(g, ref, what)
    gen.check_cells(g, want, ref.mask, what, dtype=dt)
    if not ref.masked:
        require(new is not None or g.nv is None,
                "%s: gained null value %r", what, g.nv)
        ctx.nontrivial(src != dt)
        return
    require(g.nv is not None, "%s: lost the null value", what)
    require(representable(plain(g.nv), dt),
            "%s: null value %r is not representable", what, g.nv)
    if new is not None:
        if representable(new, dt):
            require(gen.same_nv(plain(g.nv), new), "%s: null value is %r",
                    what, g.nv)
    elif gen.isnan(ref.nv):
        require(gen.same_nv(g.nv, ref.nv)
                or gen.same_nv(g.nv, gen.default_null(dt)),
                "%s: null value is %r", what, g.nv)
    elif representable(plain(ref.nv), dt):
        require(gen.same_nv(plain(g.nv), plain(ref.nv)),
                "%s: null value is %r", what, g.nv)
        ctx.tag("kept")
    elif (dt.kind in "iu" and float(ref.nv) == int(ref.nv)) or (
        abs(float(ref.nv)) > (
            1 if dt.kind == "b" else float(
                (np.finfo if dt.kind == "f" else np.iinfo)(dt).max))
    ):
        require(gen.same_nv(plain(g.nv), gen.default_null(dt)),
                "%s: null value is %r, expected the default", what, g.nv)
        ctx.tag("default")
    # every null cell holds it: checked by gen.get
    ctx.nontrivial((src != dt or new is not None) and ref.mask.any()
                   and valid.any())
    ctx.tag(f"{src}->{dt}")


@st.composite
def round_cases(draw):
    a = draw(gen.rasters(
        dts=[d for d in DTS if d != "bool"], ny=(1, 6), nx=(1, 6),
        kinds=["small", "neg", "mid", "quarter", "normal", "wide"]))
    if a["dt"] == "float16":
        a["kind"] = "quarter"
    elif np.dtype(a["dt"]).kind != "f":
        a["kind"] = {"quarter": "mid", "normal": "mid"}.get(
            a["kind"], a["kind"])
        if a["dt"] in ("int64", "uint64") and a["kind"] == "wide":
            a["kind"] = "mid"
    if a["nv"] is not None and np.dtype(a["dt"]).kind == "f" and draw(
        st.booleans()
    ):
        a["nv"] = draw(st.sampled_from([-999.5, 1.25, 0.375]))
    return {"a": a, "d": draw(st.integers(-2, 3))}


@P.check(round_cases(), quick=800, weight=0.6)
def rounding(case, ctx):
    ref = gen.build_ref(case["a"])
    d = case["d"]
    if np.dtype(ref.dtype).kind in "iu" and d < 0 and ref.dtype.itemsize == 1:
        raise Reject  # NumPy itself overflows
    with np.errstate(all="ignore"):
        want = np.round(ref.data, d)
        r = gen.to_raster(ref)
        got = r.round(d) if d else r.round()
        g = gen.get(got, "round")
    require(gen.same_nv(g.nv, ref.nv), "round: null value %r from %r", g.nv,
            ref.nv)
    gen.check_grid(g, ref, "round")
    gen.check_cells(g, want, ref.mask, f"round {ref.dtype} {d}",
                    dtype=want.dtype)
    ctx.nontrivial((want != ref.data).any())
