"""C02: operators and ufuncs act cellwise as NumPy does, nulls propagate."""
import operator

import dask.array as da
import numpy as np
from hypothesis import strategies as st

from vt import gen
from vt.core import Prop, Reject, fail, require

P = Prop(
    "C02",
    "case = (operation, operand kinds/order, rasters with dtype, null value, "
    "null pattern, chunking); non-trivial when at least one result cell is "
    "valid and, for rasters with a null value, at least one is null",
)

EXACT1 = ["absolute", "negative", "positive", "sign", "square", "floor",
          "ceil", "trunc", "rint", "isnan", "isfinite", "isinf", "signbit",
          "logical_not", "invert", "conjugate"]
APPROX1 = ["sqrt", "exp", "log", "sin", "cos", "arctan", "tanh", "cbrt",
           "log10", "log1p", "deg2rad", "reciprocal", "fabs"]
EXACT2 = ["add", "subtract", "multiply", "true_divide", "floor_divide",
          "remainder", "fmod", "maximum", "minimum", "fmax", "fmin",
          "copysign", "greater", "greater_equal", "less", "less_equal",
          "equal", "not_equal", "logical_and", "logical_or", "logical_xor",
          "bitwise_and", "bitwise_or", "bitwise_xor", "left_shift",
          "right_shift", "heaviside", "gcd", "lcm", "nextafter"]
APPROX2 = ["power", "float_power", "arctan2", "hypot", "logaddexp", "ldexp"]

OPS1 = {"absolute": operator.abs, "negative": operator.neg,
        "positive": operator.pos, "invert": operator.invert}
OPS2 = {"add": operator.add, "subtract": operator.sub,
        "multiply": operator.mul, "true_divide": operator.truediv,
        "floor_divide": operator.floordiv, "remainder": operator.mod,
        "power": operator.pow, "greater": operator.gt,
        "greater_equal": operator.ge, "less": operator.lt,
        "less_equal": operator.le, "equal": operator.eq,
        "not_equal": operator.ne, "bitwise_and": operator.and_,
        "bitwise_or": operator.or_, "bitwise_xor": operator.xor,
        "left_shift": operator.lshift, "right_shift": operator.rshift}
IOPS2 = {"add": operator.iadd, "subtract": operator.isub,
         "multiply": operator.imul, "true_divide": operator.itruediv,
         "floor_divide": operator.ifloordiv, "remainder": operator.imod,
         "bitwise_and": operator.iand, "bitwise_or": operator.ior,
         "bitwise_xor": operator.ixor, "left_shift": operator.ilshift,
         "right_shift": operator.irshift, "power": operator.ipow}

DTS = gen.INTS + gen.FLOATS + ["bool", "float16"]


def ra(**kw):
    return gen.rasters(
        dts=DTS, ny=(1, 7), nx=(1, 7),
        kinds=["small", "neg", "mid", "wide", "quarter", "special"], **kw
    )


def fix_kind(spec):
    if np.dtype(spec["dt"]).kind != "f" and spec["kind"] in (
        "quarter", "special"
    ):
        spec = dict(spec, kind="neg")
    if spec["dt"] == "float16" and spec["kind"] == "wide":
        spec = dict(spec, kind="quarter")
    return spec


def data_of(spec):
    return gen.build_ref(fix_kind(spec))


def compare(g, out, mask, ref, masked, what, approx):
    rtol = None
    if approx and out.dtype.kind == "f":
        rtol = {2: 2e-3, 4: 2e-6}.get(out.dtype.itemsize, 1e-12)
    require((g.nv is not None) == masked,
            "%s: null value is %r though operands are %smasked", what, g.nv,
            "" if masked else "un")
    gen.check_grid(g, ref, what)
    gen.check_cells(g, out, mask, what, rtol=rtol,
                    atol=0 if rtol is None else 1e-300, dtype=out.dtype)


def mark(ctx, mask, masked):
    ctx.nontrivial((not mask.all()) and (not masked or mask.any()))


@P.check(st.fixed_dictionaries({
    "op": st.sampled_from(EXACT1 + APPROX1 + ["modf", "frexp"]),
    "a": ra(), "via_op": st.booleans(),
}), quick=2400, weight=1.0)
def unary(case, ctx):
    op = case["op"]
    uf = getattr(np, op)
    a = data_of(case["a"])
    with np.errstate(all="ignore"):
        try:
            want = uf(a.data)
        except TypeError:
            want = None
    r = gen.to_raster(a)
    f = OPS1.get(op) if case["via_op"] else None
    f = f or uf
    if want is None:
        try:
            gen.get(f(r))
        except TypeError:
            return
        fail(f"{op} on {a.dtype}: NumPy raises TypeError but no error seen")
    got = f(r)
    outs = want if isinstance(want, tuple) else (want,)
    gots = got if isinstance(got, tuple) else (got,)
    require(len(outs) == len(gots), "%s: %d results", op, len(gots))
    for k, (o, gr) in enumerate(zip(outs, gots)):
        g = gen.get(gr, op)
        compare(g, o, a.mask, a, a.masked, f"{op}[{k}]({a.dtype})",
                op in APPROX1)
    mark(ctx, a.mask, a.masked)
    ctx.tag(op, str(a.dtype))


@st.composite
def binary_cases(draw):
    a = draw(ra())
    bk = draw(st.sampled_from(
        ["raster"] * 4 + ["int", "float", "bool", "npscalar", "array",
                          "list", "dask", "dataarray", "bandwise"]))
    b = None
    if bk in ("raster", "dataarray"):
        b = draw(ra(bands=a["b"]))
        b.update(ny=a["ny"], nx=a["nx"], geo=a["geo"])
        if bk == "dataarray":
            b.update(nv=None)
    elif bk == "int":
        b = draw(st.sampled_from([0, 1, 2, 3, -1, -2, 7, 255, 300, 70000]))
    elif bk == "float":
        b = draw(st.sampled_from(
            [0.0, 0.5, -1.5, 2.0, 1e10, float("nan"), float("inf")]))
    elif bk == "bool":
        b = draw(st.booleans())
    elif bk == "npscalar":
        b = {"dt": draw(st.sampled_from(gen.INTS + gen.FLOATS)),
             "v": draw(st.integers(0, 100))}
    else:
        shape = draw(st.sampled_from(
            ["x", "yx", "1yx", "byx", "b11", "111", "y1"]))
        b = {"shape": shape, "seed": draw(gen.seeds),
             "dt": draw(st.sampled_from(gen.INTS + gen.FLOATS + ["bool"])),
             "kind": draw(st.sampled_from(["small", "neg"]))}
    return {
        "op": draw(st.sampled_from(EXACT2 + APPROX2 + ["divmod"])),
        "a": a, "bk": bk, "b": b, "swap": draw(st.booleans()),
        "via": draw(st.sampled_from(["ufunc", "op", "op", "iop"])),
    }


def operand(case, a):
    """Returns (operand as handed to the library, numpy operand, mask)."""
    bk, b = case["bk"], case["b"]
    nb, ny, nx = a.shape
    if bk in ("raster", "dataarray"):
        ref = data_of(b)
        r = gen.to_raster(ref)
        if bk == "dataarray":
            # raw DataArrays of float type are taken to have NaN as null
            return r.xdata, ref.data, None
        return r, ref.data, (ref.mask if ref.masked else None)
    if bk == "int":
        return b, np.int64(b), None
    if bk == "float":
        return b, np.float64(b), None
    if bk == "bool":
        return b, b, None
    if bk == "npscalar":
        v = np.dtype(b["dt"]).type(b["v"])
        return v, v, None
    shape = {"x": (nx,), "yx": (ny, nx), "1yx": (1, ny, nx),
             "byx": (nb, ny, nx), "b11": (nb, 1, 1), "111": (1, 1, 1),
             "y1": (ny, 1)}[b["shape"]]
    if bk == "bandwise":
        if nb != 1 and nx in (1, nb):
            raise Reject
        shape = (nb,)
    arr = gen.build_data(dict(b=1, ny=1, nx=int(np.prod(shape)), dt=b["dt"],
                              kind=b["kind"], seed=b["seed"])).reshape(shape)
    np_arr = arr
    if bk == "bandwise":
        np_arr = arr.reshape(-1, 1, 1)
        return arr, np_arr, None
    if bk == "list":
        lst = arr.tolist()
        return lst, np.asarray(lst), None
    if bk == "dask":
        return da.from_array(arr.copy(), chunks=-1), np_arr, None
    return arr.copy(), np_arr, None


@P.check(binary_cases(), quick=4800, weight=2.2)
def binary(case, ctx):
    op, bk, via, swap = case["op"], case["bk"], case["via"], case["swap"]
    a = data_of(case["a"])
    rb, nbv, bmask = operand(case, a)
    if bk == "dataarray" and np.asarray(nbv).dtype.kind == "f":
        if np.isnan(nbv).any():
            raise Reject
        # float DataArrays are read with NaN as their null value
        bmask = np.zeros(a.shape, bool)
    uf = divmod if op == "divmod" else getattr(np, op)
    if op == "power":
        # integer ** negative integer is an error in NumPy
        ee = a.data if swap else np.asarray(nbv)
        if ee.dtype.kind == "i" and (
            np.asarray(ee).min() < 0 or via == "iop"
        ):
            raise Reject
    if op == "ldexp" and (
        bk == "bool" or np.asarray(nbv).dtype.kind not in "iuf"
    ):
        raise Reject
    npargs = (nbv, a.data) if swap else (a.data, nbv)
    if op == "ldexp" and swap and bk in ("int", "float"):
        npargs = (case["b"], a.data)
    with np.errstate(all="ignore"):
        try:
            want = uf(*npargs)
        except TypeError:
            want = None
        except OverflowError:
            raise Reject from None
    ra_ = gen.to_raster(a)
    lhs = ra_.bandwise if bk == "bandwise" else ra_
    inplace = False
    f = uf
    if op != "divmod":
        if via == "op":
            f = OPS2.get(op, uf)
        elif via == "iop" and not swap and bk not in ("bandwise",):
            if op in IOPS2:
                f = IOPS2[op]
                inplace = True
    args = (rb, lhs) if swap else (lhs, rb)
    # a plain list/array on the left of a Python operator would make NumPy or
    # list semantics decide; the library documents raster operators, and
    # NumPy arrays defer to the raster through the ufunc protocol
    if swap and f is not uf and bk in ("list", "dataarray", "dask"):
        f = uf
        if op == "divmod":
            raise Reject
    if swap and bk in ("dask",):
        # dask arrays answer ufuncs themselves on the left hand side
        raise Reject
    if swap and op == "divmod" and bk in ("list", "dataarray", "dask"):
        raise Reject
    if want is None:
        try:
            res = f(*args)
            res = res if isinstance(res, tuple) else (res,)
            for x in res:
                gen.get(x)
        except TypeError:
            return
        fail(f"{op}: NumPy raises TypeError but no error seen")
    got = f(*args)
    if inplace:
        require(got is ra_, "in-place %s returned a new object", op)
    outs = want if isinstance(want, tuple) else (want,)
    gots = got if isinstance(got, tuple) else (got,)
    mask = a.mask if bmask is None else a.mask | bmask
    masked = a.masked or bmask is not None
    for k, (o, gr) in enumerate(zip(outs, gots, strict=True)):
        o = np.asarray(o)
        g = gen.get(gr, op)
        compare(g, np.broadcast_to(o, a.shape), mask, a, masked,
                f"{op}[{k}] {a.dtype} {bk} swap={swap}", op in APPROX2)
    mark(ctx, mask, masked)
    ctx.tag(op, bk, via)


@st.composite
def expr_cases(draw):
    a = draw(gen.rasters(dts=["int32", "float64", "float32"], ny=(1, 6),
                         nx=(1, 6), kinds=["small", "neg"]))
    b = dict(draw(gen.rasters(dts=["int32", "float64", "int64"],
                              kinds=["small", "neg"])))
    b.update(b=a["b"], ny=a["ny"], nx=a["nx"], geo=a["geo"])
    steps = draw(st.lists(st.tuples(
        st.sampled_from(["+", "-", "*", "max", "neg", "abs", "-r", "min"]),
        st.sampled_from(["a", "b", "k"]), st.integers(-3, 3)),
        min_size=1, max_size=6))
    return {"a": a, "b": b, "steps": [list(s) for s in steps]}


@P.check(expr_cases(), quick=800, weight=0.6)
def expressions(case, ctx):
    """Chains of operators equal the NumPy expression on valid cells."""
    a, b = data_of(case["a"]), data_of(case["b"])
    ra_, rb = gen.to_raster(a), gen.to_raster(b)
    cur, ref, mask = ra_, a.data, a.mask
    masked = a.masked
    for op, who, k in case["steps"]:
        other = {"a": ra_, "b": rb, "k": k}[who]
        oref = {"a": a.data, "b": b.data, "k": np.int64(k)}[who]
        if op in ("neg", "abs"):
            f = OPS1["negative" if op == "neg" else "absolute"]
            cur, ref = f(cur), f(ref)
            continue
        if who != "k":
            o = {"a": a, "b": b}[who]
            mask = mask | o.mask
            masked = masked or o.masked
        if op == "-r":
            cur, ref = other - cur, oref - ref
        else:
            f = {"+": np.add, "-": np.subtract, "*": np.multiply,
                 "max": np.maximum, "min": np.minimum}[op]
            cur, ref = f(cur, other), f(ref, oref)
    g = gen.get(cur, "expression")
    compare(g, np.asarray(ref), mask, a, masked, "expression", True)
    mark(ctx, mask, masked)
    ctx.tag(f"len{len(case['steps'])}")
