"""C31: whole-raster reductions use exactly the valid cells."""
import dask
import numpy as np
from hypothesis import strategies as st

from vt import gen
from vt.core import Prop, Reject, require

P = Prop(
    "C31",
    "case = (raster, reduction, way of calling); non-trivial when there are "
    "both valid and null cells, or more than one chunk",
)

NAMES = ["min", "max", "sum", "prod", "mean", "var", "std", "any", "all",
         "nanmin", "nanmax", "nansum"]


@st.composite
def cases(draw):
    a = draw(gen.rasters(
        dts=gen.INTS + gen.FLOATS + ["bool"], ny=(1, 12), nx=(1, 12),
        kinds=["small", "neg", "mid", "two", "quarter", "special", "const"]))
    if np.dtype(a["dt"]).kind != "f" and a["kind"] in ("quarter", "special"):
        a["kind"] = "mid"
    return {"a": a, "f": draw(st.sampled_from(NAMES[:9])),
            "np": draw(st.booleans())}


@P.check(cases(), quick=4000)
def reduce(case, ctx):
    ref = gen.build_ref(case["a"])
    name = case["f"]
    r = gen.to_raster(ref)
    v = ref.data[~ref.mask]
    np_f = getattr(np, name if name in ("any", "all") else "nan" + name)
    if v.dtype.kind == "b" and name in ("var", "std", "mean"):
        v = v.astype("uint8")
    with np.errstate(all="ignore"):
        import warnings

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                want = np_f(v)
            except ValueError:
                want = None  # no valid cell: no minimum
            got = getattr(np, name)(r) if case["np"] else getattr(r, name)()
            require(dask.is_dask_collection(got), "%s: not lazy", name)
            got = np.asarray(got.compute())
    what = f"{name} of {ref.dtype}, {v.size} valid of {ref.data.size}"
    if want is None or (
        name in ("min", "max") and v.dtype.kind == "f" and np.isnan(want)
    ):
        require(got.size == 0 or np.isnan(got.astype("float64")).all(),
                "%s: got %r from no value", what, got)
        return
    require(got.size == 1, "%s: result %r", what, got)
    got = got.ravel()[0]
    if v.dtype.kind == "f":
        fv = v[np.isfinite(v)].astype("float64")
        if name in ("min", "max", "any", "all"):
            require(gen.same_cells(got, want), "%s: %r expected %r", what,
                    got, want)
        else:
            tol = 1e-5 if v.dtype.itemsize == 4 else 1e-10
            scale = {
                "sum": np.abs(fv).sum(),
                "mean": np.abs(fv).max(initial=0),
                "var": (fv**2).max(initial=0),
                "std": np.abs(fv).max(initial=0),
                "prod": abs(float(want)) if np.isfinite(want) else 0,
            }[name]
            if name == "std":
                tol = max(tol, 1e-3 if v.dtype.itemsize == 4 else 1e-7)
            if name == "prod":
                big = np.abs(fv[fv != 0])
                big = big[big > 1]
                if np.log10(big).sum() > 30:
                    raise Reject  # overflow depends on the order
            require(np.isclose(float(got), float(want), rtol=tol,
                               atol=tol * scale, equal_nan=True),
                    "%s: %r expected %r", what, got, want)
    elif name in ("mean", "var", "std"):
        m = float(np.abs(v.astype("float64")).max(initial=0))
        require(np.isclose(float(got), float(want), rtol=1e-9,
                           atol=1e-9 * max(m * m, 1), equal_nan=True),
                "%s: %r expected %r", what, got, want)
    else:
        require(got == want, "%s: %r expected %r", what, got, want)
    multi = np.prod(r.data.numblocks[1:]) > 1
    ctx.nontrivial(v.size > 0 and (ref.mask.any() or multi))
    ctx.tag(name, "multi" if multi else "single")
