"""C10: local statistics across bands match brute force on valid cells."""
import math

import numpy as np
from hypothesis import strategies as st

from vt import gen
from vt.core import Prop, require
from vt.props.c12 import stat_of

P = Prop(
    "C10",
    "case = (raster, statistic); non-trivial when there are several bands",
)

STATS = ["mean", "std", "var", "max", "min", "maxband", "minband", "prod",
         "sum", "mode", "median", "unique", "entropy", "asm"]
DTS = ["uint8", "int8", "int16", "uint16", "int32", "uint32", "int64",
       "float32", "float64"]

cases = st.fixed_dictionaries({
    "a": gen.rasters(dts=DTS, bands=(1, 6), ny=(1, 6), nx=(1, 6),
                     kinds=["small", "neg", "two", "const", "pos"]),
    "stat": st.sampled_from(STATS), "upper": st.booleans(),
})


def stat(name, pairs):
    """pairs: (band position, value), at least one."""
    vals = [v for _, v in pairs]
    if name == "prod":
        return math.prod(vals)
    if name == "minband":
        m = min(vals)
        return min(b for b, v in pairs if v == m)
    if name == "maxband":
        m = max(vals)
        return min(b for b, v in pairs if v == m)
    return stat_of(name, vals)


@P.check(cases, quick=2600)
def local(case, ctx):
    import raster_tools as rts

    r, ref = gen.make(case["a"])
    name = case["stat"]
    what = f"local_stats {name}"
    q = rts.general.local_stats(r, name.upper() if case["upper"] else name)
    g = gen.get(q, what)
    gen.check_grid(g, ref, what)
    nb, ny, nx = ref.shape
    out = np.zeros((1, ny, nx))
    null = np.zeros((1, ny, nx), bool)
    for i in range(ny):
        for j in range(nx):
            pairs = [(b, float(ref.data[b, i, j])) for b in range(nb)
                     if not ref.mask[b, i, j]]
            if pairs:
                out[0, i, j] = stat(name, pairs)
            else:
                null[0, i, j] = True
    require((g.nv is not None) == ref.masked, "%s: null value %r", what, g.nv)
    exact = name in ("min", "max", "mode", "unique", "minband", "maxband")
    if exact:
        gen.check_cells(g, out, null, what)
    else:
        f32 = g.dtype == np.float32
        gen.check_cells(g, out, null, what, rtol=1e-5 if f32 else 1e-9,
                        atol=2e-3 if f32 else 1e-7)
    if name in ("mode",):
        require(g.dtype == ref.dtype, "%s: dtype %s", what, g.dtype)
    ctx.nontrivial(nb > 1)
    ctx.tag(name, "masked" if ref.masked else "unmasked")
