"""C18: region labelling groups exactly the connected equal valued cells."""
import numpy as np
from hypothesis import strategies as st

from vt import gen
from vt.core import Prop, require

P = Prop(
    "C18",
    "case = (raster, connectivity, selected values); non-trivial when a band "
    "has at least two regions and one with several cells",
)

DTS = ["uint8", "int16", "int32", "int64", "float32", "float64"]

cases = st.fixed_dictionaries({
    "a": gen.rasters(dts=DTS, bands=(1, 2), ny=(1, 12), nx=(1, 12),
                     kinds=["two", "small", "small", "neg", "const"],
                     dens=[0.1, 0.3, 0.5, "row", "col", "center"]),
    "nb": st.sampled_from([4, 8, None]),
    "uv": st.one_of(st.none(), st.none(), st.lists(
        st.integers(-3, 5), min_size=1, max_size=4, unique=True)),
    "form": st.sampled_from(["list", "tuple", "array"]),
})


def flood(data, ok, nbrs):
    """Component number per cell (0: none) of equal valued ok cells."""
    ny, nx = data.shape
    lab = np.zeros((ny, nx), int)
    step = [(0, 1), (1, 0), (0, -1), (-1, 0)]
    if nbrs == 8:
        step += [(1, 1), (1, -1), (-1, 1), (-1, -1)]
    n = 0
    for s in np.ndindex(ny, nx):
        if lab[s] or not ok[s]:
            continue
        n += 1
        lab[s] = n
        todo = [s]
        while todo:
            y, x = todo.pop()
            for dy, dx in step:
                t = (y + dy, x + dx)
                if (0 <= t[0] < ny and 0 <= t[1] < nx and ok[t]
                        and not lab[t] and data[t] == data[s]):
                    lab[t] = n
                    todo.append(t)
    return lab, n


@P.check(cases, quick=800)
def regions(case, ctx):
    import raster_tools as rts

    # labelling takes seconds with many chunks: at most 9 per band
    spec = dict(case["a"])
    for k in ("cy", "cx"):
        if spec[k] in (-1, 1, 2, 3):
            spec[k] = abs(spec[k]) + 3
    r, ref = gen.make(spec)
    uv = case["uv"]
    kw = {}
    if case["nb"] is not None:
        kw["neighbors"] = case["nb"]
    if uv is not None:
        kw["unique_values"] = {"list": list(uv), "tuple": tuple(uv),
                               "array": np.array(uv)}[case["form"]]
    what = f"regions {case['nb']} values {uv}"
    q = rts.general.regions(r, **kw)
    g = gen.get(q, what)
    gen.check_grid(g, ref, what)
    require(g.data.shape == ref.shape, "%s: shape %s", what, g.data.shape)
    bad = g.mask != ref.mask
    require(not bad.any(), "%s: null mask: %s", what,
            gen.where_diff(bad, g.mask, ref.mask))
    require((g.nv is not None) == ref.masked, "%s: null value %r", what, g.nv)
    big = False
    for b in range(ref.shape[0]):
        ok = ~ref.mask[b] & (ref.data[b] != 0)
        if uv is not None:
            ok &= np.isin(ref.data[b], uv)
        lab, n = flood(ref.data[b], ok, case["nb"] or 4)
        got = g.data[b]
        wrong = (~ok & ~ref.mask[b] & (got != 0)) | (ok & (got == 0))
        require(not wrong.any(), "%s band %d: cells labelled wrongly: %s",
                what, b, gen.where_diff(wrong, got, lab))
        pairs = {(int(a), int(c)) for a, c in zip(lab[ok], got[ok])}
        require(len(pairs) == n and len({c for _, c in pairs}) == n,
                "%s band %d: regions %s for components %d", what, b,
                sorted(pairs), n)
        big |= n > 1 and np.bincount(lab[ok].ravel()).max(initial=0) > 1
    ctx.nontrivial(big)
    ctx.tag("masked" if ref.masked else "unmasked",
            "values" if uv is not None else "all",
            "multi" if r.data.npartitions > r.nbands else "single")
