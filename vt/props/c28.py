"""C28: raster to vector conversion reports every valid cell once."""
import numpy as np
from hypothesis import strategies as st

from vt import gen
from vt.core import Prop, require

P = Prop(
    "C28",
    "case = (raster, chunking); non-trivial when there are valid cells and "
    "either nulls or several chunks",
)


@P.check(st.fixed_dictionaries({
    "a": gen.rasters(dts=gen.INTS + gen.FLOATS + ["bool"], ny=(1, 9),
                     nx=(1, 9)),
    "tv": st.booleans()}), quick=1000, weight=1)
def points(case, ctx):
    r, ref = gen.make(case["a"])
    df = r.to_vector() if case["tv"] else r.to_points()
    require(gen.same_crs(df.crs, ref.crs), "points: crs %s", df.crs)
    df = df.compute()
    require({"value", "band", "row", "col", "geometry"} <= set(df.columns),
            "columns %s", list(df.columns))
    require(gen.same_crs(df.crs, ref.crs), "computed points: crs %s", df.crs)
    want = np.argwhere(~ref.mask)
    require(len(df) == len(want), "%d points for %d valid cells", len(df),
            len(want))
    require(df.index.is_unique, "index is not unique")
    ctx.nontrivial(len(want) > 0 and (
        ref.mask.any() or np.prod(r.data.numblocks) > 1))
    if not len(df):
        return
    require(df["value"].dtype == ref.dtype, "value dtype %s",
            df["value"].dtype)
    b = df["band"].to_numpy() - 1
    i, j = df["row"].to_numpy(), df["col"].to_numpy()
    keys = {tuple(map(int, t)) for t in zip(b, i, j)}
    require(keys == {tuple(map(int, t)) for t in want},
            "points do not name the valid cells: extra %s missing %s",
            sorted(keys - set(map(tuple, want.tolist())))[:3],
            sorted(set(map(tuple, want.tolist())) - keys)[:3])
    v = df["value"].to_numpy()
    bad = ~gen.same_cells(v, ref.data[b, i, j])
    require(not bad.any(), "value %s at %s expected %s", v[bad][:2],
            [(b[k], i[k], j[k]) for k in np.flatnonzero(bad)[:2]],
            ref.data[b, i, j][bad][:2])
    x, y = df.geometry.x.to_numpy(), df.geometry.y.to_numpy()
    require(gen.same_coords(x, ref.x[j], ref.res[0])
            and gen.same_coords(y, ref.y[i], ref.res[1]),
            "points are not at the cell centres")


POLY_KINDS = ["two", "small", "const", "neg"]


@st.composite
def poly_cases(draw):
    a = draw(gen.rasters(
        dts=["uint8", "int8", "int16", "uint16", "int32", "uint32", "int64",
             "uint64", "float32", "float64", "bool"],
        bands=(1, 2), ny=(1, 8), nx=(1, 8), kinds=POLY_KINDS))
    return {"a": a, "n": draw(st.sampled_from([4, 8])),
            "tv": draw(st.booleans())}


@P.check(poly_cases(), quick=700, weight=2)
def polygons(case, ctx):
    import shapely

    r, ref = gen.make(case["a"])
    n = case["n"]
    df = r.to_vector(True, n) if case["tv"] else r.to_polygons(n)
    df = df.compute()
    require(gen.same_crs(df.crs, ref.crs), "polygons: crs %s", df.crs)
    rx, ry = ref.res
    nb, ny, nx = ref.shape
    hits = np.zeros(ref.shape, int)
    cx, cy = np.meshgrid(ref.x, ref.y)
    area = np.zeros(nb)
    seen = set()
    for row in df.itertuples():
        b = int(row.band) - 1
        require(0 <= b < nb, "band %s", row.band)
        require((b, row.value) not in seen, "value %r of band %d is reported "
                "twice", row.value, b + 1)
        seen.add((b, row.value))
        geom = row.geometry
        inside = shapely.contains_xy(geom, cx.ravel(), cy.ravel()).reshape(
            ny, nx)
        hits[b] += inside
        area[b] += geom.area
        bad = inside & ~ref.mask[b] & (ref.data[b] != row.value)
        require(not bad.any(), "polygon of value %r covers a cell of value "
                "%r", row.value, ref.data[b][bad][:1])
        require(not (inside & ref.mask[b]).any(),
                "polygon of value %r covers a null cell", row.value)
    require((hits == ~ref.mask).all(),
            "cells covered %s times", sorted(set(hits.ravel().tolist())))
    want = (~ref.mask).sum(axis=(1, 2)) * rx * ry
    require(np.allclose(area, want, rtol=1e-6), "area %s expected %s", area,
            want)
    ctx.nontrivial((~ref.mask).any() and (
        ref.mask.any() or np.prod(r.data.numblocks) > 1))
