"""C24: a raster's pieces tile it exactly."""
import numpy as np
from hypothesis import strategies as st

from vt import gen
from vt.core import Prop, require

P = Prop(
    "C24",
    "case = (raster, chunking); non-trivial when there is more than one "
    "spatial chunk",
)

ras = gen.rasters(dts=["uint8", "int32", "float32", "float64", "bool"],
                  ny=(1, 11), nx=(1, 11), kinds=["small", "arange", "neg"])


def edges(chunks):
    return [np.concatenate([[0], np.cumsum(c)]).astype(int) for c in chunks]


def bounds(ref, sl):
    rx, ry = ref.res
    x, y = ref.x[sl[2]], ref.y[sl[1]]
    return (x[0] - rx / 2, y[-1] - ry / 2, x[-1] + rx / 2, y[0] + ry / 2)


def near(a, b, ref):
    return np.allclose(a, b, rtol=1e-11, atol=1e-6 * min(ref.res))


def check_piece(p, ref, sl, what):
    g = gen.get(p, what)
    require(gen.same_nv(g.nv, ref.nv), "%s: null value %r", what, g.nv)
    gen.check_cells(g, ref.data[sl], ref.mask[sl], what, dtype=ref.dtype)
    require(gen.same_coords(g.x, ref.x[sl[2]], ref.res[0])
            and gen.same_coords(g.y, ref.y[sl[1]], ref.res[1]),
            "%s: position x %s y %s", what, g.x[:2], g.y[:2])
    require(gen.same_crs(g.crs, ref.crs), "%s: crs %s", what, g.crs)
    require(near(np.abs(p.resolution), ref.res, ref), "%s: resolution %s",
            what, p.resolution)
    require(near(p.bounds, bounds(ref, sl), ref), "%s: bounds %s expected %s",
            what, p.bounds, bounds(ref, sl))


@P.check(st.fixed_dictionaries({"a": ras, "pre": st.booleans()}), quick=700,
         weight=2)
def chunk_rasters(case, ctx):
    r, ref = gen.make(case["a"])
    if case["pre"]:
        r = r.copy() if ref.dtype == bool else r.astype(ref.dtype)
    pieces = r.get_chunk_rasters()
    ch = r.data.chunks
    require(pieces.shape == r.data.numblocks, "array of pieces has shape %s",
            pieces.shape)
    e = edges(ch)
    for idx in np.ndindex(pieces.shape):
        sl = tuple(slice(e[d][idx[d]], e[d][idx[d] + 1]) for d in range(3))
        check_piece(pieces[idx], ref, sl, f"chunk raster {idx}")
    ctx.nontrivial(np.prod(pieces.shape[1:]) > 1)


@P.check(st.fixed_dictionaries({"a": ras, "band": st.booleans()}), quick=700,
         weight=1)
def bounding_boxes(case, ctx):
    r, ref = gen.make(case["a"])
    df = r.get_chunk_bounding_boxes(include_band=case["band"])
    ch = r.data.chunks
    e = edges(ch)
    want = []
    nb = len(ch[0]) if case["band"] else 1
    for b in range(nb):
        for i in range(len(ch[1])):
            for j in range(len(ch[2])):
                sl = (None, slice(e[1][i], e[1][i + 1]),
                      slice(e[2][j], e[2][j + 1]))
                want.append(((b, i, j), bounds(ref, sl)))
    require(len(df) == len(want), "%d boxes expected %d", len(df), len(want))
    require(gen.same_crs(df.crs, ref.crs), "boxes: crs %s", df.crs)
    require(("chunk_band" in df.columns) == case["band"], "columns %s",
            list(df.columns))
    got = {}
    for row in df.itertuples():
        k = (getattr(row, "chunk_band", 0), row.chunk_row, row.chunk_col)
        require(k not in got, "two boxes for chunk %s", k)
        got[k] = row.geometry
    for k, b in want:
        require(k in got, "no box for chunk %s", k)
        require(near(got[k].bounds, b, ref), "chunk %s: box %s expected %s",
                k, got[k].bounds, b)
        require(np.isclose(got[k].area, (b[2] - b[0]) * (b[3] - b[1])),
                "chunk %s: not a box", k)
    ctx.nontrivial(len(want) > nb)


@P.check(st.fixed_dictionaries({
    "a": ras, "pads": st.lists(st.integers(-1, 3), min_size=4, max_size=4),
    "shift": st.lists(st.integers(-3, 3), min_size=2, max_size=2)}),
    quick=700, weight=1)
def block_infos(case, ctx):
    r, ref = gen.make(case["a"])
    infos = r.geo_block_infos.compute()
    ch = r.data.chunks
    e = edges(ch)
    require(infos.shape == r.data.numblocks, "shape %s", infos.shape)
    rx, ry = ref.res
    left, top = ref.x[0] - rx / 2, ref.y[0] + ry / 2
    for idx in np.ndindex(infos.shape):
        gi = infos[idx]
        sl = tuple(slice(e[d][idx[d]], e[d][idx[d] + 1]) for d in range(3))
        what = f"block info {idx}"
        want = tuple(s.stop - s.start for s in sl)
        require(tuple(gi.shape) == want, "%s: shape %s expected %s", what,
                gi.shape, want)
        for nm, s in (("band_slice", sl[0]), ("row_slice", sl[1]),
                      ("col_slice", sl[2])):
            v = getattr(gi, nm)
            require((v.start, v.stop) == (s.start, s.stop),
                    "%s: %s %s", what, nm, v)
        require(tuple(gi.chunk_location) == idx, "%s: location %s", what,
                gi.chunk_location)
        require(tuple(gi.parent_shape) == ref.shape, "%s: parent %s", what,
                gi.parent_shape)
        require(near(tuple(gi.parent_affine)[:6],
                     (rx, 0, left, 0, -ry, top), ref),
                "%s: parent affine %s", what, gi.parent_affine)
        require(gen.same_coords(gi.x, ref.x[sl[2]], rx)
                and gen.same_coords(gi.y, ref.y[sl[1]], ry),
                "%s: coordinates x %s y %s", what, gi.x[:2], gi.y[:2])
        require(list(gi.band) == list(range(sl[0].start, sl[0].stop)),
                "%s: band %s", what, gi.band)
        require(near(gi.bbox.bounds, bounds(ref, sl), ref), "%s: bbox %s",
                what, gi.bbox.bounds)
        require(gen.same_crs(None if gi.crs is None else str(gi.crs),
                             ref.crs), "%s: crs %s", what, gi.crs)
    # grown, trimmed and moved windows keep their place
    k = tuple(np.random.default_rng(case["a"]["seed"]).integers(n)
              for n in infos.shape)
    gi = infos[k]
    t, b, l, ri = case["pads"]
    nb, ny, nx = gi.shape
    if ny + t + b > 0 and nx + l + ri > 0 and ny + t > 0 and nx + l > 0:
        p = gi.pad_y(t, b).pad_x(l, ri)
        r0, c0 = e[1][k[1]] - t, e[2][k[2]] - l
        require((p.row_slice.start, p.row_slice.stop)
                == (r0, e[1][k[1] + 1] + b), "pad: rows %s", p.row_slice)
        require((p.col_slice.start, p.col_slice.stop)
                == (c0, e[2][k[2] + 1] + ri), "pad: cols %s", p.col_slice)
        x, y = p.affine * (0, 0)
        require(near((x, y), (left + c0 * rx, top - r0 * ry), ref),
                "pad: origin %s", (x, y))
        require(tuple(p.shape) == (nb, ny + t + b, nx + l + ri),
                "pad: shape %s", p.shape)
    sy, sx = case["shift"]
    s = gi.shift(sy, sx)
    x, y = s.affine * (0, 0)
    require(near((x, y), (left + (e[2][k[2]] + sx) * rx,
                          top - (e[1][k[1]] + sy) * ry), ref),
            "shift: origin %s", (x, y))
    require(tuple(s.shape) == tuple(gi.shape) and s.row_slice.start
            == e[1][k[1]] + sy and s.col_slice.start == e[2][k[2]] + sx,
            "shift: %s %s", s.row_slice, s.col_slice)
    require(tuple(gi.shape) == (nb, ny, nx), "the original info changed")
    ctx.nontrivial(np.prod(infos.shape[1:]) > 1)


@P.check(st.fixed_dictionaries({"a": ras}), quick=500, weight=0.8)
def quadrants(case, ctx):
    spec = dict(case["a"])
    spec["ny"], spec["nx"] = max(2, spec["ny"]), max(2, spec["nx"])
    r, ref = gen.make(spec)
    q = r.to_quadrants()
    _, ny, nx = ref.shape
    g = [gen.get(p, "quadrant") for p in q]
    h, w = g[0].shape[1], g[0].shape[2]
    require(0 < h < ny and 0 < w < nx, "northwest quadrant is %d x %d of "
            "%d x %d", h, w, ny, nx)
    # halves, up to the odd row or column
    require(abs(2 * h - ny) <= 1 and abs(2 * w - nx) <= 1,
            "quadrant sizes %d x %d of %d x %d", h, w, ny, nx)
    s = np.s_
    for p, sl, nm in ((q.nw, s[:, :h, :w], "nw"), (q.ne, s[:, :h, w:], "ne"),
                      (q.sw, s[:, h:, :w], "sw"), (q.se, s[:, h:, w:], "se")):
        check_piece(p, ref, sl, nm)
    for a, b in zip(q, (q.nw, q.ne, q.sw, q.se)):
        require(a is b, "quadrants are not in the documented order")
    ctx.nontrivial(ref.data.size > 4)


@P.check(st.fixed_dictionaries({"a": ras}), quick=300, weight=0.3)
def chunked_coords(case, ctx):
    r, ref = gen.make(case["a"])
    xc, yc = r.get_chunked_coords()
    ch = r.data.chunks
    require(xc.chunks[2] == ch[2] and yc.chunks[1] == ch[1],
            "chunks %s %s of %s", xc.chunks, yc.chunks, ch)
    require(xc.shape == (1, 1, ref.shape[2]) and yc.shape
            == (1, ref.shape[1], 1), "shapes %s %s", xc.shape, yc.shape)
    require(gen.same_coords(np.asarray(xc).ravel(), ref.x, ref.res[0])
            and gen.same_coords(np.asarray(yc).ravel(), ref.y, ref.res[1]),
            "coordinates differ")
    ctx.nontrivial(len(ch[1]) + len(ch[2]) > 2)
