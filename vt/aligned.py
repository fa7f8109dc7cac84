"""Rasters on aligned grids: windows of one base grid, cells k times the base
cell, and a position-keyed lookup used as the oracle."""
import numpy as np
from hypothesis import strategies as st

from vt import gen

BASES = [
    {"x0": 1070.0, "y0": -330.0, "r": 1.0, "crs": "EPSG:3857"},
    {"x0": -240.0, "y0": 600.0, "r": 30.0, "crs": "EPSG:5070"},
    {"x0": 500000.0, "y0": 4000000.0, "r": 10.0, "crs": "EPSG:32611"},
    {"x0": -120.5, "y0": 46.25, "r": 0.25, "crs": "EPSG:4326"},
    {"x0": 1000.0, "y0": -64.0, "r": 0.5, "crs": "EPSG:3857"},
]


@st.composite
def windows(draw, base, off=6, **kw):
    """A raster spec on the base grid, moved by whole base cells."""
    a = draw(gen.rasters(geo=st.just(None), **kw))
    dx, dy = draw(st.integers(-off, off)), draw(st.integers(-off, off))
    k = draw(st.sampled_from([1]))
    a["geo"] = geo_at(base, dx, dy, k)
    return a


def geo_at(base, dx, dy, k=1):
    return {"x0": base["x0"] + dx * base["r"],
            "y0": base["y0"] - dy * base["r"],
            "rx": base["r"] * k, "ry": base["r"] * k, "crs": base["crs"]}


def edges(ref):
    """left, bottom, right, top"""
    rx, ry = ref.res
    return (ref.x[0] - rx / 2, ref.y[-1] - ry / 2, ref.x[-1] + rx / 2,
            ref.y[0] + ry / 2)


def lookup(ref, xs, ys, data=None, mask=None):
    """Cells of ref containing the positions: data, null (outside is null),
    inside; each (bands, len(ys), len(xs))."""
    rx, ry = ref.res
    left, _, _, top = edges(ref)
    ci = np.floor((np.asarray(xs) - left) / rx + 1e-6).astype(int)
    ri = np.floor((top - np.asarray(ys)) / ry + 1e-6).astype(int)
    inx = (ci >= 0) & (ci < ref.shape[2])
    iny = (ri >= 0) & (ri < ref.shape[1])
    ins = np.broadcast_to((iny[:, None] & inx[None, :])[None],
                          (ref.shape[0], len(ys), len(xs)))
    c = np.clip(ci, 0, ref.shape[2] - 1)
    r = np.clip(ri, 0, ref.shape[1] - 1)
    d = ref.data[:, r][:, :, c]
    m = ref.mask[:, r][:, :, c] | ~ins
    return d, m, ins


def grid_of(lo_x, lo_y, hi_x, hi_y, rx, ry=None):
    """Cell centres of the grid with those edges."""
    ry = ry or rx
    nx = int(round((hi_x - lo_x) / rx))
    ny = int(round((hi_y - lo_y) / ry))
    return (lo_x + (np.arange(nx) + 0.5) * rx,
            hi_y - (np.arange(ny) + 0.5) * ry)
