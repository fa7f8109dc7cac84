"""Generated feature sets on a raster's grid and the cells they cover.

Coordinates are in eighths of a cell from the raster's top left corner."""
import numpy as np
from hypothesis import strategies as st

from vt import aligned

YES, MAYBE, NO = 2, 1, 0


@st.composite
def features(draw, ny, nx, n=(1, 5), kinds=None, reach=12, empties=False):
    """List of [kind, coords] within `reach` eighths of the raster."""
    X = st.integers(-reach, 8 * nx + reach)
    Y = st.integers(-reach, 8 * ny + reach)
    pool = list(kinds or ["box", "tri", "circle", "hole", "multi", "line",
                          "point", "mpoint"])
    if empties:
        pool += ["empty", "none"]
    out = []
    for _ in range(draw(st.integers(*n))):
        k = draw(st.sampled_from(pool))
        if k in ("box", "hole"):
            c = [draw(X), draw(Y), draw(st.integers(3, 40)),
                 draw(st.integers(3, 40))]
        elif k == "circle":
            c = [draw(X), draw(Y), draw(st.integers(3, 30))]
        elif k == "multi":
            c = [draw(X), draw(Y), draw(X), draw(Y), draw(st.integers(3, 16))]
        elif k == "tri":
            c = [draw(v) for v in (X, Y) * 3]
        elif k == "line":
            c = [draw(v) for v in (X, Y) * draw(st.integers(2, 4))]
        elif k == "point":
            c = [draw(X), draw(Y)]
        elif k == "mpoint":
            c = [draw(v) for v in (X, Y) * draw(st.integers(1, 3))]
        else:
            c = []
        out.append([k, c])
    return out


def geometry(spec, ref):
    """shapely geometry in the raster's coordinates (None if degenerate)."""
    import shapely
    from shapely import geometry as sg

    kind, c = spec
    rx, ry = ref.res
    left, _, _, top = aligned.edges(ref)

    def xy(a, b):
        return (left + a / 8 * rx, top - b / 8 * ry)

    def box(a, b, w, h):
        return sg.Polygon([xy(a, b), xy(a + w, b), xy(a + w, b + h),
                           xy(a, b + h)])

    if kind == "none":
        return None
    if kind == "empty":
        return sg.Polygon()
    if kind == "box":
        return box(*c)
    if kind == "hole":
        a, b, w, h = c
        inner = box(a + w / 3, b + h / 3, w / 3, h / 3)
        return sg.Polygon(box(*c).exterior, [inner.exterior])
    if kind == "circle":
        t = np.linspace(0, 2 * np.pi, 9)[:-1]
        return sg.Polygon([xy(c[0] + c[2] * np.cos(v), c[1] + c[2] * np.sin(v))
                           for v in t])
    if kind == "multi":
        a = box(c[0], c[1], c[4], c[4])
        b = box(c[2], c[3], c[4], c[4])
        if a.intersects(b):
            return a
        return sg.MultiPolygon([a, b])
    pts = [xy(a, b) for a, b in zip(c[::2], c[1::2])]
    if kind == "tri":
        p = sg.Polygon(pts)
        if not p.is_valid or p.area < rx * ry / 4:
            p = box(c[0], c[1], 9, 9)
        return shapely.normalize(p)
    if kind == "line":
        ln = sg.LineString(pts)
        if ln.length < min(rx, ry) / 2:
            ln = sg.LineString([pts[0], xy(c[0] + 20, c[1] + 7)])
        return ln
    if kind == "point":
        return sg.Point(pts[0])
    return sg.MultiPoint(pts)


def coverage(geom, ref, all_touched):
    """(ny, nx) array: the feature covers the cell YES, NO or MAYBE (its
    outline only touches the cell's edge or centre)."""
    import shapely

    ny, nx = ref.shape[1:]
    out = np.zeros((ny, nx), int)
    if geom is None or geom.is_empty:
        return out
    rx, ry = ref.res
    X, Y = np.meshgrid(ref.x, ref.y)

    def squares(f):
        hx, hy = rx / 2 * f, ry / 2 * f
        return shapely.box(X - hx, Y - hy, X + hx, Y + hy)

    dim = shapely.get_dimensions(geom)
    if dim == 2 and not all_touched:
        pts = shapely.points(X, Y)
        far = shapely.distance(pts, geom.boundary) > 1e-3 * min(rx, ry)
        inside = shapely.contains(geom, pts)
        out[...] = np.where(far, np.where(inside, YES, NO), MAYBE)
        return out
    touch = shapely.intersects(geom, squares(1.002))
    sure = shapely.intersects(geom, squares(0.9 if dim else 0.998))
    out[touch] = MAYBE
    out[sure] = YES
    if dim == 1 and not all_touched:
        # the cells of a line are those near it
        near = shapely.intersects(geom, squares(3))
        out = np.where(near, MAYBE, NO)
    return out
