"""C34: vectors keep every feature, attribute and geometry."""
import os

import numpy as np
from hypothesis import strategies as st

from vt import core, gen
from vt.core import Prop, Reject, require

P = Prop(
    "C34",
    "case = (features, container, sequence of operations); non-trivial when "
    "there are at least two features and one operation",
)

COLS = {"i": "int64", "f": "float64", "s": "str", "j": "int32", "b": "bool"}
CRSS = ["EPSG:3857", "EPSG:5070", "EPSG:4326"]


@st.composite
def features(draw, nmax=9):
    n = draw(st.integers(1, nmax))
    return {
        "n": n, "seed": draw(gen.seeds),
        "cols": draw(st.lists(st.sampled_from(sorted(COLS)), unique=True,
                              max_size=4)),
        "geom": draw(st.sampled_from(["point", "poly", "line", "mixed"])),
        "crs": draw(st.sampled_from(CRSS)),
        "index": draw(st.sampled_from(["range", "range", "offset", "gaps"])),
        "parts": draw(st.sampled_from([0, 0, 1, 2, 3, 4])),
        "series": draw(st.integers(0, 9)) == 0,
        "oids": draw(st.sampled_from([0, 0, 0, 1, 2, 3, 4])),
    }


def make_frame(spec):
    import geopandas as gpd
    from shapely.geometry import LineString, Point, box

    rng = np.random.default_rng(spec["seed"])
    n = spec["n"]
    geoms = []
    for _ in range(n):
        x, y = (float(v) for v in rng.integers(-60, 60, 2) + 0.5)
        k = spec["geom"]
        if k == "mixed":
            k = ["point", "poly", "line"][int(rng.integers(3))]
        w, h = (float(v) for v in rng.integers(1, 9, 2))
        geoms.append(Point(x, y) if k == "point" else
                     box(x, y, x + w, y + h) if k == "poly" else
                     LineString([(x, y), (x + w, y + h), (x + w, y)]))
    cols = {}
    for c in spec["cols"]:
        t = COLS[c]
        if t == "str":
            cols[c] = [f"n{v}" for v in rng.integers(0, 99, n)]
        elif t == "bool":
            cols[c] = rng.integers(0, 2, n).astype(bool)
        elif t == "float64":
            cols[c] = rng.integers(-99, 99, n) / 4
        else:
            cols[c] = rng.integers(-99, 99, n).astype(t)
    for k in range(spec.get("oids", 0)):
        cols["OBJECTID" + (f"_{k}" if k else "")] = rng.integers(0, 9, n)
    cols["key"] = np.arange(n)
    gdf = gpd.GeoDataFrame({**cols, "geometry": geoms}, crs=spec["crs"])
    if spec["index"] == "offset":
        gdf.index = gdf.index + 5
    elif spec["index"] == "gaps":
        gdf.index = gdf.index * 2 + 3
    return gdf


def same_frame(a, b, what, ordered=True, index=True):
    """a: result frame, b: model frame."""
    import shapely

    require(list(a.columns) == list(b.columns), "%s: columns %s expected %s",
            what, list(a.columns), list(b.columns))
    require(len(a) == len(b), "%s: %s features, expected %s", what, len(a),
            len(b))
    require(a.crs == b.crs, "%s: CRS %s expected %s", what, a.crs, b.crs)
    if not ordered:
        if "key" not in a:
            return
        a, b = a.sort_values("key"), b.sort_values("key")
    elif index:
        require(list(a.index) == list(b.index), "%s: index %s expected %s",
                what, list(a.index), list(b.index))
    for c in a.columns:
        if c == "geometry":
            ga, gb = a.geometry.to_numpy(), b.geometry.to_numpy()
            ok = shapely.equals_exact(ga, gb, tolerance=0)
            require(ok.all(), "%s: geometries differ at %s", what,
                    np.flatnonzero(~ok)[:5].tolist())
            continue
        va, vb = list(a[c]), list(b[c])
        require(va == vb, "%s: field %r is %s, expected %s", what, c, va[:9],
                vb[:9])
        require(a[c].dtype == b[c].dtype or a[c].dtype.kind in "OT"
                and b[c].dtype.kind in "OT", "%s: field %r has type %s, "
                "expected %s", what, c, a[c].dtype, b[c].dtype)


OPS = ["copy", "cast", "objid", "objid_named", "crs", "buffer", "simplify",
       "load", "lazy", "shuffle", "partitions", "rewrap", "get_vector"]

ops = st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 2**16)),
               min_size=0, max_size=5)


def step(v, m, op, arg, what):
    """Apply one operation to the vector and its model frame."""
    import geopandas as gpd
    import raster_tools as rts

    if op == "copy":
        return v.copy(), m, True
    if op == "cast":
        nums = [c for c in m.columns if c != "geometry"
                and m[c].dtype.kind in "iufb"]
        if not nums:
            return None
        c = nums[arg % len(nums)]
        dt = ["float64", "float32", "int64", "int16"][arg % 4]
        if m[c].dtype.kind == "i" and dt == "int16" and (
                m[c].abs() > 2**15 - 1).any():
            dt = "int64"
        m = m.copy()
        m[c] = m[c].astype(dt)
        return v.cast_field(c, dt), m, True
    if op in ("objid", "objid_named"):
        name = None if op == "objid" else f"id{arg % 3}"
        if name is not None and name in m.columns:
            try:
                v.add_objectid_column(name)
            except ValueError:
                return None
            core.fail(f"{what}: a second column {name} was accepted")
        want = name
        if want is None:
            want, k = "OBJECTID", 0
            while want in m.columns:
                k += 1
                want = f"OBJECTID_{k}"
        v2 = v.add_objectid_column() if name is None else (
            v.add_objectid_column(name))
        got = v2.data.compute()
        require(want in got.columns, "%s: no column %s in %s", what, want,
                list(got.columns))
        ids = got[want]
        require(ids.is_unique and ids.dtype.kind == "i", "%s: ids %s", what,
                list(ids))
        m = m.copy()
        # which ids is up to the library
        if "key" in m:
            look = dict(zip(got["key"], ids))
            m[want] = [look.get(k) for k in m["key"]]
        elif len(got) == len(m):
            m[want] = ids.to_numpy()
        return v2, m, True
    if op == "crs":
        crs = CRSS[arg % 3]
        return v.to_crs(crs), m.to_crs(crs), True
    if op in ("buffer", "simplify"):
        d = [1.0, 2.5, 0.25][arg % 3]
        v2 = getattr(v, op)(d)
        geo = getattr(m.geometry, op)(d)
        return v2, gpd.GeoDataFrame({"geometry": geo}, crs=m.crs), True
    if op == "load":
        return v.load(), m, True
    if op == "lazy":
        return v.to_lazy(), m, True
    if op == "shuffle":
        return v.spatial_shuffle(), m, v.data.npartitions == 1
    if op == "partitions":
        return v.calculate_spatial_partitions(), m, True
    if op == "get_vector":
        return rts.vector.get_vector(v), m, True
    # rewrap: a given size has to match the labels
    try:
        return rts.Vector(v.data, len(v)), m, True
    except ValueError:
        if list(m.index) == list(range(len(m))) and v.data.npartitions == 1:
            raise
        return None


def check_vector(v, m, what, ordered):
    import dask
    import shapely

    data = v.data
    require(dask.is_dask_collection(data), "%s: not lazy", what)
    df = data.compute()
    same_frame(df, m, what, ordered)
    n = len(m)
    require(len(v) == n and v.size == n, "%s: len %s size %s, expected %s",
            what, len(v), v.size, n)
    fields = [c for c in m.columns if c != "geometry"]
    require(tuple(v.shape) == (n, len(fields)), "%s: shape %s", what, v.shape)
    require(list(v.field_names) == fields, "%s: fields %s expected %s", what,
            v.field_names, fields)
    for c, t in v.field_schema.items():
        require(t == m[c].dtype or m[c].dtype.kind in "OT",
                "%s: schema of %s: %s expected %s", what, c, t, m[c].dtype)
    require(gen.same_crs(v.crs, m.crs), "%s: crs %s", what, v.crs)
    tab = v.table.compute()
    require(list(tab.columns) == fields and len(tab) == n, "%s: table", what)
    b = v.bounds
    b = np.asarray(b.compute() if dask.is_dask_collection(b) else b)
    require(np.allclose(b, m.total_bounds, rtol=1e-12), "%s: bounds %s "
            "expected %s", what, b, m.total_bounds)
    g = np.array(list(v.to_shapely()), dtype=object)
    want = m.geometry.to_numpy()
    if not ordered:
        g = np.sort(shapely.to_wkb(g).astype(object))
        want = np.sort(shapely.to_wkb(want).astype(object))
        require(list(g) == list(want), "%s: to_shapely", what)
    else:
        require(shapely.equals_exact(g, want, 0).all(), "%s: to_shapely", what)


def start(spec):
    import dask_geopandas as dgpd
    import raster_tools as rts

    gdf = make_frame(spec)
    if spec["series"]:
        gdf = gdf[["geometry"]]
    src = gdf.geometry if spec["series"] else gdf
    if spec["parts"]:
        # the length is only known for gapless labels
        if spec["index"] == "gaps" and spec["parts"] > 1:
            raise Reject
        src = dgpd.from_geopandas(src, npartitions=min(spec["parts"],
                                                       spec["n"]))
    return rts.Vector(src), gdf.copy(), gdf, src


@P.check(st.fixed_dictionaries({"v": features(), "ops": ops,
                                "i": st.integers(0, 2**16)}),
         quick=400, thorough=6000, weight=3)
def chain(case, ctx):
    spec = case["v"]
    v, m, gdf, src = start(spec)
    before = gdf.copy()
    hist = [(v, m, True)]
    check_vector(v, m, "Vector(...)", True)
    ordered = True
    done = []
    for op, arg in case["ops"]:
        what = " -> ".join(["Vector", *done, op])
        r = step(v, m, op, arg, what)
        if r is None:
            continue
        v, m, keeps = r
        ordered = ordered and keeps
        if not ordered and op in ("buffer", "simplify"):
            break   # nothing identifies the shuffled features any more
        done.append(op)
        check_vector(v, m, what, ordered)
        hist.append((v, m, ordered))
        ctx.tag(op)
    if ordered:
        for i in sorted({0, m.shape[0] - 1, case["i"] % len(m),
                         -1 - case["i"] % len(m)}):
            q = v[i]
            what = f"{' -> '.join(['Vector', *done])}[{i}]"
            require(len(q) == 1, "%s: size %s", what, len(q))
            same_frame(q.data.compute(), m.iloc[[i]], what, index=False)
    for bad in (len(m), -len(m) - 1):
        try:
            v[bad]
        except IndexError:
            pass
        else:
            core.fail(f"vector of {len(m)} features accepted index {bad}")
    # earlier vectors and the caller's frame are as they were
    require(before.equals(gdf) and before.crs == gdf.crs
            and list(before.columns) == list(gdf.columns),
            "the frame given to Vector changed")
    for k, (v0, m0, o0) in enumerate(hist[:-1]):
        same_frame(v0.data.compute(), m0, f"vector {k} after {done}", o0)
    ctx.nontrivial(len(m) > 1 and len(done) > 0)
    ctx.tag(f"{spec['parts']} parts", spec["index"])


@P.check(st.fixed_dictionaries({
    "v": features(nmax=12), "fmt": st.sampled_from(["gpkg", "geojson", "shp"]),
    "chunk": st.sampled_from([None, 1, 2, 5]), "layers": st.integers(1, 3),
    "i": st.integers(0, 99)}), quick=150, thorough=1500)
def saved(case, ctx):
    import raster_tools as rts
    import raster_tools.vector as vec

    spec = dict(case["v"])
    fmt = case["fmt"]
    if fmt == "shp":
        spec["cols"] = [c for c in spec["cols"] if c != "b"]
        if spec["geom"] == "mixed":
            raise Reject
    if fmt == "geojson":
        spec["crs"] = "EPSG:4326"   # the only one the format knows
    v, m, gdf, _ = start(spec)
    path = os.path.join(ctx.scratch(), f"v.{fmt}")
    kw = {"gpkg": {"driver": "GPKG"}, "geojson": {"driver": "GeoJSON"},
          "shp": {}}[fmt]
    old = getattr(vec, "_TARGET_CHUNK_SIZE", None)
    if case["chunk"] and old is not None:
        vec._TARGET_CHUNK_SIZE = case["chunk"]   # several partitions
    try:
        q = v.save(path, **kw)
        p = rts.open_vectors(path)
        if fmt == "gpkg" and case["layers"] > 1:
            names = [f"l{i}" for i in range(case["layers"])]
            for i, nm in enumerate(names):
                v.data.compute().iloc[: max(1, len(m) - i)].to_file(
                    path, driver="GPKG", layer=nm)
            got = rts.vector.list_layers(path)
            require(list(got) == ["v", *names], "layers %s", got)
            for i, nm in enumerate(names):
                for key in (nm, i + 1):
                    a = rts.open_vectors(path, layers=key)
                    k = max(1, len(m) - i)
                    require(len(a) == k, "layer %r has %s features, expected "
                            "%s", key, len(a), k)
                    require(vec.count_layer_features(path, key) == k,
                            "count_layer_features of %r", key)
            both = rts.open_vectors(path, layers=[1, 0])
            require([len(x) for x in both] == [len(m), len(m)],
                    "layers [1, 0]: %s", [len(x) for x in both])
    finally:
        if old is not None:
            vec._TARGET_CHUNK_SIZE = old
    for w, what in ((q, "saved"), (p, "opened")):
        what = f"{what} {fmt}"
        require(isinstance(w, rts.Vector), "%s: %r", what, type(w))
        df = w.data.compute()
        require(len(df) == len(m) == len(w), "%s: %s features, size %s, "
                "expected %s", what, len(df), len(w), len(m))
        require(gen.same_crs(w.crs, m.crs), "%s: crs %s", what, w.crs)
        require(list(df.index) == list(range(len(m))), "%s: index %s", what,
                list(df.index))
        for c in m.columns:
            if c == "geometry":
                ok = [a.equals(b) for a, b in zip(df.geometry, m.geometry)]
                require(all(ok), "%s: geometries differ: %s", what, ok)
            else:
                require(list(df[c]) == list(m[c]), "%s: field %s %s expected "
                        "%s", what, c, list(df[c])[:9], list(m[c])[:9])
        i = case["i"] % len(m)
        one = w[i].data.compute()
        require(len(one) == 1 and one.geometry.iloc[0].equals(
            m.geometry.iloc[i]), "%s: feature %s", what, i)
    ctx.nontrivial(len(m) > 1)
    ctx.tag(fmt, f"chunks of {case['chunk']}")
