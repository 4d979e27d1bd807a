"""Random feature sets and an independent geometric oracle for cells and features."""
import dask_geopandas as dgpd
import geopandas as gpd
import numpy as np
import shapely
from shapely import affinity


def extent(m):
    rx = abs(m.x[1] - m.x[0]) if m.x.size > 1 else 1.0
    ry = abs(m.y[0] - m.y[1]) if m.y.size > 1 else 1.0
    return m.x[0] - rx / 2, m.y[-1] - ry / 2, m.x[-1] + rx / 2, m.y[0] + ry / 2, rx, ry


def rand_geom(ctx, ext, kinds=("box", "tri", "blob", "ring", "sliver", "line", "multi", "point"), spread=0.25):
    x0, y0, x1, y1, rx, ry = ext
    w, h = x1 - x0, y1 - y0
    rng = ctx.rng
    k = ctx.choice(kinds)
    cx, cy = rng.uniform(x0 - spread * w, x1 + spread * w), rng.uniform(y0 - spread * h, y1 + spread * h)
    if k == "box":
        a, b = rng.uniform(0.02, 0.5) * w, rng.uniform(0.02, 0.5) * h
        g = shapely.box(cx - a, cy - b, cx + a, cy + b)
    elif k == "tri":
        p = np.column_stack([rng.uniform(-0.5, 0.5, 3) * w + cx, rng.uniform(-0.5, 0.5, 3) * h + cy])
        g = shapely.Polygon(p)
    elif k == "blob":
        n = ctx.int(5, 11)
        t = np.sort(rng.uniform(0, 2 * np.pi, n))
        r = rng.uniform(0.05, 0.4, n)
        g = shapely.Polygon(np.column_stack([cx + r * w * np.cos(t), cy + r * h * np.sin(t)]))
    elif k == "ring":
        a = rng.uniform(0.1, 0.45)
        g = shapely.Point(0, 0).buffer(1, quad_segs=4)
        g = g.difference(affinity.scale(g, 0.55, 0.6))
        g = affinity.translate(affinity.scale(g, a * w, a * h, origin=(0, 0)), cx, cy)
    elif k == "sliver":
        dx, dy = rng.uniform(-0.6, 0.6) * w, rng.uniform(-0.6, 0.6) * h
        g = shapely.Polygon([(cx, cy), (cx + dx, cy + dy), (cx + dx * 0.5 + rx * 0.13, cy + dy * 0.5 + ry * 0.07)])
    elif k == "line":
        n = ctx.int(2, 5)
        g = shapely.LineString(np.column_stack([rng.uniform(x0 - 0.1 * w, x1 + 0.1 * w, n), rng.uniform(y0 - 0.1 * h, y1 + 0.1 * h, n)]))
    elif k == "multi":
        g = shapely.MultiPolygon([shapely.box(cx + i * 0.3 * w, cy - 0.07 * h, cx + (i * 0.3 + 0.17) * w, cy + 0.11 * h) for i in range(-1, 2)])
    else:
        g = shapely.Point(cx, cy)
    if not g.is_valid:
        g = g.buffer(0)
        if g.is_empty:
            g = shapely.box(cx, cy, cx + 0.21 * w, cy + 0.17 * h)
    return g


def partition(ctx, gdf, n=None):
    """A dask frame with the features in order, in n partitions."""
    n = n or ctx.int(1, max(1, min(5, len(gdf))))
    return dgpd.from_geopandas(gdf, npartitions=n)


def cell_boxes(m):
    x0, y0, x1, y1, rx, ry = extent(m)
    X, Y = np.meshgrid(m.x, m.y)
    return shapely.box(X - rx / 2, Y - ry / 2, X + rx / 2, Y + ry / 2)


def touch(m, geom, all_touched=True, eps=2.5e-2):
    """(definite, possible) boolean grids of the cells the geometry touches (or whose centre it contains).

    GDAL ignores intersections shorter than 1% of a pixel (EPSILON_INTERSECT_FRACTION), so grazed cells stay open."""
    x0, y0, x1, y1, rx, ry = extent(m)
    s = min(rx, ry)
    if geom is None or geom.is_empty:
        z = np.zeros((m.y.size, m.x.size), bool)
        return z, z
    if all_touched:
        cells = cell_boxes(m)
        d = shapely.distance(cells, geom)
        possible = d <= eps * s
        inner = shapely.box(shapely.bounds(cells)[..., 0] + eps * rx, shapely.bounds(cells)[..., 1] + eps * ry,
                            shapely.bounds(cells)[..., 2] - eps * rx, shapely.bounds(cells)[..., 3] - eps * ry)
        definite = shapely.intersects(inner, geom)
        if geom.geom_type in ("LineString", "MultiLineString"):
            # a line must really pass through the cell
            definite &= shapely.length(shapely.intersection(inner, geom)) > eps * s
        return definite, possible
    X, Y = np.meshgrid(m.x, m.y)
    pts = shapely.points(X, Y)
    inside = shapely.contains(geom, pts)
    near = shapely.distance(geom.boundary, pts) <= eps * s
    return inside & ~near, inside | near
