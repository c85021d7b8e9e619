"""The same map through every entry point.

A described map: g = (n, edges) over areas 0..n-1, `order` (areas in listing order), `names` (one
hashable, sortable name per area), attribute rows.  `Rep` holds one representation, its arguments and the
areas in the order in which labels are returned.
"""
import collections

import numpy as np
import networkx as nx

from . import oracle as orc
from .common import csr
from libpysal import weights
import geopandas
from shapely.geometry import box

KINDS = ("dict", "graph", "w", "gdf")

NAMINGS = {
    "ints": lambda n: ((10, 2, 33, 7, 21, 4) + tuple(100 - 3 * k for k in range(20)))[:n],
    "strs": lambda n: (("b", "a10", "zz", "a9", "B", "c") + tuple("%d" % (k * 7 % 113) for k in range(1, 20)))[:n],
    "negs": lambda n: ((0, -5, 3, -1, 12, 8) + tuple(-20 + k * 9 % 11 for k in range(11)))[:n],
    "tups": lambda n: ((1, 0), (0, 1), (1, -1), (0, 0), (2, 0), (0, 7), *((3, -k) for k in range(20)))[:n],
    "flts": lambda n: ((2.5, -1.0, 10.25, 0.5, 3.0, 1.5) + tuple(40 - .75 * k for k in range(20)))[:n],
    "idx": lambda n: tuple(range(n)),
}

# attribute names, in no particular order
COLS = {"at": ("rate", "age", "dens"), "sp": ("pop", "jobs", "area")}

# maps made of unit cells: name -> cells (rook: shared edge; queen: shared corner too)
CELLS = {
    "L3": ((0, 0), (1, 0), (1, 1)),
    "row3": ((0, 0), (1, 0), (2, 0)),
    "diag3": ((0, 0), (1, 0), (2, 1)),
    "sq4": ((0, 0), (1, 0), (0, 1), (1, 1)),
    "T4": ((0, 0), (1, 0), (2, 0), (1, 1)),
    "zig4": ((0, 0), (1, 0), (2, 1), (3, 1)),
    "isl4": ((0, 0), (5, 5), (1, 0), (5, 6)),
    "g34": tuple((x, y) for y in range(3) for x in range(4)),
    "stairs": tuple((k - k // 3, k // 3) for k in range(11)),
    "blocks": tuple((x, y) for x in range(3) for y in range(3)) + tuple((x + 7, y - 4) for x in range(3) for y in range(2)),
    "sq6": ((0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (2, 1)),
}


def cell_graph(name, contiguity="rook"):
    cs = CELLS[name]
    es = []
    for i in range(len(cs)):
        for j in range(i + 1, len(cs)):
            dx, dy = abs(cs[i][0] - cs[j][0]), abs(cs[i][1] - cs[j][1])
            if dx + dy == 1 or (contiguity == "queen" and dx == dy == 1):
                es.append((i, j))
    return (len(cs), tuple(es))


class Desc:
    def __init__(self, g, order, naming, attr, sp=None, labels=None, cells=None, contiguity="rook"):
        self.g, self.order, self.naming = g, tuple(order), naming
        self.names = NAMINGS[naming](g[0])
        self.attr, self.sp, self.labels = attr, sp, labels
        self.cells, self.contiguity = cells, contiguity


def shape(style, value):
    """One area's value(s) the way users write them."""
    if style == "scalar":
        return value[0] if len(value) == 1 else list(value)
    if style == "list":
        return list(value)
    return np.array(value, dtype=float)


class Rep:
    """Arguments for one entry point."""
    weight = None

    def __init__(self, kind, d, style=0):
        self.kind, self.d = kind, d
        n = d.g[0]
        nb = {a: orc.bits(m) for a, m in enumerate(orc.nbr_masks(*d.g))}
        nm = d.names
        width = len(d.attr[0])
        vstyle = ("scalar", "array", "list")[style % 3]
        if kind in ("matrix", "fit"):
            self.rows = d.order
            pos = {a: i for i, a in enumerate(d.order)}
            self.first = csr((n, tuple((pos[a], pos[b]) for a, b in d.g[1])))
            self.method = "fit_from_scipy_sparse_matrix" if kind == "matrix" else "fit"
        elif kind == "dict":
            self.rows = tuple(sorted(range(n), key=lambda a: nm[a]))
            coll = (set, list, tuple)[style % 3]
            self.first = {nm[a]: coll(nm[b] for b in (nb[a] if style % 2 else nb[a][::-1])) for a in d.order}
            self.method = "fit_from_dict"
        elif kind == "graph":
            self.rows = d.order
            self.first = nx.Graph()
            self.first.add_nodes_from(nm[a] for a in d.order)
            es = d.g[1] if style % 2 else [(b, a) for a, b in reversed(d.g[1])]
            self.first.add_edges_from((nm[a], nm[b]) for a, b in es)
            self.method = "fit_from_networkx"
        elif kind == "w":
            w = {nm[a]: [nm[b] for b in (nb[a] if style % 2 else nb[a][::-1])] for a in d.order}
            kw = {}
            if style % 3 == 1:      # any weights
                self.weight = lambda a, b: 0.5 + 0.25 * (min(a, b) + 2 * max(a, b))
                kw["weights"] = {nm[a]: [self.weight(a, x) for x in
                                         (nb[a] if style % 2 else nb[a][::-1])] for a in d.order}
            self.first = weights.W(w, id_order=[nm[a] for a in d.order], silence_warnings=True, **kw)
            if style % 3 == 2 and all(nb.values()):
                self.first.transform = "R"
                self.weight = lambda a, b: 1 / len(nb[a])
            self.rows = d.order
            self.method = "fit_from_w"
        elif kind == "gdf":
            cs = CELLS[d.cells]
            data = collections.OrderedDict()
            data["geometry"] = [box(cs[a][0], cs[a][1], cs[a][0] + 1, cs[a][1] + 1) for a in d.order]
            both = [("at", d.attr)] + ([("sp", d.sp)] if d.sp is not None else [])
            for prefix, table in both[::-1 if style % 2 else 1]:
                for k in sorted(range(len(table[0])), reverse=style % 2 == 0):
                    data[COLS[prefix][k]] = [table[a][k] for a in d.order]
            index = [nm[a] for a in d.order] if d.naming != "tups" else None
            self.first = geopandas.GeoDataFrame(data, index=index)
            self.rows = d.order
            self.method = "fit_from_geodataframe"
        self.attr = self.values(d.attr, "at", style, vstyle)
        self.sp = None if d.sp is None else self.values(d.sp, "sp", style + 1, vstyle)
        if d.labels is None:
            self.labels = None
        elif kind == "dict" or (kind == "graph" and style % 2):
            self.labels = {nm[a]: d.labels[a] for a in reversed(d.order)}
        elif kind == "graph":
            nx.set_node_attributes(self.first, {nm[a]: d.labels[a] for a in reversed(d.order)}, "lab")
            self.labels = "lab"
        else:
            self.labels = np.array([d.labels[a] for a in self.rows], dtype=int)

    def values(self, rows, prefix, style, vstyle):
        d, nm, width = self.d, self.d.names, len(rows[0])
        if self.kind in ("matrix", "fit", "w"):
            return np.array([rows[a] for a in self.rows], dtype=float)
        if self.kind == "dict" or (self.kind == "graph" and style % 2):
            return {nm[a]: shape(vstyle, rows[a]) for a in reversed(d.order)}
        cols = list(COLS[prefix][:width])
        if self.kind == "graph":
            for k, c in enumerate(cols):
                nx.set_node_attributes(self.first, {nm[a]: rows[a][k] for a in reversed(d.order)}, c)
        return cols[0] if width == 1 and style % 4 < 2 else cols

    def by_area(self, labels):
        """Labels in area order."""
        out = [None] * len(self.rows)
        for a, l in zip(self.rows, labels):
            out[a] = l
        return tuple(out)

    def reference(self):
        """The matrix entry point with the same row order."""
        d = self.d
        ref = Rep("matrix", Desc(d.g, self.rows, d.naming, d.attr, d.sp, d.labels))
        if self.weight is not None:
            m = ref.first.toarray()
            for i, a in enumerate(self.rows):
                for j, b in enumerate(self.rows):
                    m[i, j] *= self.weight(a, b)
            ref.first = type(ref.first)(m)
        return ref

    def show(self):
        d = self.d
        return dict(entry=self.method, map=d.g, order=[d.names[a] for a in d.order],
                    names=d.names, attr=d.attr)
