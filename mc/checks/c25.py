"""C25: conversion and graph helpers are faithful for every input."""
import itertools

import networkx as nx
import numpy as np
import pandas as pd
import scipy.sparse as sp
from libpysal import weights

from .. import maps, oracle as orc
from ..common import csr_of_kind
from ..job import describe
from ..spaces import BIG
from region import csgraph_utils as cg, util

LEVEL = "model_checking"
RULE = ("All labelled graphs up to 4 nodes and all graphs up to isomorphism with 5 (thorough: all labelled with 5, all "
        "with 6): is_connected, neighbors of every node, sub_adj_matrix for every ordered choice of nodes and every set "
        "of excluded nodes, with unit and with different weights; the conversions of every labelled graph up to 4 nodes "
        "as dict (every listing order), W (every id order) and networkx graph (every node order) under several naming "
        "schemes and containers; value dicts in every listing order and with every key sequence up to length n + 1; all "
        "arrays over 3 values up to length 5 for count; all lists of up to 3 subsets for find_sublist_containing; all "
        "sets of cells of a 2x3 grid (thorough 3x3) for contiguity; each against its definition.  Besides, 12 maps of 8 to 25 areas under six naming schemes.")
ASSUMPTIONS = ["every subset and order only up to 5 nodes (thorough 6); no empty graphs"]

NAMES = [("ints", (0, 1, 2, 3, 4, 5)), ("gaps", (7, 3, 19, 0, -4, 11)), ("strings", ("b", "a10", "a9", "", "B", "c")),
         ("tuples", ((1, 0), (0, 5), (0, -1), (3,), (2, 2), (1, 1))), ("floats", (0.5, -1.0, 3.25, 2.0, 0.25, 9.0))]
CONTAINERS = [("set", set), ("list", list), ("tuple", tuple), ("twice", lambda x: list(x) + list(x)[:1]),
              ("frozenset", frozenset), ("array", None)]


def jobs(tier):
    th = tier == "thorough"
    out = []
    for n in range(1, 6):
        gs = maps.all_labelled(n) if n <= 4 or th else maps.graphs(n)
        k = 4 if n < 5 else 2
        for i in range(0, len(gs), k):
            out.append(dict(kind="graph", gs=gs[i:i + k], full=True))
    if th:
        for g in maps.graphs(6):
            out.append(dict(kind="graph", gs=(g,), full=False))
    for n in range(1, 5):
        gs = maps.all_labelled(n)
        for i in range(0, len(gs), 8):
            out.append(dict(kind="convert", gs=gs[i:i + 8], c=i // 8, full=th))
    if th:
        gs = maps.graphs(5)
        for i, g in enumerate(gs):
            out.append(dict(kind="convert", gs=(g,), c=i, full=False))
    for n in range(1, 5 if th else 4):
        for name, names in NAMES:
            out.append(dict(kind="values", n=n, names=names[:n]))
            out.append(dict(kind="attributes", n=n, names=names[:n]))
            out.append(dict(kind="frames", n=n, names=names[:n]))
    for n in range(0, 6):
        out.append(dict(kind="count", n=n))
    for first in itertools.product((0, 1), repeat=3):
        out.append(dict(kind="sublists", first=first, depth=3))
    for n in range(1, 6 if th else 5):
        out.append(dict(kind="regions", n=n))
    for i, g in enumerate(BIG):
        out.append(dict(kind="large", g=g, c=i))
    cells = 9 if th else 6
    for lo in range(0, 1 << cells, 16):
        out.append(dict(kind="cells", lo=lo, hi=min(lo + 16, 1 << cells), rows=3 if th else 2))
    return out


def do_job(job, ctx):
    def run(ctl):
        err = ctx.attempt(ctl, lambda: globals()["do_" + job["kind"]](job, ctx), guard=10 ** 9)
        if err is not None:
            if isinstance(err, Exception) and not err.__traceback__:
                raise err
            ctx.fail("failed: " + describe(err), job=job["kind"])
    ctx.single(run)


def call(ctx, fn, *args, d=None, **kw):
    """The value, or None after reporting that the call failed."""
    try:
        return fn(*args, **kw)
    except Exception as e:  # noqa
        ctx.fail("{} failed: {}".format(fn.__name__, describe(e)), **(d or {}))
        return None


def same(a, want, dtype=None):
    a = np.asarray(a)
    return a.shape == np.asarray(want).shape and bool(np.all(a == np.asarray(want)))


def dense(m):
    return np.asarray(m.todense() if sp.issparse(m) else m)


# graph helpers

def table(g, weighted):
    t = np.zeros((g[0], g[0]))
    for i, (a, b) in enumerate(g[1]):
        t[a, b] = t[b, a] = 1 if not weighted else (0.25, -1.5, 3, 0.5, 1e-9, 7)[i % 6] + i // 6
    return t


def do_graph(job, ctx):
    for g in job["gs"]:
        n, es = g
        nm = orc.nbr_masks(n, es)
        conn = len(orc.connected_components(n, es)) == 1
        for weighted in (False, True, "stored zeros"):
            t = table(g, weighted is True)
            adj = sp.csr_matrix(t) if weighted != "stored zeros" else csr_of_kind(g, "zeros")
            d = dict(map=g, weighted=weighted)
            got = call(ctx, cg.is_connected, adj, d=d)
            if got is not None and bool(got) != conn:
                ctx.fail("is_connected returned {}".format(got), **d)
            for a in range(n):
                got = call(ctx, cg.neighbors, adj, a, d=d)
                ctx.count("neighbors")
                if got is not None and sorted(np.asarray(got).tolist()) != orc.bits(nm[a]):
                    ctx.fail("neighbors of {} are {}".format(a, np.asarray(got).tolist()), **d)
            for k in range(1, n + 1):
                chosen = itertools.permutations(range(n), k) if job["full"] else itertools.combinations(range(n), k)
                for nodes in chosen:
                    check_sub(ctx, adj, t, nodes, None, d)
                    if n > 4 and (weighted or nodes != tuple(sorted(nodes))):
                        continue
                    for r in range(1, n + 1):
                        for wo in itertools.combinations(range(n), r):
                            if set(nodes) <= set(wo):
                                continue
                            check_sub(ctx, adj, t, nodes, np.array(wo), d)
                            if r == 1:
                                check_sub(ctx, adj, t, nodes, wo[0], d)
                            if ctx.enough():
                                return
            if not np.array_equal(dense(adj), t):
                ctx.fail("the adjacency matrix was changed", **d)
        ctx.distinct("graphs", g)


LARGE_NAMES = [lambda a, n: a, lambda a, n: 3 * n - a * 2, lambda a, n: "a%d" % a, lambda a, n: (a % 3, a), lambda a, n: a * .5 - 4,
               lambda a, n: "%s%d" % ("zyB"[a % 3], n - a)]


def do_large(job, ctx):
    """Maps of 8 to 25 areas."""
    g = job["g"]
    n, es = g
    nm = orc.nbr_masks(n, es)
    t = table(g, True)
    adj = sp.csr_matrix(t)
    d = dict(map=g)
    for a in range(n):
        got = call(ctx, cg.neighbors, adj, a, d=d)
        if got is not None and sorted(np.asarray(got).tolist()) != orc.bits(nm[a]):
            ctx.fail("neighbors of {} are {}".format(a, np.asarray(got).tolist()), **d)
    for i in range(len(es) + 1):        # without one edge
        rest = es[:i] + es[i + 1:]
        got = call(ctx, cg.is_connected, csr_of_kind((n, rest), "more zeros") if i % 3 == 2 else
                   sp.csr_matrix(table((n, rest), i % 2)), d=d)
        if got is not None and bool(got) != (len(orc.connected_components(n, rest)) == 1):
            ctx.fail("is_connected returned {}".format(got), map=(n, rest))
    for lo in range(n):
        for hi in range(lo + 1, n + 1):
            for nodes in (tuple(range(lo, hi)), tuple(range(hi - 1, lo - 1, -1)), tuple((a * 7 + lo) % n for a in range(hi - lo))):
                if len(set(nodes)) < len(nodes):
                    continue
                check_sub(ctx, adj, t, nodes, None, d)
                for wo in (nodes[:1], nodes[-1:], nodes[1::2]):
                    if wo and len(wo) < len(nodes):
                        check_sub(ctx, adj, t, nodes, np.array(wo), d)
                if len(nodes) > 1:
                    check_sub(ctx, adj, t, nodes, nodes[len(nodes) // 2], d)
                if ctx.enough():
                    return
    nbr = {a: orc.bits(m) for a, m in enumerate(nm)}
    for k, f in enumerate(LARGE_NAMES):
        names = [f(a, n) for a in range(n)]
        for perm in (list(range(n)), list(range(n))[::-1], [(a * 5 + 1) % n for a in range(n)] if n % 5 else list(range(1, n)) + [0]):
            cname, make = CONTAINERS[(k + job["c"]) % 5]
            d = dict(map=g, names=names, listed=perm, container=cname)
            got = call(ctx, util.scipy_sparse_matrix_from_dict, {names[a]: make([names[b] for b in nbr[a]]) for a in perm}, d=d)
            order = sorted(range(n), key=lambda a: names[a])
            ctx.count("matrices from dicts")
            if got is not None and not same(dense(got), [[int(b in nbr[a]) for b in order] for a in order]):
                ctx.fail("scipy_sparse_matrix_from_dict returned {}".format(dense(got).tolist()), **d)
            if not isinstance(names[0], tuple):
                w = weights.W({names[a]: [names[b] for b in nbr[a]] for a in range(n)}, id_order=[names[a] for a in perm],
                              silence_warnings=True)
                got = call(ctx, util.scipy_sparse_matrix_from_w, w, d=d)
                if got is not None and not same(dense(got), [[int(b in nbr[a]) for b in perm] for a in perm]):
                    ctx.fail("scipy_sparse_matrix_from_w returned {}".format(dense(got).tolist()), **d)
            for width, kind in ((1, "scalar"), (2, "list")):
                dct = {names[a]: value_of(a, width, kind) for a in perm}
                for keys, idx in ((None, order), ([names[a] for a in perm], perm)):
                    got = call(ctx, util.array_from_dict_values, dct, d=d, **({} if keys is None else {"sorted_keys": keys}))
                    ctx.count("arrays from dicts")
                    if got is not None and not same(got, [list(np.atleast_1d(value_of(a, width, kind))) for a in idx]):
                        ctx.fail("array_from_dict_values returned {}".format(np.asarray(got).tolist()), keys=keys, **d)
            graph = nx.Graph()
            graph.add_nodes_from(names[a] for a in perm)
            nx.set_node_attributes(graph, {names[a]: 3 * a for a in range(n)}, "x")
            got = call(ctx, util.array_from_graph, graph, "x", d=d)
            if got is not None and not same(got, [[3 * a] for a in perm]):
                ctx.fail("array_from_graph returned {}".format(np.asarray(got).tolist()), **d)
            if ctx.enough():
                return
    for k in range(1, n + 1):
        labels = [(a * a + a // 2) % k if a >= k else a for a in range(n)]
        regions = [[a for a in range(n) if labels[a] == r] for r in range(k)]
        got = call(ctx, util.array_from_region_list, [set(r) for r in regions])
        if got is not None and not same(got, labels):
            ctx.fail("array_from_region_list returned {}".format(np.asarray(got).tolist()), regions=regions)
        for r in range(k):
            got = call(ctx, util.count, np.array(labels), r)
            if got is not None and got != labels.count(r):
                ctx.fail("count returned {}".format(got), arr=labels, el=r)
        for a in range(n):
            for make in (set, list):
                got = call(ctx, util.find_sublist_containing, a, [make(r) for r in regions], index=True)
                if got is not None and got != labels[a]:
                    ctx.fail("find_sublist_containing returned {}".format(got), lst=regions, el=a)
    ctx.distinct("graphs", g)


def check_sub(ctx, adj, t, nodes, wo, d):
    arg = np.array(nodes)
    d = dict(d, nodes=nodes, wo_nodes=None if wo is None else np.asarray(wo).tolist())
    if wo is None:
        got = call(ctx, cg.sub_adj_matrix, adj, arg, d=d)
        kept = list(nodes)
    else:
        got = call(ctx, cg.sub_adj_matrix, adj, arg, wo, d=d)
        kept = [v for v in nodes if v not in np.atleast_1d(wo).tolist()]
    ctx.count("sub_adj_matrix")
    if got is None:
        return
    if not sp.issparse(got):
        ctx.fail("sub_adj_matrix did not return a sparse matrix", **d)
    elif not same(dense(got), t[np.ix_(kept, kept)]):
        ctx.fail("sub_adj_matrix returned {}".format(dense(got).tolist()), **d)
    if arg.tolist() != list(nodes):
        ctx.fail("sub_adj_matrix changed its nodes", **d)


# conversions of maps

def do_convert(job, ctx):
    for gi, g in enumerate(job["gs"]):
        n, es = g
        nbr = {a: orc.bits(m) for a, m in enumerate(orc.nbr_masks(n, es))}
        perms = list(itertools.permutations(range(n)))
        for ni, (name, names) in enumerate(NAMES):
            for pi, perm in enumerate(perms if job["full"] or n < 4 else perms[(gi + ni) % 3::3]):
                d = dict(map=g, names=names[:n], listed=[names[a] for a in perm])
                cname, make = CONTAINERS[(pi + ni + gi + job["c"]) % len(CONTAINERS)]
                d["container"] = cname
                if make is None:
                    make = np.array if name in ("ints", "gaps", "floats") else list

                def fill(of, by=names, make=make):
                    return {by[a]: make([by[b] for b in (of[a] if pi % 2 else of[a][::-1])]) for a in perm}
                got = call(ctx, util.scipy_sparse_matrix_from_dict, fill(nbr), d=d)
                order = sorted(range(n), key=lambda a: names[a])
                want = [[int(b in nbr[a]) for b in order] for a in order]
                ctx.count("matrices from dicts")
                if got is not None and not same(dense(got), want):
                    ctx.fail("scipy_sparse_matrix_from_dict returned {}".format(dense(got).tolist()), **d)
                if pi % 4 == ni % 4:        # neighbors listed by one side only
                    half = {a: [b for b in nbr[a] if b > a] for a in nbr}
                    got = call(ctx, util.scipy_sparse_matrix_from_dict, fill(half), d=d)
                    want = [[int(b in half[a]) for b in order] for a in order]
                    if got is not None and not same(dense(got), want):
                        ctx.fail("scipy_sparse_matrix_from_dict returned {} for one-sided neighbors".format(
                            dense(got).tolist()), **d)
                if n > 1 and name != "tuples":
                    # a W object follows its id order
                    lists = {names[a]: [names[b] for b in nbr[a]] for a in range(n)}
                    ids = [names[a] for a in perm]
                    w = weights.W(lists, id_order=ids, silence_warnings=True)
                    got = call(ctx, util.scipy_sparse_matrix_from_w, w, d=d)
                    want = [[int(b in nbr[a]) for b in perm] for a in perm]
                    ctx.count("matrices from W")
                    if got is not None and not same(dense(got), want):
                        ctx.fail("scipy_sparse_matrix_from_w returned {}".format(dense(got).tolist()), **d)
            if ctx.enough():
                return
        ctx.distinct("graphs", g)


# values

def value_of(i, width, kind):
    v = ((i * 5 + 2) % 7, 100 - i)[:width]
    if kind == "scalar":
        return v[0]
    return dict(list=list, tuple=tuple, array=np.array)[kind](v)


def do_values(job, ctx):
    n, names = job["n"], job["names"]
    forms = [(1, "scalar"), (1, "list"), (2, "list"), (2, "tuple"), (2, "array"), (1, "array")]
    for perm in itertools.permutations(range(n)):
        for width, kind in forms:
            dct = {names[a]: value_of(a, width, kind) for a in perm}
            before = list(dct)

            def want(idx):
                return [list(np.atleast_1d(value_of(a, width, kind))) for a in idx]
            seqs = [(None, sorted(range(n), key=lambda a: names[a]))]
            for k in range(1, n + 2):
                seqs += [(s, s) for s in itertools.product(range(n), repeat=k)]
            for si, (s, idx) in enumerate(seqs):
                for flat in (False, True):
                    for dt in (None, int) if si % 3 == 0 else (None,):
                        kw = {}
                        if s is not None:
                            keys = [names[a] for a in s]
                            kw["sorted_keys"] = (list(keys), tuple(keys), iter(keys), dict.fromkeys(keys).keys()
                                                 if len(set(keys)) == len(keys) else (k for k in keys))[(si + flat) % 4]
                        if flat or si % 2:
                            kw["flat_output"] = flat
                        if dt is not None:
                            kw["dtype"] = dt
                        d = dict(dct={str(k): str(v) for k, v in dct.items()}, flat=flat,
                                 keys=None if s is None else [names[a] for a in s], dtype=str(dt))
                        got = call(ctx, util.array_from_dict_values, dct, d=d, **kw)
                        ctx.count("arrays from dicts")
                        if got is None:
                            continue
                        w = np.array(want(idx))
                        if not same(got, w.flatten() if flat else w):
                            ctx.fail("array_from_dict_values returned {}".format(np.asarray(got).tolist()), **d)
                        if np.asarray(got).dtype.kind != ("f" if dt is None else "i"):
                            ctx.fail("array_from_dict_values returned {}".format(np.asarray(got).dtype), **d)
                if ctx.enough():
                    return
            if list(dct) != before:
                ctx.fail("the dict was changed", names=names)


def do_attributes(job, ctx):
    n, names = job["n"], job["names"]
    val = {"x": [3 * a + 1 for a in range(n)], "yy": [10.5 - a for a in range(n)]}
    picks = ["x", "yy", ["x"], ["yy", "x"], ("x", "yy"), ["x", "x"], ["x", "yy", "x"]]
    for order in itertools.permutations(range(n)):
        graph = nx.Graph()
        graph.add_nodes_from(names[a] for a in order)
        graph.add_edges_from((names[a], names[a + 1]) for a in range(n - 1))
        for set_order in itertools.permutations(range(n)):
            for k, v in val.items():
                nx.set_node_attributes(graph, {names[a]: v[a] for a in set_order}, k)
            for attr in picks:
                cols = [attr] if isinstance(attr, str) else list(attr)
                lists = {names[a]: [val[c][a] for c in cols] for a in range(n)}
                d = dict(nodes=[names[a] for a in order], attr=attr)
                table = [lists[v] for v in graph.nodes()]
                for form in (attr, iter(cols)):
                    got = call(ctx, util.dict_from_graph_attr, graph, form, d=d)
                    if got is not None and {k: list(v) for k, v in got.items()} != lists:
                        ctx.fail("dict_from_graph_attr returned {}".format(got), **d)
                got = call(ctx, util.dict_from_graph_attr, graph, attr, array_values=True, d=d)
                if got is not None and (set(got) != set(lists)
                                        or any(not same(got[k], lists[k]) or not isinstance(got[k], np.ndarray) for k in lists)):
                    ctx.fail("dict_from_graph_attr returned {} (array_values)".format(got), **d)
                for fn in (util.array_from_graph, util.array_from_graph_or_dict):
                    got = call(ctx, fn, graph, attr, d=d)
                    ctx.count("arrays from graphs")
                    if got is not None and not same(got, table):
                        ctx.fail("{} returned {}".format(fn.__name__, np.asarray(got).tolist()), **d)
            # attributes given by area
            for width, kind in ((1, "scalar"), (1, "list"), (2, "list"), (2, "array")):
                dct = {names[a]: value_of(a, width, kind) for a in set_order}
                d = dict(nodes=[names[a] for a in order], attr={str(k): str(v) for k, v in dct.items()})
                if util.dict_from_graph_attr(graph, dct) != dct if kind != "array" else False:
                    ctx.fail("dict_from_graph_attr changed a dict", **d)
                table = [list(np.atleast_1d(value_of(a, width, kind))) for a in order]
                got = call(ctx, util.array_from_graph_or_dict, graph, dct, d=d)
                ctx.count("arrays from graphs")
                if got is not None and not same(got, table):
                    ctx.fail("array_from_graph_or_dict returned {} for a dict".format(np.asarray(got).tolist()), **d)
            if ctx.enough():
                return


def do_frames(job, ctx):
    n, names = job["n"], job["names"]
    for perm in itertools.permutations(range(n)):
        index = [names[a] for a in perm]
        for index in (index, pd.Index(index, tupleize_cols=False)) if not isinstance(names[0], tuple) else (
                pd.Index(index, tupleize_cols=False),):
            df = pd.DataFrame({"a": [a * 2 + 1 for a in perm], "b": [0.5 - a for a in perm], "c": [7 for a in perm]},
                              index=index)
            col = {"a": lambda a: a * 2 + 1, "b": lambda a: 0.5 - a, "c": lambda a: 7}
            for cols in ("a", "b", ["a"], ["b", "a"], ("b", "a"), ["a", "b", "c"], ["c", "c"], ("c",)):
                names_ = [cols] if isinstance(cols, str) else list(cols)
                want = [[col[c](a) for c in names_] for a in perm]
                d = dict(index=[str(i) for i in index], cols=cols)
                got = call(ctx, util.array_from_df_col, df, cols, d=d)
                ctx.count("columns")
                if got is not None and not (isinstance(got, np.ndarray) and same(got, want)):
                    ctx.fail("array_from_df_col returned {}".format(np.asarray(got).tolist()), **d)
                if isinstance(cols, tuple):
                    continue
                got = call(ctx, util.dataframe_to_dict, df, cols, d=d)
                if got is None:
                    continue
                if set(got) != set(names):
                    ctx.fail("dataframe_to_dict has the keys {}".format(list(got)), **d)
                    continue
                for row, a in enumerate(perm):
                    w = want[row][0] if isinstance(cols, str) else want[row]
                    if not same(got[names[a]], w):
                        ctx.fail("dataframe_to_dict gives {} for {}".format(got[names[a]], names[a]), **d)
            for bad in (3, None, ["a", 1], [1], {"a": 1}, 1.5):
                try:
                    util.array_from_df_col(df, bad)
                    ctx.fail("array_from_df_col accepted {!r}".format(bad))
                except ValueError:
                    pass
                except Exception as e:  # noqa
                    ctx.fail("array_from_df_col raised {} for {!r}".format(describe(e), bad))


def do_count(job, ctx):
    n = job["n"]
    for vals in itertools.product((0, 1, 2), repeat=n):
        for form, f in (("int", lambda v: v), ("float", lambda v: v - 1.5), ("str", lambda v: ("p", "q", "pp")[v])):
            for el in range(4 if form != "str" else 3):
                arr = np.array([f(v) for v in vals], dtype=dict(int=int, float=float, str="U2")[form])
                for a in (arr,) + ((arr.reshape(2, -1),) if n % 2 == 0 else ()):
                    d = dict(arr=arr.tolist(), el=f(el))
                    got = call(ctx, util.count, a, f(el), d=d)
                    ctx.count("counts")
                    if got is not None and got != vals.count(el):
                        ctx.fail("count returned {}".format(got), **d)
        if n and "all_elements_equal" in dir(util):
            arr = np.array(vals)
            if bool(util.all_elements_equal(arr)) != (len(set(vals)) == 1):
                ctx.fail("all_elements_equal is wrong", arr=vals)
        for a, r in itertools.product(range(n), range(4)):
            arr = np.array(vals)
            util.make_move(a, r, arr)
            if arr.tolist() != list(vals[:a]) + [r] + list(vals[a + 1:]):
                ctx.fail("make_move made {}".format(arr.tolist()), labels=vals, move=(a, r))


def do_sublists(job, ctx):
    subsets = [s for k in range(4) for s in itertools.combinations(range(3), k)]
    one = tuple(i for i in range(3) if job["first"][i])
    for k in range(job["depth"]):
        for rest in itertools.product(subsets, repeat=k):
            lst = (one,) + rest
            for c, make in enumerate((set, list, tuple, frozenset)):
                outer = (list, tuple)[c % 2](make(s) for s in lst)
                for el in range(4):
                    at = next((i for i, s in enumerate(lst) if el in s), None)
                    for kw in ({}, {"index": False}, {"index": True}):
                        d = dict(lst=str(outer), el=el, **kw)
                        ctx.count("searches")
                        try:
                            got = util.find_sublist_containing(el, outer, **kw)
                        except LookupError:
                            if at is not None:
                                ctx.fail("LookupError although it is there", **d)
                            continue
                        except Exception as e:  # noqa
                            ctx.fail("find_sublist_containing failed: " + describe(e), **d)
                            continue
                        if at is None:
                            ctx.fail("find_sublist_containing returned {} for a missing element".format(got), **d)
                        elif got != (at if kw.get("index") else outer[at]):
                            ctx.fail("find_sublist_containing returned {}".format(got), **d)


def do_regions(job, ctx):
    n = job["n"]
    for labels in itertools.product(range(n), repeat=n):
        k = max(labels) + 1
        for make in (set, list, lambda x: tuple(reversed(x)), frozenset, np.array):
            regions = [make([a for a in range(n) if labels[a] == r]) for r in range(k)]
            if make is np.array and any(len(r) == 0 for r in regions):
                continue
            d = dict(regions=[sorted(int(a) for a in r) for r in regions])
            got = call(ctx, util.array_from_region_list, regions, d=d)
            ctx.count("region lists")
            if got is not None and not same(got, labels):
                ctx.fail("array_from_region_list returned {}".format(np.asarray(got).tolist()), **d)


def do_cells(job, ctx):
    import geopandas as gpd
    from shapely.geometry import box
    rows = job["rows"]
    cells = [(x, y) for y in range(rows) for x in range(3)]
    for mask in range(job["lo"], job["hi"]):
        mine = [c for i, c in enumerate(cells) if mask >> i & 1]
        if len(mine) < 2:
            continue
        if mask % 2:
            mine.reverse()
        k = len(mine)
        for index in (list(range(k)), list(range(10, 10 + k)), ["i%d" % (k - i) for i in range(k)]):
            gdf = gpd.GeoDataFrame({"v": range(k)}, geometry=[box(x, y, x + 1, y + 1) for x, y in mine], index=index)
            for word in ("rook", "queen", "Rook", "QUEEN"):
                def touch(a, b):
                    dx, dy = abs(a[0] - b[0]), abs(a[1] - b[1])
                    return (dx + dy == 1) if word.lower() == "rook" else max(dx, dy) == 1
                want = [[int(touch(a, b)) for b in mine] for a in mine]
                d = dict(cells=mine, index=index, contiguity=word)
                w = call(ctx, util.w_from_gdf, gdf, word, d=d)
                ctx.count("contiguities")
                if w is not None and not same(dense(w.sparse) != 0, np.array(want) != 0):
                    ctx.fail("w_from_gdf gives {}".format(dense(w.sparse).tolist()), **d)
        for bad in ("bishop", "", None, 3, ["rook"]):
            try:
                util.w_from_gdf(gdf, bad)
                ctx.fail("w_from_gdf accepted {!r}".format(bad))
            except ValueError:
                pass
            except Exception as e:  # noqa
                ctx.fail("w_from_gdf raised {} for {!r}".format(describe(e), bad))
