LEVEL_NOTE = "every digraph on up to three nodes with equal and distinct values (exhaustive) plus random graphs on up to nine nodes"
QUERIES = '{"topo", "rtopo", "topo_rng", "rtopo_rng", "bfs", "dfs", "mst"}'
def empty(m): return "{[m |-> %d, v |-> <<>>, e |-> <<>>]}" % m
E = "SetToSeq(X)"
def all_graphs(n, vals): return "{[m |-> %d, v |-> vv, e |-> SetToSeqs(X)] : vv \\in {%s}, X \\in SUBSET ((0..%d) \\X (0..%d))}" % (n, vals, n - 1, n - 1)
def dags(n, vals): return "{[m |-> %d, v |-> vv, e |-> SetToSeqs(X)] : vv \\in {%s}, X \\in SUBSET {p \\in (0..%d) \\X (0..%d) : p[1] < p[2]}}" % (n, vals, n - 1, n - 1)
COMMON = dict(Vals="{1}", Edits="{}", Queries=QUERIES, Configs=empty(3))
def mk(**k):
    d = dict(COMMON); d.update(k); return d
import json, random
def wide():
    """star graphs with many equally valued successors and roots: orders with many ties"""
    out = []
    for n, f in ((24, lambda i: 1), (24, lambda i: 1 + i % 2), (20, lambda i: 1 + i % 5)):
        c = dict(m=n, v=[f(i) for i in range(n)], e=[[0, i] for i in range(1, n)])
        out.append([c, [["dfs", 0, 1, 0], ["dfs", 0, 2, 1], ["bfs", 0, 1, 0], ["topo", 1, 0], ["rtopo", 2, 1], ["mst"]]])
        c = dict(m=n, v=[f(i) for i in range(n)], e=[[i, n - 1] for i in range(0, n - 1)])
        out.append([c, [["topo", 1, 0], ["topo", 2, 0], ["topo_rng", 1, 2], ["dfs", 0, 1, 0]]])
    return out
PARTS = [Part("Graph", tv_consts=COMMON, drivers=[("drv_graph.cpp", ["int", "string"], [])],
    mc=[mk(Configs=all_graphs(3, "<<2,1,3>>"), _variants=["int"]), mk(Configs=dags(4, "<<2,1,2,1>>, <<1,2,3,4>>"), _variants=["int"])],
    sim=[mk(Configs=empty(9), Vals="1..6", Edits='{"add", "de", "rm", "rde", "ue"}', _num="40", _depth="60"),
         mk(Configs="{[m |-> 8, v |-> <<1,2,3,4,5,6,7,8>>, e |-> <<>>]}", Edits='{"de", "rde"}', _num="30", _depth="60"),
         mk(Configs="{[m |-> 9, v |-> <<3,1,2,2,4,5,1,2,3>>, e |-> <<<<0,1>>,<<0,2>>,<<1,3>>,<<2,3>>,<<3,4>>,<<2,5>>,<<5,4>>,<<4,6>>,<<0,7>>,<<7,6>>,<<7,8>>>>]}", Edits='{"de", "rde", "set"}', Vals="1..4", _num="30", _depth="40")],
    mc_thorough=[mk(Configs=all_graphs(3, "<<2,1,3>>, <<1,1,1>>, <<1,2,1>>"), _variants=["int"]), mk(Configs=dags(5, "<<2,1,2,1,3>>"), _variants=["int"])],
    extra_histories=[json.dumps(h, separators=(",", ":")) for h in wide()])]
