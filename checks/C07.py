LEVEL_NOTE = "every edit history over up to three node identities (exhaustive, edge-covering) plus random histories over eight"
EDITS = '{"add", "rm", "de", "ue", "rde", "re", "set", "copy"}'
QUERIES = '{"has", "fbv", "fbv_c", "roots", "leaves", "find", "visit", "cmp"}'
def empty(m): return "{[m |-> %d, v |-> <<>>, e |-> <<>>]}" % m
COMMON = dict(Vals="{1}", Edits=EDITS, Queries=QUERIES, Configs=empty(3))
def mk(**k):
    d = dict(COMMON); d.update(k); return d
PARTS = [Part("Graph", tv_consts=COMMON, drivers=[("drv_graph.cpp", ["int", "string", "tracked"], [])],
    mc=[mk(Queries="{}", _variants=["int"]), mk(Configs=empty(2), Vals="{1,2}")],
    sim=[mk(Configs=empty(9), Vals="1..4", Edits=EDITS + ' \\cup {"de", "ue"}', _num="60", _depth="90")],
    mc_thorough=[mk(Vals="{1,2}"), mk(Configs=empty(4), Queries="{}", Edits='{"add", "rm", "de", "rde", "ue"}', _variants=["int"])],
    )]
