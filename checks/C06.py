LEVEL_NOTE = "every reachable content of ordered maps over three or four keys (with strict weak orders that do and do not distinguish all keys) and of fixed lookup tables of capacity 1 to 3 under every pattern of home slots of up to four keys, every operation; random histories on capacities up to 8"
C = dict(Vals="{0,1}", Configs="{}", RangeLens="{}")
def mk(**k):
    d = dict(C); d.update(k); return d
def om(d, nk): return "{[t |-> \"om\", n |-> 0, d |-> %s, sl |-> [i \\in 1..%s |-> 0]]}" % (d, nk)
def fl(n, nk, slots): return "{[t |-> \"fl\", n |-> %s, d |-> 1, sl |-> y] : y \\in [1..%s -> %s]}" % (n, nk, slots)
def U(*a): return " \\cup ".join(a)
PARTS = [Part("OrderedMap", tv_consts=mk(), drivers=[("drv_ordmap.cpp", ["int", "string"], [])], max_len=80,
    mc=[mk(Configs=U(om(1, 3), om(2, 4)), RangeLens="{0,2,3}"), mk(Configs=U(fl(1, 2, "{0}"), fl(2, 3, "0..1"), fl(3, 4, "{0,2}"), fl(3, 3, "0..2")))],
    sim=[mk(Configs=U(om(1, 6), om(2, 6), om(3, 7)), RangeLens="{3}", Vals="0..4", _num="250", _depth="50"), mk(Configs=U(fl(5, 6, "{0,4}"), fl(8, 10, "{6}"), fl(5, 7, "{3}"), fl(8, 9, "{7,0}")), Vals="0..4", _num="250", _depth="50")],
    mc_thorough=[mk(Configs=U(om(1, 4), om(2, 5)), RangeLens="{4}"), mk(Configs=U(fl(3, 4, "0..2"), fl(2, 4, "0..1")), Vals="0..1")])]
