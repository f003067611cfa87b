LEVEL_NOTE = "every reachable content of tables of capacity 0 to 3 under every collision pattern of three or four keys, every operation; random histories on capacities up to 7 with nine keys"
C = dict(Vals="{0,1}", Configs="{}")
def mk(**k):
    d = dict(C); d.update(k); return d
def conf(ts, n, nk, slots, init="<<>>"):
    return "{[t |-> x, n |-> %s, sl |-> y, init |-> %s] : x \\in %s, y \\in [1..%s -> %s]}" % (n, init, ts, nk, slots)
ALL = '{"map", "set", "vset"}'
def U(*a): return " \\cup ".join(a)
SMALL = U(conf(ALL, 1, 2, "{0}"), conf(ALL, 2, 3, "0..1"), conf(ALL, 3, 4, "{0,2}"), conf(ALL, 3, 3, "0..2"), conf('{"vset"}', 0, 1, "{0}"), conf('{"static"}', 2, 4, "{0}"), conf('{"static"}', 3, 5, "{0}"),
          conf('{"map"}', 2, 3, "{1}", "<<<<1,1>>>>"), conf('{"map", "static"}', 3, 3, "{0}", "<<<<0,1>>,<<2,0>>>>"), conf('{"map"}', 3, 4, "{0,2}", "<<<<0,1>>,<<2,0>>,<<3,1>>>>"))
BIG = U(conf(ALL, 4, 6, "{0,3}"), conf(ALL, 7, 9, "{5}"), conf(ALL, 7, 9, "{6,0}"), conf('{"static"}', 7, 9, "{0}"), conf(ALL, 4, 5, "0..3"))
PARTS = [Part("HashMap", tv_consts=mk(), drivers=[("drv_hashmap.cpp", ["int", "string"], [])], max_len=80,
    mc=[mk(Configs=SMALL)],
    sim=[mk(Configs=BIG, Vals="0..3", _num="400", _depth="60")],
    mc_thorough=[mk(Configs=U(SMALL, conf(ALL, 4, 4, "0..3"), conf(ALL, 3, 5, "{0,2}")))])]
