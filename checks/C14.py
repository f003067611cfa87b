LEVEL_NOTE = "every reachable state of two objects of each of nine types over two values and three exceptions, every operation"
C = dict(Vals="{1,2}", Configs="{}")
def mk(**k):
    d = dict(C); d.update(k); return d
T = ["opt", "oref", "exp", "expv", "cexp", "cexpv", "take", "val", "up"]
def cf(ts): return "{[t |-> x] : x \\in {%s}}" % ",".join('"%s"' % t for t in ts)
PARTS = [Part("Optional", tv_consts=mk(), drivers=[("drv_optional.cpp", ["x"], [])], max_len=80,
    mc=[mk(Configs=cf(T))],
    sim=[mk(Configs=cf(T), Vals="1..9", _num="600", _depth="60")],
    mc_thorough=[mk(Configs=cf(T), Vals="{1,2,3}")])]
