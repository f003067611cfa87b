LEVEL_NOTE = "every window of every buffer of up to 3 elements, every slicing, writing and search operation with every position and count up to past the end; random histories on buffers of up to 9"
C = dict(Vals="{1,2}", Configs="{}")
def mk(**k):
    d = dict(C); d.update(k); return d
TS = '{"span","cspan","view","lview","cv","ccv","wr","wts"}'
def cf(n, ts=TS): return "{[t |-> x, b |-> y] : x \\in %s, y \\in UNION {SeqsN({1,2}, m) : m \\in %s}}" % (ts, n)
def big(ts=TS): return "{[t |-> x, b |-> y] : x \\in %s, y \\in {<<1,2,1,1,2>>, <<3,1,2,3,3,1,2>>, <<1,1,2,2,3,3,1,1,1>>}}" % ts
PARTS = [Part("Span", tv_consts=mk(), drivers=[("drv_span.cpp", ["int"], []), ("drv_span.cpp", ["long"], ["-DELEM_LONG"]), ("drv_span.cpp", ["uchar"], ["-DELEM_UCHAR"])], max_len=60,
    mc=[mk(Configs=cf("{0,1,2}")), mk(Configs=cf("{3}"), Vals="{1}")],
    sim=[mk(Configs=big(), Vals="1..3", _num="400", _depth="40")],
    mc_thorough=[mk(Configs=cf("{3}"))])]
