LEVEL_NOTE = "every stack of up to three guards in every armed state, every pair of unique_resource cells, every operation, exit by return, by exception and inside of an unwinding destructor; every interleaving of three operations on allow_once_t and countable_resource_t"
C = dict(Vals="{1,2}", Configs="{}", MaxDepth="3")
def mk(**k):
    d = dict(C); d.update(k); return d
T = ["scope", "res", "cnt", "once"]
CF = "{[t |-> x] : x \\in {%s}}" % ",".join('"%s"' % t for t in T)
def ck(**k):
    d = dict(Vals="{0}", Configs="{}", Fs="{}", Calls="3", CtVals="{}"); d.update(k); return d
def cc(n): return '{[t |-> x, n |-> %d, v |-> 0, g |-> 1] : x \\in {"once", "cnt"}}' % n
PARTS = [Part("Scopes", tv_consts=mk(), drivers=[("drv_scopes.cpp", ["x"], [])], max_len=80,
    mc=[mk(Configs=CF)],
    sim=[mk(Configs=CF, Vals="1..9", MaxDepth="8", _num="500", _depth="60")],
    mc_thorough=[mk(Configs=CF, MaxDepth="4"), mk(Configs=CF, MaxDepth="3", Vals="{1,2,3}")]),
 # allow_once_t and countable_resource_t under every interleaving of two and three threads
 Part("CxAtomic", tv_consts=ck(), drivers=[("drv_cxatomic.cpp", ["x"], ["-DGRP=1"])], max_len=40,
    mc=[ck(Configs=cc(2)), ck(Configs=cc(3), Calls="3")],
    sim=[ck(Configs=cc(4), Calls="40", _num="100", _depth="60")])]
