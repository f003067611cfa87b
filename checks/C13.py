LEVEL_NOTE = "every pair of operations on two threads and selected triples on three in every interleaving of their atomic accesses, with injected failures of weak compare exchanges; every operation at boundary values at run time and at compile time; random concurrent histories of ten types"
ALLF = "AllF"
C = dict(Vals="{0,1}", Configs="{}", Fs=ALLF, Calls="2", CtVals="{-128,-127,-1,0,1,2,127}")
def mk(**k):
    d = dict(C); d.update(k); return d
def cf(ts, n, vs, g=0): return "{[t |-> x, n |-> %d, v |-> y, g |-> %d] : x \\in {%s}, y \\in %s}" % (n, g, ",".join('"%s"' % t for t in ts), vs)
SH = ["i32", "u64", "i64", "us"]
NOINC = "AllF \\ Inc"
PARTS = [Part("CxAtomic", tv_consts=mk(), drivers=[("drv_cxatomic.cpp", ["x"], ["-DGRP=0"])], max_len=40,
    mc=[mk(Configs=cf(["i8", "u8"], 1, "{-128,-1,0,127}"), Vals="{-128,-1,0,1,85,127}", Calls="1"),
        mk(Configs=cf(SH, 1, "{-128,-1,0,127}"), Fs=NOINC, Vals="{-128,-1,0,1,85,127}", Calls="1"),
        mk(Configs=cf(["u32", "l", "dbl"], 1, "{-1,0,1}"), Vals="{-1,0,1,2}", Calls="1"), mk(Configs=cf(["bool"], 1, "{0,1}"), Calls="2"),
        mk(Configs=cf(["i8"], 2, "{0}", 1)),
        mk(Configs=cf(["u32"], 3, "{0}", 1), Fs='{"fadd", "preinc", "cas", "exchange"}', Vals="{1}", Calls="3")],
    sim=[mk(Configs=cf(["i8", "u8"], 3, "{0,127}"), Vals="{-128,-1,127}", Calls="30", CtVals="{}", _num="150", _depth="60"),
         mk(Configs=cf(["u32", "l", "dbl"], 3, "{0,1}"), Vals="{0,1,2}", Calls="12", _num="120", _depth="40"),
         mk(Configs=cf(SH, 4, "{0,127}"), Fs=NOINC, Vals="{-128,1,127}", Calls="30", _num="150", _depth="60"),
         mk(Configs=cf(["bool"], 3, "{0,1}"), Calls="30", _num="100", _depth="60")],
    mc_thorough=[mk(Configs=cf(["i8", "u8"], 2, "{0,-1}", 1)), mk(Configs=cf(["u32"], 3, "{0}", 1), Fs='{"fadd", "postdec", "cas", "casw", "exchange", "copya"}', Vals="{1}", Calls="3")])]
