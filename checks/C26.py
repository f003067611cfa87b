LEVEL_NOTE = "all pairs of 8 bit operands in every signedness for comparisons and for the 8 bit unsigned type; boundary values of every width (powers of two and their neighbours, extremes, mixed patterns) for all type pairs; bytes, not machine integers, in the oracle"
def mk(g): return dict(Grp=str(g), Configs="{[n |-> 0]}")
PARTS = [Part("Num", name="Num%d" % g, tv_consts=mk(g), drivers=[("drv_num.cpp", ["g%d" % g], ["-DGRP=%d" % g, "-O0"])], max_len=200, end=False, mc=[mk(g)]) for g in range(5)]
