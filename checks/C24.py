LEVEL_NOTE = "every stage over four kinds of source, every legal pair of 25 stages, every legal triple of 9 of them (the first two combined into one pipeline object) and 40 ways to end or start a pipeline, each on all sequences over {1,2,3} up to length 4 or 5; every result is read by ++, postfix ++, into a vector, backwards, by position and twice from a stored pipeline where the range allows"
def mk(g): return dict(Grp=str(g), Configs="{[n |-> 0]}")
PARTS = [Part("Pipe", name="Pipe%d" % g, tv_consts=mk(g), drivers=[("drv_pipe.cpp", ["g%d" % g], ["-DGRP=%d" % g, "-O0"])], max_len=60, end=False, mc=[mk(g)]) for g in range(10)]
