LEVEL_NOTE = "variants of 1 to 18 and 33 alternatives; every alternative active (of the large ones: both ends, the middle, and around every multiple of 16), every way to visit, value category and kind of handler set; valueless variants"
C = dict(Vals="{3}", Configs="{}")
def mk(**k):
    d = dict(C); d.update(k); return d
def cf(ns, ts='{"std"}'): return "{[t |-> x, n |-> y] : x \\in %s, y \\in %s}" % (ts, ns)
def part(g, mcs): return Part("Visit", name="Visit%d" % g, tv_consts=mk(), drivers=[("drv_visit.cpp", ["g%d" % g], ["-DGRP=%d" % g, "-O0"])], max_len=60, mc=mcs)
PARTS = [part(0, [mk(Configs=cf("{1,2,3}")), mk(Configs=cf("{2,3}", '{"adlif","adlget"}'))]),
         part(1, [mk(Configs=cf("4..6")), mk(Configs=cf("7..10"))]),
         part(2, [mk(Configs=cf("11..16"))]),
         part(3, [mk(Configs=cf("{17,18,33}")), mk(Configs=cf("{17}", '{"adlif","adlget"}'))])]
