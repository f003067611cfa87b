LEVEL_NOTE = "every reachable contents and storage position of two bounded vectors of capacity 1 to 3 (and the specialisation of capacity 0), every operation; random histories on capacities up to 12"
C = dict(Vals="{1,2}", Configs="{}")
def mk(**k):
    d = dict(C); d.update(k); return d
def cf(t, ns, two=0): return "{[t |-> \"%s\", n |-> x, two |-> %s] : x \\in %s}" % (t, two, ns)
PARTS = [Part("BoundedVec", tv_consts=mk(), drivers=[("drv_boundedvec.cpp", ["int", "multi"], [])], max_len=80,
    mc=[mk(Configs=cf("vec", "{0,1,2,3}")), mk(Configs=cf("vec", "{1,2}", 1), Vals="{1}"), mk(Configs=cf("arr", "{1,3}"), Vals="{0,2}")],
    sim=[mk(Configs=cf("vec", "{2,3,4,5,8,12}", 1), Vals="1..9", _num="500", _depth="60")],
    mc_thorough=[mk(Configs=cf("vec", "{2}", 1)), mk(Configs=cf("vec", "{4}")), mk(Configs=cf("vec", "{3}", 1), Vals="{1}")])]
