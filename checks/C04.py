LEVEL_NOTE = "every content of rings of capacity 1 to 3 at every storage position; every bit string of 8 bit queues with pushes of every width; random histories on rings up to capacity 16 and on queues of 16, 32 and 64 bits with values of 8 to 64 bits in both byte orders"
C = dict(Vals="{1,2}", Configs="{}", Pats="{}")
def mk(**k):
    d = dict(C); d.update(k); return d
def ring(ns): return "{[t |-> \"ring\", n |-> x, v |-> 0, e |-> \"l\"] : x \\in %s}" % ns
def bits(t, n, vs, es='{"little", "big"}'): return "{[t |-> \"%s\", n |-> %d, v |-> x, e |-> y] : x \\in %s, y \\in %s}" % (t, n, vs, es)
def U(*a): return " \\cup ".join(a)
N = '{"little"}'
PARTS = [
  Part("Queues", name="ring", tv_consts=mk(), drivers=[("drv_queues.cpp", ["array", "stdarray", "vector", "span"], [])], max_len=80,
    mc=[mk(Configs=ring("{1,2,3}"))], sim=[mk(Configs=ring("{3,4,7,16}"), Vals="1..9", _num="300", _depth="80")],
    mc_thorough=[mk(Configs=ring("{4,7}"))]),
  Part("Queues", name="bits", tv_consts=mk(), drivers=[("drv_queues.cpp", ["bits"], [])], max_len=80,
    mc=[mk(Configs=U(bits("bits", 8, "{8}"), bits("nib", 8, "{8}", N)), Pats="{1,2,3}")],
    sim=[mk(Configs=U(bits("bits", 16, "{8,16}"), bits("bits", 32, "{8,16,32}"), bits("bits", 64, "{8,16,32,64}"), bits("nib", 16, "{8,16}", N), bits("nib", 32, "{8,32}", N), bits("nib", 64, "{8,64}", N)), Pats="0..7", _num="900", _depth="40")],
    mc_thorough=[mk(Configs=bits("bits", 8, "{8}"), Pats="0..9")])]
