LEVEL_NOTE = "every interleaving of two operations on two threads and three on three for several sharings of one or two callables, with injected failures of weak compare exchanges and happens-before tracking of the memory orders; every history of three operations of one thread for twelve signatures; random histories of up to three threads"
F = '{"copy", "copyc", "move", "movec", "drop", "dropd", "run", "bool", "weak", "wcopy", "wmove", "wdrop", "lock"}'
C = dict(Configs="{}", Fs=F, Calls="2")
def mk(**k):
    d = dict(C); d.update(k); return d
def cf(st, wk, g=1, cap="<<0,0>>"): return "{[n |-> %d, g |-> %d, st |-> %s, wk |-> %s, cap |-> %s]}" % (len(st), g, tl(st), tl(wk), cap)
def tl(x): return "<<" + ",".join("<<%d,%d>>" % y for y in x) + ">>"
Z = (0, 0)
def U(*a): return " \\cup ".join(a)
ONE = cf([(1, 2)], [(1, 0)], 0)
A = cf([(1, 0), (1, 0)], [Z, Z]); Bc = cf([(1, 0), Z], [Z, (1, 0)]); D = cf([(1, 0), (1, 0)], [(1, 0), (1, 0)]); E = cf([(1, 0), (2, 0)], [(2, 0), (1, 0)])
FC = '{"copy", "copyc", "move", "movec", "drop", "dropd", "run", "weak", "wdrop", "lock", "unwrap", "unwrapm"}'
CAP = cf([(1, 2)], [(1, 0)], 0, "<<0,1>>"); CAP2 = cf([(1, 2), Z], [Z, (1, 0)], 1, "<<0,1>>")
T3 = cf([(1, 0), (1, 0), Z], [Z, Z, (1, 0)]); T3b = cf([(1, 0), Z, Z], [Z, (1, 0), (1, 0)])
SMALL = '{"drop", "lock", "run", "copy", "wdrop", "weak"}'
QUAL = ["const", "ref", "cref", "rref", "crref", "nonen", "constn", "refn", "crefn", "rrefn", "crrefn"]
PARTS = [Part("SharedFn", tv_consts=mk(), drivers=[("drv_sharedfn.cpp", ["none"], [])], max_len=40,
    mc=[mk(Configs=ONE, Calls="3"), mk(Configs=CAP, Fs=FC, Calls="3"), mk(Configs=CAP2, Fs='{"drop", "unwrap", "unwrapm", "lock", "run"}'), mk(Configs=U(A, Bc, D, E)), mk(Configs=U(Bc, A), Fs='{"drop", "lock", "run", "wdrop"}', Calls="3"),
        mk(Configs=U(T3), Fs='{"dropd", "lock"}', Calls="3")],
    sim=[mk(Configs=U(cf([(1, 0), (1, 2), Z], [(2, 0), Z, (1, 2)], 0), cf([(1, 2), (2, 0)], [(1, 0), (2, 0)], 0)), Calls="30", _num="300", _depth="50")],
    mc_thorough=[mk(Configs=U(D, E, A, Bc), Fs='{"drop", "lock", "run", "copy", "wdrop", "weak"}', Calls="3"), mk(Configs=U(T3, T3b), Fs='{"dropd", "lock", "wdrop"}', Calls="3")]),
  Part("SharedFn", name="SharedFnSignatures", tv_consts=mk(), drivers=[("drv_sharedfn.cpp", QUAL, [])], max_len=40,
    mc=[mk(Configs=cf([(1, 0)], [(1, 0)], 0), Calls="2")],
    sim=[mk(Configs=cf([(1, 0), (1, 2), Z], [(2, 0), Z, (1, 2)], 0), Calls="30", _num="15", _depth="40")])]
