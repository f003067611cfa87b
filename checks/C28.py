LEVEL_NOTE = "FNV-1a in 32 and 64 bits through 11 ways to call it and generic_hash in both widths through 10, on elements of 1, 2, 4 and 8 bytes, signed and not: every text up to 2 over five byte values and patterned texts up to 30; SipHash-2-4 under four keys and MetroHash64 under four seeds on patterned texts of every length up to 73 (137 thorough) and around 128 and 256 and every short text"
def mk(g, d=1): return dict(Grp=str(g), Depth=str(d), Configs="{[n |-> 0]}")
PARTS = [Part("Hash", name="Hash%d" % g, tv_consts=mk(g, 3), drivers=[("drv_hash.cpp", ["g%d" % g], ["-DGRP=%d" % g, "-O0"])], max_len=60, end=False, mc=[mk(g)], mc_thorough=[mk(g, 3)]) for g in range(5)]
PPOOL = "<<0, 1, 2, 3, 4, 5, 8, 9, 12, 16, -1, -4, 100, 104, 1024, 65536, 24, 40>>"
def mkp(cfgs): return dict(Pool=PPOOL, Configs="{[k |-> q, src |-> x, p |-> %s] : q \\in %s, x \\in %s}" % (PPOOL, cfgs[0], cfgs[1]))
PQ = [mkp(("UNION {Perms({0, 1, 4, 5, 9, -1}, 3), Perms({0, 1, 8}, 2), {<<0>>, <<5>>}}", "{0}")),
      mkp(("{<<9, 0, 4>>, <<0, 4, 8>>, <<1, 9, 2, 3, 4, 8, 16>>, <<0, 4, 8, 12, 16, 24, 40>>, <<0, 4, 8, 12, 16, 100, 104>>, <<0, 4, 8, 1, 5, 2, 3>>}", "1..2")),
      mkp(("{<<0>>, <<8, 0>>, <<9, 0, 4>>, <<0, 4, 8, 12>>, <<1, 5, 9, 100>>, <<2, 0, 1, 3>>, <<1, 9, 2, 3, 4, 8, 16>>, <<0, 4, 8, 12, 16, 100, 104>>, <<0, 1, 4, 5, 8, 2, 3>>, <<0, 4, 8, 1, 5, 2, 3>>, <<0, 1, 2, 3, 4, 5, 8, 9, 12, 16, 100, 104, 1024>>, <<0, 4, 8, 12, 16, 100, 104, 1024, 65536, -4, 1, 2, 3>>}", "{0, 3}"))]
PARTS.append(Part("Phash", tv_consts=PQ[0], drivers=[("drv_phash.cpp", [h], ["-DHASHER=" + h, "-O0"]) for h in ["Same", "std::hash<int>", "Wide", "Narrow", "Fnv"]], max_len=60, end=False, mc=PQ))
