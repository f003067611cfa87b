LEVEL_NOTE = "every sequence over three values up to length three (all predicates, all positions, all pairs of sequences); generated sequences up to length 12 over six values beyond"
C = dict(Fs="RangeFs", ASeqs="SeqsUpTo(0..2, 3)", BSeqs="SeqsUpTo(0..2, 2)", Seeds="{}", GLen="0", V="3", Configs="{[v |-> V, d |-> x] : x \\in Seeds \\cup (IF Seeds = {} THEN {0} ELSE {})}")
def mk(**k):
    d = dict(C); d.update(k); return d
PARTS = [Part("Algo", name="RangeAlgo", tv_consts=mk(V="6"), drivers=[("drv_algo.cpp", ["ptr"], ["-DGRP=0"]), ("drv_algo.cpp", ["vector"], ["-DGRP=1"]), ("drv_algo.cpp", ["deque"], ["-DGRP=2"]), ("drv_algo.cpp", ["list"], ["-DGRP=3"])],
    mc=[mk(), mk(Fs="FA \\cup FAC \\cup FAE \\cup FAV \\cup FAVC \\cup {\"find_if\", \"remove_if\", \"prange\", \"gather\"}", ASeqs="SeqsN(0..2, 4)", V="2", _variants=["ptr", "list"])],
    sim=[mk(Seeds="1..400", GLen="12", V="6", _num="240", _depth="40")],
    mc_thorough=[mk(ASeqs="SeqsUpTo(0..2, 4)", BSeqs="SeqsUpTo(0..2, 3)")])]
