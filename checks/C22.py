LEVEL_NOTE = "every sequence over three values up to length three (all predicates, all positions, all pairs of sequences); generated sequences up to length 12 over six values beyond"
C = dict(Fs="ContFs", ASeqs="SeqsUpTo(0..2, 3)", BSeqs="SeqsUpTo(0..2, 2)", Seeds="{}", GLen="0", V="3", Configs="{[v |-> V, d |-> x] : x \\in Seeds \\cup (IF Seeds = {} THEN {0} ELSE {})}")
def mk(**k):
    d = dict(C); d.update(k); return d
PARTS = [Part("Algo", name="ContAlgo", tv_consts=mk(V="6"), drivers=[("drv_calgo.cpp", ["vector", "deque", "list"], [])],
    mc=[mk(), mk(ASeqs="SeqsN(0..2, 4)", BSeqs="{<<>>}")],
    sim=[mk(Seeds="1..400", GLen="12", V="6", _num="240", _depth="40")],
    mc_thorough=[mk(ASeqs="SeqsUpTo(0..2, 4)", BSeqs="SeqsUpTo(0..2, 3)")])]
