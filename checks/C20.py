LEVEL_NOTE = "sort_3..sort_32: every input (0-1 principle on the network extracted from the running code); sort/sort_to: all weak orders up to six elements plus random and structured inputs up to 1500 elements"
COMMON = dict(Kinds0='{"sort"}', Inputs="{}", Hows='{"ptr"}', GenN="{0}", GenPat="{0}", GenSeeds="{1}", Cmps="{0}", NetN="{}", Configs="{[d |-> 0]}")
def mk(**k):
    d = dict(COMMON); d.update(k); return d
ALL = '{"ptr", "vec", "deq", "t", "tl", "tf"}'
DRV = [("drv_sort.cpp", [v], ["-DGRP=%d" % i] + ([] if i == 0 else ["-O0"])) for i, v in enumerate(["int", "long", "double", "string", "tracked"])]
PARTS = [Part("Sort", tv_consts=COMMON, drivers=DRV, max_len=40,
    mc=[mk(Kinds0='{"net"}', NetN="{3,4,5,6,7,8,16,32}", _variants=["int"]),
        mk(Inputs="UNION {WeakOrders(n) : n \\in 0..4}", Hows='{"ptr", "vec", "deq", "t", "tl", "tf", "ins", "n3", "n4"}', Cmps="0..3"),
        mk(Inputs="WeakOrders(5)", Hows='{"ptr", "ins", "n5", "t"}', Cmps="0..1", _variants=["int", "tracked"]),
        mk(Inputs="WeakOrders(6)", Hows='{"n6", "vec"}', _variants=["int"])],
    sim=[mk(Kinds0='{"gen"}', Hows=ALL, GenN="0..70", GenPat="0..11", GenSeeds="1..97", Cmps="0..3", _num="80", _depth="20"),
         mk(Kinds0='{"gen"}', Hows='{"ptr", "vec", "ins"}', GenN="3..35", GenPat="0..11", GenSeeds="1..97", Cmps="0..1", _num="100", _depth="20", _variants=["int", "string", "tracked"]),
         mk(Kinds0='{"gennet"}', GenN="{3,4,5,6,7,8,16,32}", GenPat="0..11", GenSeeds="1..97", Cmps="0..3", _num="150", _depth="20"),
         mk(Kinds0='{"gen"}', Hows='{"ptr", "deq", "t"}', GenN="{48, 64, 100, 200, 999, 1000, 1001, 1500}", GenPat="0..11", GenSeeds="1..97", Cmps="0..3", _num="30", _depth="6", _variants=["int", "double", "tracked"])],
    mc_thorough=[mk(Kinds0='{"net"}', NetN="{3,4,5,6,7,8,16,32}", _variants=["int", "tracked"]),
        mk(Inputs="UNION {WeakOrders(n) : n \\in 0..5}", Hows='{"ptr", "vec", "deq", "t", "tl", "tf", "ins", "n3", "n4", "n5"}', Cmps="0..3"),
        mk(Inputs="WeakOrders(6)", Hows='{"n6", "vec", "ins"}', Cmps="0..1", _variants=["int", "tracked"]),
        mk(Inputs="Perms(7)", Hows='{"n7", "vec"}', _variants=["int", "tracked"])],
    )]
