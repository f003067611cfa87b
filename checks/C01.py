COMMON = dict(Lists="SeqsUpTo({1,2},2)", NV="1", MaxLen="3", MaxCap="5", Vals="{1,2}", MaxN="2", Enabled="{}", MoveOnly="FALSE", Trivial="FALSE", Configs="{[nv |-> 1]}")
def mk(**k):
    d = dict(COMMON); d.update(k); return d
TWO = dict(NV="2", Configs="{[nv |-> 2]}")
COPYV = ["tracked", "trackedmt", "string", "int", "char", "arena_p"]
PAIR = '{"ctor_copy", "ctor_move", "ctor_il", "copy_assign", "move_assign", "swap", "cmp", "push_c", "reserve", "ctor_default", "shrink"}'
NOMOVE = '{"ctor_n", "ctor_nv", "ctor_il", "ctor_range", "ctor_input", "ctor_copy", "assign_n", "assign_range", "assign_input", "assign_il", "copy_assign", "move_assign", "push_c", "insert_range", "insert_n", "erase", "resize_v", "shrink", "cmp"}'
SUBS = "{SubSeq(<<3,1,4,1>>, a, b) : a \\in 1..4, b \\in 0..4}"
PARTS = [Part("Vector", tv_consts=COMMON,
    drivers=[("drv_vector.cpp", ["int", "char"], ["-DGRP=0"]), ("drv_vector.cpp", ["string", "moveonly"], ["-DGRP=1"]),
             ("drv_vector.cpp", ["tracked", "trackedmt"], ["-DGRP=2"]), ("drv_vector.cpp", ["arena_p", "arena_n"], ["-DGRP=3"])],
    mc=[mk(_variants=["tracked", "string", "int"]),
        mk(NV="2", Configs="{[nv |-> 2]}", MaxLen="2", MaxCap="3", MaxN="2", Enabled=PAIR, _variants=["tracked", "int", "arena_p"]),
        mk(MaxLen="4", MaxCap="6", Vals="{1}", Trivial="TRUE", Enabled='{"ctor_rao","rao","aao","block_append","block_create","push_c","pop_back","shrink"}', _variants=["int", "char"])],
    sim=[mk(**TWO, MaxLen="9", MaxCap="20", Vals="0..9", MaxN="4", Lists=SUBS, _num="100", _depth="60", _variants=COPYV),
         mk(**TWO, MaxLen="9", MaxCap="20", Vals="1..9", MaxN="4", MoveOnly="TRUE", Lists=SUBS, _num="60", _depth="60", _variants=["moveonly", "tracked", "trackedmt", "string"]),
         mk(**TWO, MaxLen="7", MaxCap="16", Vals="1..5", MaxN="4", Enabled=NOMOVE, Lists=SUBS, _num="50", _depth="50", _variants=["arena_n"]),
         mk(**TWO, MaxLen="12", MaxCap="30", Vals="1..5", MaxN="4", Trivial="TRUE", Lists=SUBS, _num="40", _depth="60", _variants=["int", "char"])],
)]
