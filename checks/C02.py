exec(open(ROOT + "/checks/C01.py").read().split("PARTS")[0])
EX = dict(MaxFuse="9", Probe="{}")
def ex(**k):
    return mk(**dict(EX, **k))
ALLP = '{"ctor_n", "ctor_nv", "ctor_il", "ctor_range", "ctor_input", "ctor_copy", "ctor_move", "assign_n", "assign_range", "assign_input", "assign_il", "copy_assign", "move_assign", "swap", "push_c", "push_m", "push_alias", "emplace_back", "emplace_back_alias", "pop_back_value", "insert_c", "insert_m", "insert_alias", "emplace", "emplace_alias", "insert_n", "insert_n_alias", "insert_range", "insert_input", "insert_il", "erase", "erase_range", "resize", "resize_v", "append", "reserve", "shrink", "clear", "erase_val", "erase_if"}'
NAV = '{"push_c", "pop_back", "reserve", "shrink", "clear", "ctor_default"}'
PARTS = [Part("VectorExc", tv_consts=ex(),
    drivers=[("drv_vector.cpp", ["tracked", "trackedmt"], ["-DGRP=2"]), ("drv_vector.cpp", ["moveonly"], ["-DGRP=1"]), ("drv_vector.cpp", ["arena_p"], ["-DGRP=3"])],
    mc=[ex(Vals="{1}", Enabled=NAV, Probe=ALLP, Lists="{<<>>,<<1>>,<<1,1>>}", _variants=["tracked", "trackedmt", "arena_p"])],
    sim=[ex(**TWO, MaxLen="9", MaxCap="20", Vals="1..5", MaxN="4", Lists=SUBS, MaxFuse="15", Enabled=NAV.replace("}", ', "insert_c", "resize_v", "copy_assign", "move_assign"}'), Probe=ALLP, _num="300", _depth="80", _variants=["tracked", "trackedmt", "arena_p"]),
         ex(**TWO, MaxLen="9", MaxCap="20", Vals="1..9", MaxN="4", Lists=SUBS, MoveOnly="TRUE", _num="60", _depth="60", _variants=["moveonly", "tracked", "trackedmt"])],
)]
