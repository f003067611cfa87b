LEVEL_NOTE = "not_null (over a pointer and over a pointer class), observer_ptr and prop_const_ptr: all histories of up to 2 operations (3 thorough) from every pair of positions over a buffer of four, 22 kinds of operation in their const and mutable forms, refusal of null included; sbo_storage of three sizes with seven kinds of object (larger than the buffer, over-aligned, throwing): all histories of up to 8 operations."
def mkp(l, n, full): return dict(Limit=str(n), Configs="{[lib |-> %d, a |-> x, b |-> y] : x \\in %s, y \\in %s}" % (l, "{1, 4, 5}" if not full else "1..5", "{1, 3}" if not full else "1..5"))
PARTS = [Part("Ptr", name="Ptr%d" % l, tv_consts=mkp(l, 9, 1), drivers=[("drv_ptr.cpp", ["p%d" % l], ["-DLIB=%d" % l])], max_len=60, mc=[mkp(l, 2, 0)], mc_thorough=[mkp(l, 2, 1), mkp(l, 3, 0)]) for l in range(4)]
def mks(n): return dict(Limit=str(n), Configs="{[sz |-> x] : x \\in {1, 24, 256}}")
PARTS.append(Part("Sbo", tv_consts=mks(99), drivers=[("drv_sbo.cpp", ["s"], [])], max_len=60, mc=[mks(8)], mc_thorough=[mks(14)]))
