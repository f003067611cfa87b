LEVEL_NOTE = "daw::tuple2, daw::tuple, std::tuple with the helper functions and daw::apply, and forwarding packs: all histories of up to 3 operations (element access and apply in four value categories, copies, moves, assignment, concatenation, comparison, positional arithmetic, selection by runtime index) on 12 shapes with integers, copyable, move-only, empty and final classes; keep_n of 1, 2, 3, 4 and 6 values in five orders over all insertion histories, with equal values, from outside and of its own elements"
SH = "{<<>>, <<0>>, <<1>>, <<0, 1>>, <<1, 1>>, <<2, 0>>, <<4, 0, 1>>, <<3, 1>>, <<0, 3>>, <<0, 0>>, <<0, 0, 0>>, <<0, 2, 0, 1, 0>>}"
def mk(l, n): return dict(Limit=str(n), Configs="{[lib |-> %d, sh |-> x] : x \\in %s}" % (l, SH))
PARTS = [Part("Tup", name="Tup%d" % l, tv_consts=mk(l, 9), drivers=[("drv_tup.cpp", ["l%d" % l], ["-DLIB=%d" % l, "-O0"])], max_len=60, mc=[mk(l, 3)], mc_thorough=[mk(l, 4)]) for l in range(4)]
KC = "{[n |-> n, ord |-> o, d |-> d] : n \\in 1..3, o \\in 0..4, d \\in {5, 25, 45}} \\cup {[n |-> n, ord |-> o, d |-> 45] : n \\in {4, 6}, o \\in 0..4}"
PARTS.append(Part("KeepN", tv_consts=dict(Configs=KC, Vals="{0}"), drivers=[("drv_keepn.cpp", ["k"], [])], max_len=40, mc=[dict(Configs=KC, Vals="{11, 12, 25, 31, 32}")], mc_thorough=[dict(Configs=KC, Vals="{11, 12, 25, 26, 31, 32, 5}")]))
