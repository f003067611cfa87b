LEVEL_NOTE = "piecewise factories of three arguments (values, functions, copies, moves, indices past the end): all histories of up to 5 operations; poly_var of two classes, one with the base at an offset: all histories of up to 4 operations; named options in every order, three strings, zipped containers of up to three elements and simple arrays of up to four, as tables."
def mka(l, n): return dict(Limit=str(n), Configs="{[lib |-> %d, k |-> x] : x \\in %s}" % (l, "{1, 2}" if l == 2 else "{1}"))
PARTS = [Part("Asm", name="Asm%d" % l, tv_consts=mka(l, 99), drivers=[("drv_asm.cpp", ["a%d" % l], ["-DLIB=%d" % l])], max_len=60, mc=[mka(l, [5, 5, 4, 1][l])], mc_thorough=[mka(l, [6, 6, 6, 2][l])]) for l in range(4)]
