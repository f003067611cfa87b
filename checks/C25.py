LEVEL_NOTE = "every operation with every boundary position and shift from bit patterns of every pair of the widths 1, 33, 64, 65, 150 (thorough: 6 patterns and 1, 33, 64, 65, 128, 150); and random histories of 40 operations over all of them"
def mk(lim, pats, widths="{1, 33, 64, 65, 128, 150}"): return dict(Widths=widths, Limit=str(lim), Pats=pats, Configs="AllConfigs")
PARTS = [Part("Bits", tv_consts=mk(1000, "0..5"), drivers=[("drv_bits.cpp", ["std"])], max_len=60, end=False,
              mc=[mk(1, "{4}", "{1, 33, 64, 65, 150}"), mk(1, "{1}", "{64, 65}")], sim=[dict(mk(1000, "0..5"), _num="150", _depth="40")],
              mc_thorough=[mk(1, "0..5")])]
