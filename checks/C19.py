LEVEL_NOTE = "27 range helpers and 26 character classes over every text up to length 5 (7 for line ends) of an alphabet chosen per helper, four character types, contiguous and linked ranges inside of larger buffers; eight integer types by seven conversions over all short texts of digits, signs and a letter and over texts around the limits of every width; six lists of field types by five ways to split by up to seven ways to ask, over every text up to length 6; command line arguments over every text up to length 6"
def mk(g): return dict(Grp=str(g), Configs="{[n |-> 0]}")
PARTS = [Part("Parse", name="Parse%d" % g, tv_consts=mk(g), drivers=[("drv_parse.cpp", ["g%d" % g], ["-DGRP=%d" % g, "-O0"])], max_len=60, end=False, mc=[mk(g)]) for g in range(6)]
