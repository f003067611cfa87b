LEVEL_NOTE = "every history of two handles of each owning type (exhaustive, edge-covering) plus random histories over four handles"
COMMON = dict(Vals="{1,2}", Enabled="{}", Configs='{[kind |-> "unique", n |-> 2]}')
def mk(**k):
    d = dict(COMMON); d.update(k); return d
def K(ks, n): return "{[kind |-> k, n |-> %d] : k \\in {%s}}" % (n, ", ".join('"%s"' % k for k in ks))
U = ["unique", "uarr", "maybe"]
V = ["value", "poly", "copiable", "uat"]
PARTS = [Part("Owners", name="unique", tv_consts=COMMON, drivers=[("drv_owners.cpp", ["def", "del", "chk"], ["-DGRP=0"])],
    mc=[mk(Configs=K(U, 2), Vals="{1,2}")],
    sim=[mk(Configs=K(U, 4), Vals="1..9", _num="60", _depth="60")],
    mc_thorough=[mk(Configs=K(U, 3), Vals="{1}"), mk(Configs=K(U, 2), Vals="{1,2}")],
    ),
    Part("Owners", name="value", tv_consts=COMMON, drivers=[("drv_owners.cpp", ["def"], ["-DGRP=1"])],
    mc=[mk(Configs=K(V, 2), Vals="{1,2}")],
    sim=[mk(Configs=K(V, 4), Vals="1..9", _num="60", _depth="60")],
    mc_thorough=[mk(Configs=K(V, 3), Vals="{1}"), mk(Configs=K(V, 2), Vals="{1,2}")],
    )]
