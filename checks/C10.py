LEVEL_NOTE = "every history of three counted handles (exhaustive, edge-covering) plus random histories over five handles"
COMMON = dict(Vals="{1,2}", Enabled="{}", Configs='{[kind |-> "rc", n |-> 2]}')
def mk(**k):
    d = dict(COMMON); d.update(k); return d
def K(ks, n): return "{[kind |-> k, n |-> %d] : k \\in {%s}}" % (n, ", ".join('"%s"' % k for k in ks))
R = ["rc", "rcarr"]
PARTS = [Part("Owners", name="rc", tv_consts=COMMON, drivers=[("drv_owners.cpp", ["def", "del"], ["-DGRP=2", "-DHAVE_MAKE_RC_ARRAY"])],
    mc=[mk(Configs=K(R, 3), Vals="{1}"), mk(Configs=K(R, 2), Vals="{1,2}")],
    sim=[mk(Configs=K(R, 5), Vals="1..9", _num="60", _depth="60")],
    mc_thorough=[mk(Configs=K(R, 3), Vals="{1,2}"), mk(Configs=K(R, 4), Vals="{1}")],
    )]
