LEVEL_NOTE = "every reachable state of three daw::function wrappers, two function_ref, two function_view, a function_table_t, every operation; every call also checks argument passing"
C = dict(Vals="{1,2}", Configs="{}", MaxCalls="9")
def mk(**k):
    d = dict(C); d.update(k); return d
T = ["ref", "view", "tab", "bind"]
def cf(ts): return "{[t |-> x, arr |-> y] : x \\in {%s}, y \\in 0..1}" % ",".join('"%s"' % t for t in ts)
FN = "{[t |-> \"fn\", arr |-> 0]}"
PARTS = [Part("Callables", tv_consts=mk(), drivers=[("drv_callables.cpp", ["r", "v"], [])], max_len=80,
    mc=[mk(Configs=cf(T)), mk(Configs=FN, Vals="{1}", MaxCalls="1")],
    sim=[mk(Configs="%s \\cup %s" % (FN, cf(["ref", "view", "tab"])), Vals="1..9", _num="500", _depth="60")])]
