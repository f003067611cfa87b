LEVEL_NOTE = "every wait on one and two threads against every short script of stores (with and without notification), clock advances and progress of the waiters, with a virtual clock and happens-before tracking; random scripts beyond"
ALLF = '{"for", "until", "iffor", "ifuntil", "eqfor", "equntil", "if", "eq"}'
C = dict(Configs="{}", Fs=ALLF, Xs="{0,1}", Ds="{0,100,20000}", Ns="{1,40,200}", Advs="{50,20000}", Ords="{0}", Budget="4")
def mk(**k):
    d = dict(C); d.update(k); return d
def cf(n, v="{0,1}", dt="{0}"): return "{[n |-> %d, v |-> y, dt |-> z] : y \\in %s, z \\in %s}" % (n, v, dt)
PARTS = [Part("AtomicWait", tv_consts=mk(), drivers=[("drv_atomicwait.cpp", ["x"], [])], max_len=30,
    mc=[mk(Configs=cf(1)), mk(Configs=cf(1, "{0}", "{1,2}"), Ds="{-100,5}", Ords="{0,1,2}", Budget="3", Ns="{2,200}"),
        mk(Configs=cf(1, "{0}"), Fs='{"if", "eq"}', Xs="{0,1,2}", Ds="{0}", Ns="{1,2,3}", Advs="{}", Budget="7"),
        mk(Configs=cf(2, "{0}"), Fs='{"eqfor", "eq", "for"}', Xs="{1,2}", Ds="{100}", Ns="{1,200}", Advs="{100}", Budget="4")],
    sim=[mk(Configs=cf(2, "{0,1,2}", "{0,1,2}"), Xs="0..4", Ds="{-5,0,1,4,64,100,1000,130000}", Ns="{1,2,3,5,17,40,70,140,300}", Advs="{1,5,100,1000,130000}", Ords="0..2", Budget="60", _num="600", _depth="40")],
    mc_thorough=[mk(Configs=cf(1), Budget="5"), mk(Configs=cf(1, "{0}"), Fs='{"if", "eq"}', Xs="{0,1,2}", Ds="{0}", Ns="{1,2,3}", Advs="{}", Budget="8"),
        mk(Configs=cf(2, "{0}"), Xs="{1,2}", Ds="{100}", Ns="{1,40,200}", Advs="{100}", Budget="4")])]
