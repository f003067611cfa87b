"""Model-based verification engine.

A property is decided by one or more *parts*.  A part couples one TLA+ module (spec/<Spec>.tla) with one or more
C++ drivers (harness/*.cpp) that are compiled against /repo's current headers:

  MC   TLC explores the specification exhaustively for small constants, checks its invariants, and prints every
       transition.  The transitions are turned into an edge-covering set of operation histories.
  SIM  TLC -simulate walks the same specification with large constants and prints long random histories.
  RUN  the drivers execute the histories on the real code and record every result (no oracle in the driver).
  TV   TLC validates every recorded history against the specification (the specification is the only judge).

A rejected or crashed history is re-run; if it repeats, it is reported as VIOLATION with a replay file.
"""
import collections, concurrent.futures as cf, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time

ROOT = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
REPO = os.environ.get("VP_REPO", "/repo")
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CXX = "/usr/bin/clang++"
CXXFLAGS = ["-std=c++23", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
            "-fno-sanitize-recover=all", "-w", "-fconstexpr-steps=100000000", "-ftemplate-depth=2048"]
LIBS = ["-lpthread"]
ASAN = ("detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:"
        "hard_rss_limit_mb=6000:max_allocation_size_mb=2000:handle_abort=0:symbolize=0:print_summary=0:quarantine_size_mb=16")
UBSAN = "print_stacktrace=0:halt_on_error=1"


class ModelFailure(Exception):
    pass


class Violation(Exception):
    def __init__(self, info):
        self.info = info


class Part:
    """spec: TLA+ module name.  mc/sim: lists of constant dicts (values are TLA+ expressions).
    drivers: list of (source, [variants], [extra flags]).  A run dict may carry '_variants', '_num', '_depth', '_tour'."""

    def __init__(self, spec, drivers, mc=(), sim=(), mc_thorough=None, sim_thorough=None, end=True, name=None,
                 max_len=60, tv_consts=None, extra_histories=None, tags=None):
        self.spec, self.drivers = spec, drivers
        self.mc, self.sim = list(mc), list(sim)
        self.mc_thorough = list(mc_thorough) if mc_thorough is not None else self.mc
        self.sim_thorough = list(sim_thorough) if sim_thorough is not None else None
        self.end, self.name, self.max_len = end, name or spec, max_len
        self.tv_consts = tv_consts
        self.extra = extra_histories or []
        self.tags = tags


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def tlc(wd, mod, cfg, workers=8, args=(), timeout=850, heap="6g"):
    meta = tempfile.mkdtemp(prefix="meta", dir=wd)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xmx" + heap, "-Xss64m", "-DTLA-Library=" + os.path.join(ROOT, "spec"),
           "-Dtlc2.TLC.stopAfter=100000",
           "-cp", JAVA_CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", *args,
           "-config", cfg, mod]
    out = os.path.join(wd, os.path.basename(mod) + ".out")
    t = time.time()
    with open(out, "w") as f:
        try:
            rc = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=wd, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            rc = -1
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out, time.time() - t


def cfg_text(consts, extra):
    s = ""
    if consts:
        s += "CONSTANTS\n" + "".join("  %s <- K_%s\n" % (k, k) for k in consts if not k.startswith("_"))
    return s + extra


def with_consts(text, consts):
    """Constants are passed as definitions, so that any TLA+ expression can be used."""
    defs = "".join("K_%s == %s\n" % (k, v) for k, v in (consts or {}).items() if not k.startswith("_"))
    i = text.index("VARIABLES")
    return text[:i] + defs + text[i:]


def tail(path, n=30):
    with open(path, errors="replace") as f:
        L = [l for l in f if not l.startswith('"@')]
    e = [i for i, l in enumerate(L) if l.startswith("Error:")]
    return "".join(sum((L[i:i + 4] for i in e[:3]), []) + ["...\n"] + L[-n:])


MC_T = """---- MODULE {mod} ----
EXTENDS {spec}, TLC, TLCExt, Json
VARIABLES c, s, op
FP(x) == ToString(TLCFP(x)) \\o "." \\o ToString(TLCFP(<<x, 1>>))
MInit == \\E cc \\in Configs : c = cc /\\ s = CInit(cc) /\\ op = <<>> /\\ PrintT("@I " \\o ToJson(<<cc, FP(<<cc, CInit(cc)>>)>>))
MNext == \\E k \\in Kinds(s) : \\E o \\in Ops(s, k) : s' = Step(s, o).s /\\ op' = o /\\ c' = c
View == <<c, s>>
Edge == PrintT("@E " \\o ToJson(<<FP(<<c, s>>), op', FP(<<c, s'>>)>>))
MInv == Inv(s)
====
"""
SIM_T = """---- MODULE {mod} ----
EXTENDS {spec}, TLC, Json, FiniteSets
VARIABLES c, s, hist
Pick(S) == RandomElement(S)
Few(S) == IF Cardinality(S) <= 200 THEN S ELSE {{Pick(S) : i \\in 1..200}}
MInit == /\\ c \\in Configs
         /\\ s = CInit(c) /\\ hist = <<>>
MNext == /\\ Len(hist) < {depth}
         /\\ \\E k \\in {{Pick(Kinds(s))}} : \\E S \\in {{Ops(s, k)}} :
              IF S = {{}} THEN \\E k2 \\in {{Pick({{q \\in Few(Kinds(s)) : Ops(s, q) # {{}}}})}} : \\E o \\in {{Pick(Ops(s, k2))}} :
                                 s' = Step(s, o).s /\\ hist' = Append(hist, o) /\\ c' = c
              ELSE \\E o \\in {{Pick(S)}} : s' = Step(s, o).s /\\ hist' = Append(hist, o) /\\ c' = c
Emit == Len(hist') = {depth} => PrintT("@H " \\o ToJson(<<c, hist'>>))
MInv == Inv(s)
====
"""
TV_T = """---- MODULE {mod} ----
EXTENDS {spec}, TLC, Json
Data == ndJsonDeserialize("{file}")
VARIABLES h, l, S
TInit == \\E hh \\in 1..Len(Data) : h = hh /\\ l = 1 /\\ S = {{CInit(Data[hh].c)}}
Cur == Data[h].ev[l]
Succ(e) == IF e.o[1] = "__end" THEN (IF {endok} THEN S ELSE {{}}) ELSE UNION {{Post(x, e.o, e.r) : x \\in S}}
TNext == /\\ l <= Len(Data[h].ev)
         /\\ LET T == Succ(Cur) IN
              IF T = {{}} THEN PrintT("@R " \\o ToJson(<<h, l>>)) /\\ {verbose} /\\ FALSE
              ELSE S' = T /\\ l' = l + 1 /\\ h' = h
TInv == \\A x \\in S : Inv(x)
====
"""


def tour(lines, max_len, seed, cap=None):
    """Edge-covering histories from '@I'/'@E' lines."""
    inits, adj, seen = [], {}, set()
    conf = {}
    n_edges = 0
    for line in lines:
        if line.startswith('"@E '):
            a = json.loads(json.loads(line)[3:])
            f, o, t = a
            key = (f, json.dumps(o, separators=(",", ":")), t)
            if key in seen:
                continue
            seen.add(key)
            adj.setdefault(f, []).append((key[1], t))
            n_edges += 1
        elif line.startswith('"@I '):
            cc, f = json.loads(json.loads(line)[3:])
            if f not in conf:
                conf[f] = cc
                inits.append(f)
    del seen
    # BFS tree
    par = {f: None for f in inits}
    dq = collections.deque(inits)
    order = []
    while dq:
        f = dq.popleft()
        order.append(f)
        for o, t in adj.get(f, ()):
            if t not in par:
                par[t] = (f, o)
                dq.append(t)
    left = {f: list(v) for f, v in adj.items()}
    rng = random.Random(seed)
    for v in left.values():
        rng.shuffle(v)
        # self loops last in the list = taken first
    for f, v in left.items():
        v.sort(key=lambda e: e[1] == f)
    hist = []
    remaining = n_edges

    def path_to(f):
        p = []
        while par[f] is not None:
            g, o = par[f]
            p.append(o)
            f = g
        p.reverse()
        return f, p
    for start in order:
        while left.get(start):
            root, p = path_to(start)
            ops = list(p)
            cur = start
            base = len(ops)
            while len(ops) - base < max_len:
                L = left.get(cur)
                if L:
                    o, t = L.pop()
                    remaining -= 1
                    ops.append(o)
                    cur = t
                    continue
                # nearest node with uncovered edges, depth <= 3
                found = None
                q = collections.deque([(cur, ())])
                vis = {cur}
                while q and not found:
                    f, pp = q.popleft()
                    if len(pp) >= 3 or len(vis) > 400:
                        continue
                    for o, t in adj.get(f, ()):
                        if t in vis:
                            continue
                        vis.add(t)
                        if left.get(t):
                            found = (t, pp + (o,))
                            break
                        q.append((t, pp + (o,)))
                if not found:
                    break
                ops.extend(found[1])
                cur = found[0]
            hist.append((conf[root], ops))
            if cap and len(hist) >= cap:
                return hist, n_edges, len(order)
    return hist, n_edges, len(order)


class Engine:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        os.makedirs(os.path.join(ROOT, "build"), exist_ok=True)
        self.wd = tempfile.mkdtemp(prefix=pid + ".", dir=os.path.join(ROOT, "build"))
        self.states = self.trans = self.validated = self.events = 0
        self.samples, self.notes = [], []
        self.opcount = collections.Counter()
        self.lock = threading.Lock()
        self.compilers = cf.ThreadPoolExecutor(8)
        self.compiling = {}

    # ---- drivers ----
    def compile(self, src, flags, tag=""):
        exe = os.path.join(self.wd, os.path.basename(src).replace(".cpp", "") + tag + ".exe")
        cmd = [CXX, *CXXFLAGS, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(ROOT, "harness"), *flags,
               os.path.join(ROOT, "harness", src), "-o", exe, *LIBS]
        r = sh(cmd)
        if r.returncode != 0:
            t = os.path.join(self.wd, "trivial.cpp")
            open(t, "w").write("#include <vector>\nint main(){std::vector<int> v; return (int)v.size();}\n")
            if sh([CXX, *CXXFLAGS, t, "-o", t + ".exe"]).returncode != 0:
                raise ModelFailure("compiler does not work: " + r.stdout[-2000:])
            r2 = sh(cmd)
            if r2.returncode != 0:
                if "internal compiler error" in r2.stdout or "Killed" in r2.stdout or "unable to execute" in r2.stdout:
                    raise ModelFailure(r2.stdout[-3000:])
                raise Violation(dict(kind="the public API the specification is bound to no longer compiles", driver=src,
                                     cmd=cmd, detail="\n".join(l for l in r2.stdout.splitlines() if "error" in l)[:3000]))
        return exe

    def prefetch(self, src, flags, tag):
        """The future of a compilation, started at most once."""
        with self.lock:
            if (src, tag) not in self.compiling:
                self.compiling[src, tag] = self.compilers.submit(self.compile, src, flags, tag)
            return self.compiling[src, tag]

    def run_driver(self, exe, variant, sched, outp, timeout=600):
        env = dict(os.environ, ASAN_OPTIONS=ASAN, UBSAN_OPTIONS=UBSAN)
        try:
            r = sh([exe, "-v", variant, sched, outp], env=env, timeout=timeout, cwd=self.wd)
        except subprocess.TimeoutExpired:
            return -1, "timeout"
        return r.returncode, r.stdout

    # ---- specification ----
    def write(self, mod, text, cfg):
        m = os.path.join(self.wd, mod + ".tla")
        open(m, "w").write(text)
        c = os.path.join(self.wd, mod + ".cfg")
        open(c, "w").write(cfg)
        return m, c

    def model_check(self, part, i, consts, workers):
        mod = "MC_%s_%d" % (part.name, i)
        m, c = self.write(mod, with_consts(MC_T.format(mod=mod, spec=part.spec), consts),
                          cfg_text(consts, "INIT MInit\nNEXT MNext\nVIEW View\nINVARIANT MInv\nACTION_CONSTRAINT Edge\nCHECK_DEADLOCK FALSE\n"))
        rc, out, dt = tlc(self.wd, m, c, workers)
        if rc != 0:
            raise ModelFailure("TLC on %s: rc=%s\n%s" % (mod, rc, tail(out)))
        with open(out, errors="replace") as f:
            lines = [l for l in f]
        g = [re.match(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", l) for l in lines]
        g = [x for x in g if x][-1]
        if int(g.group(3)) != 0:
            raise ModelFailure("TLC left states on queue")
        hist, ne, nn = tour(lines, part.max_len, self.seed)
        with self.lock:
            self.states += int(g.group(2))
            self.trans += ne
            self.notes.append("MC %s %s: %s distinct states, %d transitions -> %d histories, %.1fs" % (
                part.name, {k: v for k, v in consts.items() if k[0] != "_"}, g.group(2), ne, len(hist), dt))
        os.unlink(out)
        return [json.dumps(cc, separators=(",", ":")) and "[%s,[%s]]" % (json.dumps(cc, separators=(",", ":")), ",".join(ops)) for cc, ops in hist]

    def simulate(self, part, i, consts, workers, num, depth):
        mod = "SIM_%s_%d" % (part.name, i)
        m, c = self.write(mod, with_consts(SIM_T.format(mod=mod, spec=part.spec, depth=depth), consts),
                          cfg_text(consts, "INIT MInit\nNEXT MNext\nINVARIANT MInv\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"))
        rc, out, dt = tlc(self.wd, m, c, workers, ["-simulate", "num=%d" % num, "-depth", str(depth + 1), "-seed", str(self.seed + 1000 * i + 7)])
        if rc != 0:
            raise ModelFailure("TLC -simulate on %s: rc=%s\n%s" % (mod, rc, tail(out)))
        hs = set()
        with open(out, errors="replace") as f:
            for l in f:
                if l.startswith('"@H '):
                    hs.add(json.dumps(json.loads(json.loads(l)[3:]), separators=(",", ":")))
        if not hs:
            raise ModelFailure("TLC -simulate produced no history for %s\n%s" % (mod, tail(out)))
        with self.lock:
            self.notes.append("SIM %s %s: %d histories of %d operations, %.1fs" % (
                part.name, {k: v for k, v in consts.items() if k[0] != "_"}, len(hs), depth, dt))
        os.unlink(out)
        return sorted(hs)

    def validate(self, part, traces, tag, consts=None, verbose=False):
        """traces: list of JSON lines.  Returns list of (history index, event index)."""
        if not traces:
            return []
        mod = "TV_%s_%s" % (part.name, tag)
        data = os.path.join(self.wd, mod + ".ndjson")
        open(data, "w").write("\n".join(traces) + "\n")
        consts = consts if consts is not None else (part.tv_consts or (part.mc + part.sim)[0])
        vb = 'PrintT("@S " \\o ToString(S)) /\\ PrintT("@X " \\o ToString(IF Cur.o[1] = "__end" THEN <<0>> ELSE LET x == CHOOSE y \\in S : TRUE IN Expect(x, Cur.o)))' if verbose else "TRUE"
        m, c = self.write(mod, with_consts(TV_T.format(mod=mod, spec=part.spec, file=data, verbose=vb,
                                                       endok="e.r = <<0, 0, 0>>" if part.end else "TRUE"), consts),
                          cfg_text(consts, "INIT TInit\nNEXT TNext\nINVARIANT TInv\nCHECK_DEADLOCK FALSE\n"))
        rc, out, dt = tlc(self.wd, m, c, 8)
        txt = open(out, errors="replace").read()
        rej = [tuple(json.loads(json.loads(l)[3:])) for l in txt.splitlines() if l.startswith('"@R ')]
        if rc != 0:
            hs = re.findall(r"^/\\ h = (\d+)$", txt, re.M)
            ls = re.findall(r"^/\\ l = (\d+)$", txt, re.M)
            if rc == -1 or not hs or "OutOfMemory" in txt or "Parsing or semantic analysis failed" in txt:
                raise ModelFailure("TLC validation of %s: rc=%s\n%s" % (mod, rc, txt[-3000:]))
            rej.append((int(hs[-1]), int(ls[-1])))
            self.eval_error = txt[-1500:]
        elif not rej:
            total = sum(t.count('"o":') + 1 for t in traces)
            g = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", txt)
            if not g or int(g[-1][1]) != total or int(g[-1][2]) != 0:
                raise ModelFailure("validation of %s did not consume the traces (%s of %d)\n%s" % (mod, g[-1:], total, txt[-1500:]))
            with self.lock:
                self.validated += len(traces)
                self.events += total - len(traces)
                self.states += total
        if verbose:
            ex = [l for l in txt.splitlines() if l.startswith('"@S') or l.startswith('"@X')]
            return rej, ex
        os.unlink(data)
        self.notes.append("TV %s: %d histories, %.1fs" % (part.name, len(traces), dt))
        return rej

    # ---- one part ----
    def report(self, part, src, variant, flags, hist_line, reason, detail):
        return Violation(dict(kind=reason, spec=part.spec, driver=src, variant=variant, flags=flags, history=json.loads(hist_line),
                              detail=detail))

    def replay_one(self, part, exe, variant, line, consts=None):
        """Run one history; returns None if accepted, else a description."""
        s = os.path.join(self.wd, "one.sched")
        o = os.path.join(self.wd, "one.out")
        open(s, "w").write(line + "\n")
        rc, msg = self.run_driver(exe, variant, s, o)
        lines = open(o).read().splitlines() if os.path.exists(o) else []
        if rc == 3:
            raise ModelFailure("driver: " + msg[-1000:])
        if rc != 0 or not lines or '"crash":' in lines[-1]:
            return dict(reason="the implementation crashed or hung executing a legal history", rc=rc,
                        trace=lines[-1][-4000:] if lines else "", message=msg[-1500:])
        rej, ex = self.validate(part, lines, "one", consts, verbose=True)
        if rej:
            ev = json.loads(lines[0])["ev"]
            k = rej[0][1] - 1
            return dict(reason="the implementation's behaviour is not a behaviour of the specification", step=k + 1,
                        event=ev[k], state_and_expected=ex, context=ev[max(0, k - 5):k], eval_error=getattr(self, "eval_error", None))
        return None

    def check_lines(self, part, exes, lines, tag, variants_ok=None, consts=None, collect=None):
        """Run schedules on all variants, validate, raise Violation."""
        sched = os.path.join(self.wd, part.name + "." + tag + ".sched")
        jobs = []
        CH = max(1, (len(lines) + 7) // 8)
        chunks = [lines[i:i + CH] for i in range(0, len(lines), CH)]
        for i, ch in enumerate(chunks):
            open(sched + str(i), "w").write("\n".join(ch) + "\n")
        for (src, variant, flags, exe) in exes:
            if variants_ok and variant not in variants_ok:
                continue
            for i, ch in enumerate(chunks):
                jobs.append((src, variant, flags, exe, i))
        uniq = {}
        fails = []

        def go(j):
            src, variant, flags, exe, i = j
            o = "%s.%s.%s%d.out" % (sched, os.path.basename(exe), variant, i)
            rc, msg = self.run_driver(exe, variant, sched + str(i), o)
            return j, rc, msg, o
        with cf.ThreadPoolExecutor(8) as ex:
            for j, rc, msg, o in ex.map(go, jobs):
                src, variant, flags, exe, i = j
                if rc == 3:
                    raise ModelFailure("driver %s %s: %s" % (src, variant, msg[-1500:]))
                out = open(o).read().splitlines() if os.path.exists(o) else []
                ch = chunks[i]
                n_ok = 0
                for k, t in enumerate(out):
                    if '"crash":' in t:
                        break
                    uniq.setdefault(t, (j, ch[k]))
                    n_ok += 1
                if rc != 0 or n_ok != len(ch):
                    fails.append((j, ch[min(n_ok, len(ch) - 1)], rc, msg))
                if os.path.exists(o):
                    os.unlink(o)
        for i in range(len(chunks)):
            os.unlink(sched + str(i))
        for j, line, rc, msg in fails[:3]:
            d = self.replay_one(part, j[3], j[1], line, consts)
            if d is None:
                # depends on earlier histories of the same process: re-run the whole chunk
                open(sched + "x", "w").write("\n".join(chunks[j[4]]) + "\n")
                rc2, msg2 = self.run_driver(j[3], j[1], sched + "x", sched + "x.out")
                if rc2 == 0:
                    raise ModelFailure("driver failure did not repeat: %s %s" % (rc, msg[-800:]))
                d = dict(reason="the implementation crashed or hung executing legal histories", rc=rc2, message=msg2[-1500:])
            raise self.report(part, j[0], j[1], j[2], line, d["reason"], d)
        if fails:
            raise ModelFailure("driver failures did not repeat")
        if collect is not None:
            for t, x in uniq.items():
                collect.setdefault(t, x)
            return
        self.judge(part, uniq, tag, consts)

    def judge(self, part, uniq, tag, consts=None):
        traces = list(uniq)
        LIM = 40000
        for b in range(0, len(traces), LIM):
            chunk = traces[b:b + LIM]
            rej = self.validate(part, chunk, tag, consts)
            if rej:
                h = rej[0][0] - 1
                j, line = uniq[chunk[h]]
                d = self.replay_one(part, j[3], j[1], line, consts)
                if d is None:
                    raise ModelFailure("rejected trace did not repeat: " + chunk[h][:2000])
                raise self.report(part, j[0], j[1], j[2], line, d["reason"], d)
        step = max(1, len(traces) // 3)
        for t in traces[::step][:3]:
            self.samples.append(json.loads(t) if len(t) < 3000 else t[:3000] + "...")
        for t in traces:
            for k in re.findall(r'"o":\["([^"]+)"', t):
                self.opcount[part.name + "." + k] += 1

    def run_part(self, part):
        thorough = self.tier == "thorough"
        mc = part.mc_thorough if thorough else part.mc
        sim = (part.sim_thorough if part.sim_thorough is not None else [dict(s, _num=str(int(s.get("_num", 200)) * 10)) for s in part.sim]) if thorough else part.sim
        with cf.ThreadPoolExecutor(16) as ex:
            comp = []
            for d in part.drivers:
                src, variants, flags = d[0], d[1], list(d[2]) if len(d) > 2 else []
                fl = hashlib.md5(" ".join(flags).encode()).hexdigest()[:6] if flags else ""
                comp.append((src, variants, flags, self.prefetch(src, flags, fl)))
            w = 4 if (len(mc) + len(sim)) > 1 else 6
            sem = threading.Semaphore(3)

            def guarded(f, *a):
                with sem:
                    return f(*a)
            fm = [(c, ex.submit(guarded, self.model_check, part, i, c, w)) for i, c in enumerate(mc)]
            fs = [(c, ex.submit(guarded, self.simulate, part, i, c, w, int(c.get("_num", 200)), int(c.get("_depth", 60)))) for i, c in enumerate(sim)]
            exes = []
            err = None
            for src, variants, flags, f in comp:
                exe = f.result()
                exes += [(src, v, flags, exe) for v in variants]
            coll = {} if part.tv_consts is not None else None
            tv = part.tv_consts
            for n, (c, f) in enumerate(fm):
                self.check_lines(part, exes, f.result(), "mc%d" % n, c.get("_variants"), tv or c, coll)
            for n, (c, f) in enumerate(fs):
                self.check_lines(part, exes, f.result(), "sim%d" % n, c.get("_variants"), tv or c, coll)
            if part.extra:
                self.check_lines(part, exes, part.extra, "x", None, tv or (part.mc + part.sim)[0], coll)
            if coll is not None:
                self.judge(part, coll, "all", tv)
        return exes


def load(pid):
    ns = {"Part": Part, "ROOT": ROOT, "REPO": REPO}
    p = os.path.join(ROOT, "checks", pid + ".py")
    exec(compile(open(p).read(), p, "exec"), ns)
    return ns


def main(argv):
    if len(argv) >= 3 and argv[1] == "--replay":
        return replay(argv[2])
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 2:
        tier = argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = os.environ.get("MBT_PART")
    t0 = time.time()
    E = Engine(pid, tier, seed)
    ns = load(pid)
    viol = None
    rc = 0
    known = [k for k in json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"] if k["property"] == pid] \
        if os.path.exists(os.path.join(ROOT, "known_findings.json")) else []
    try:
        exes = {}
        for part in ns.get("PARTS", []):
            if not only or part.name in only.split(","):
                for d in part.drivers:
                    flags = list(d[2]) if len(d) > 2 else []
                    E.prefetch(d[0], flags, hashlib.md5(" ".join(flags).encode()).hexdigest()[:6] if flags else "")
        for part in ns.get("PARTS", []):
            if only and part.name not in only.split(","):
                continue
            for e in E.run_part(part):
                exes[(part.name, e[0], e[1])] = (part, e[3])
        for fn in ns.get("CUSTOM", []):
            fn(E)
        for k in known:
            if k.get("status") == "fixed":
                continue
            if only and k["part"] not in only.split(","):
                continue
            part, exe = exes[(k["part"], k["driver"], k["variant"])]
            consts = None
            d = E.replay_one(part, exe, k["variant"], json.dumps(k["history"], separators=(",", ":")))
            if d is not None:
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    except Violation as v:
        viol = v.info
    except ModelFailure as m:
        print("MODEL-FAILURE property=%s: %s" % (pid, m))
        if not os.environ.get("MBT_KEEP"):
            shutil.rmtree(E.wd, ignore_errors=True)
        return 2
    finally:
        E.compilers.shutdown(wait=True, cancel_futures=True)
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=seed, level=ns.get("LEVEL", "model_checking"),
              coverage=dict(states=E.states, transitions=E.trans, traces_validated_against_impl=E.validated,
                            events_validated=E.events, operations=dict(E.opcount), runs=E.notes,
                            samples=E.samples[:8] or ["none: " + (viol or {}).get("kind", "")]),
              assumptions=ns.get("ASSUMPTIONS", []), wall_s=round(wall, 2), violations=1 if viol else 0)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if viol:
        rp = os.path.join(ROOT, "build", pid + ".violation.json")
        with open(rp, "w") as f:
            json.dump(dict(property=pid, **viol), f, indent=1)
        print(json.dumps(viol, indent=1)[:6000])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        rc = 1
    else:
        print("OK property=%s %d histories (%d events) validated, %d states, %d transitions, %.1fs" % (
            pid, E.validated, E.events, E.states, E.trans, wall))
        if os.environ.get("MBT_VERBOSE"):
            for n in E.notes:
                print("  ", n)
            print("  ", dict(E.opcount))
    if not os.environ.get("MBT_KEEP"):
        shutil.rmtree(E.wd, ignore_errors=True)
    return rc


def replay(path):
    """Re-run a recorded violation against the current /repo."""
    v = json.load(open(path))
    E = Engine("replay", "quick", 1)
    ns = load(v["property"])
    if "history" not in v:
        print(json.dumps(v, indent=1))
        return 1
    part = [p for p in ns["PARTS"] if p.spec == v["spec"]][0]
    try:
        fl = v.get("flags") or []
        exe = E.compile(v["driver"], fl)
        d = E.replay_one(part, exe, v["variant"], json.dumps(v["history"], separators=(",", ":")))
    except Violation as x:
        d = x.info
    print(json.dumps(d, indent=1) if d else "accepted")
    return 1 if d else 0


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv))
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(2)
