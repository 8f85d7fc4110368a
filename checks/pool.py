"""The thread pool of groups.cc, one thread at a time.

Each thread of the pool (the caller and a worker) is followed by itself; when
it waits, the memory they share changes in the ways the other threads are
allowed to change it (lines of a script). What the other side relies on is
checked: what is shared is accessed under the lock or counted in, a task index
is taken once, a waiting thread goes on only when it may, and is woken.
The members are told by what is done with them, not by their names.
"""
import re
from bsa import ir, prov
from bsa.build import AnalysisBroken
from bsa.prov import P, Prov, State, Broken, const, show, NULL

AT = "c/experimental/groups.cc"
KEEP = (r"^std::condition_variable::wait", r"ParallelExecutor::[^:]+::operator\(\)", r"ParallelExecutor::~?\w+\(", r"^std::mutex::(un)?lock\(", r"std::async<", r"std::thread::thread<")
N = 3


def at(f):
    return next((i.where() for b in f.blocks for i in b.insts if i.where() and AT in i.where()), AT)


class Fail(Exception):
    pass


class End(Exception):
    """The script is over: the thread still waits."""


class Thread(Prov):
    """Events of one thread: (kind, object, value, instruction)."""
    def __init__(self, m, f):
        Prov.__init__(self, m, f, lambda s: None, self.tmodel, steps=2000000)
        self.nofork = True
        self.held, self.log, self.script, self.env = set(), [], [], {}
        self.at_task, self.workers, self.off = None, [], True

    def say(self, kind, o, v=None):
        self.log.append((kind, o, v, self.cur, bool(self.held)))

    def shared(self, p):
        return isinstance(p, P) and p.obj == POOL

    def rd(self, st, p, n):
        if self.shared(p) and not self.off:
            self.say("read", p.off)
        return Prov.rd(self, st, p, n)

    def wr(self, st, p, v, n):
        if self.shared(p) and not self.off:
            self.say("write", p.off, v)
        return Prov.wr(self, st, p, v, n)

    def quiet(self, f, *a):
        o, self.off = self.off, True
        r = f(*a)
        self.off = o
        return r

    def val(self, st, off, n=8):
        v = self.quiet(Prov.rd, self, st, P(POOL, off), n)
        if isinstance(v, P):
            return v
        if n == 1:
            v = v[:1]
        return self.ev(v)

    def put(self, st, off, v, n=8):
        self.quiet(Prov.wr, self, st, P(POOL, off), v if isinstance(v, P) else const(v, 8 * n), n)

    def lock(self, st, p, on):
        if on:
            if p in self.held:
                raise Fail((self.cur, "locks what it has locked"))
            self.held.add(p)
        else:
            if p not in self.held:
                raise Fail((self.cur, "unlocks what it has not locked"))
            self.held.discard(p)
        self.say("lock" if on else "unlock", p.off)

    def holder(self, st, p):
        """The mutex of a std::unique_lock."""
        q = st.user.get(("ul", p))
        if q is None:
            raise AnalysisBroken("the lock used at %s is not known" % self.cur.where())
        return q

    def tmodel(self, _p, st, i, a):
        d = i.cdem or ""
        fn = re.search(r"::(~?\w+|operator ?[^(:]+)(<.*>)?\([^()]*(\([^()]*\))?[^()]*\)( const)?$", d)
        fn = fn.group(1).strip() if fn else ""
        if d.startswith(("std::unique_lock<", "std::lock_guard<", "std::scoped_lock<")):
            if fn in ("unique_lock", "lock_guard", "scoped_lock"):
                if len(a) != 2 or not isinstance(a[1], P):
                    raise AnalysisBroken("the lock taken at %s is of an unknown kind" % i.where())
                st.user[("ul", a[0])] = a[1]
                st.user[("own", a[0])] = True
                self.lock(st, a[1], True)
                return ()
            if fn.startswith("~"):
                if st.user.get(("own", a[0])):
                    self.lock(st, self.holder(st, a[0]), False)
                return ()
            if fn in ("lock", "unlock"):
                st.user[("own", a[0])] = fn == "lock"
                self.lock(st, self.holder(st, a[0]), fn == "lock")
                return ()
            if fn in ("owns_lock", "operator bool"):
                return const(int(bool(st.user.get(("own", a[0])))), 1)
        if d.startswith("std::mutex::") and fn in ("lock", "unlock"):
            self.lock(st, a[0], fn == "lock")
            return ()
        if d.startswith("std::mutex::"):
            return ()
        if d.startswith("std::condition_variable::"):
            if fn in ("notify_one", "notify_all"):
                self.say(fn, a[0].off)
                return ()
            if fn == "wait":
                q = self.holder(st, a[1])
                if q not in self.held:
                    raise Fail((i, "waits without the lock"))
                self.say("wait", a[0].off)
                self.snap(st)
                self.held.discard(q)
                if not self.script:
                    raise End()
                self.script.pop(0)(self, st)
                self.held.add(q)
                return ()
            if fn in ("condition_variable", "~condition_variable"):
                self.say("cv", a[0].off)
                return ()
        if re.search(r"std::condition_variable::wait<", d):
            g = self.m.functions.get(i.callee)
            return self.enter(st, g, a, i)
        if re.match(r"std::(__)?atomic(_base|_bool|_size_t)?\b", d) and a and isinstance(a[0], P):
            w = 8
            g = re.search(r"atomic(?:_base)?<([^<>]*)>", d)
            t = g.group(1) if g else "bool"
            w = self.ty.size(t) or 8
            p = a[0]
            if fn in ("atomic", "__atomic_base"):
                Prov.wr(self, st, p, a[1] if len(a) > 1 else const(0, 8 * w), w)
                self.say("atomic", p.off, w)
                return ()
            if fn in ("load",) or fn.startswith("operator ") and not fn[9:].strip().startswith(("+", "-", "=", "|", "&")):
                self.say("aload", p.off)
                return Prov.rd(self, st, p, w)
            if fn in ("store", "operator="):
                self.say("astore", p.off, self.ev(a[1]))
                Prov.wr(self, st, p, prov.fill(a[1], 8 * w), w)
                return a[1] if fn == "operator=" else ()
            k = {"operator++": 1, "operator--": -1}.get(fn)
            if k is None and fn in ("fetch_add", "operator+="):
                k = self.ev(a[1])
            if k is None and fn in ("fetch_sub", "operator-="):
                k = -self.ev(a[1])
            if k is not None:
                if p.off == self.env.get("next") and self.env.get("early"):
                    self.env["early"].pop(0)(self, st)
                old = self.ev(Prov.rd(self, st, p, w))
                k = k - (1 << 64) if k >= 1 << 63 else k
                new = (old + k) & (1 << 8 * w) - 1
                Prov.wr(self, st, p, const(new, 8 * w), w)
                self.say("rmw", p.off, (k, new))
                after = fn in ("operator+=", "operator-=") or fn in ("operator++", "operator--") and "(int)" not in d
                r = const(new if after else old, 8 * w)
                if p.off == self.env.get("next"):
                    for f in self.env.get("raced", [])[:1]:
                        f(self, st)
                        self.env["raced"].pop(0)
                return r
            if fn == "exchange":
                old = Prov.rd(self, st, p, w)
                self.say("astore", p.off, self.ev(a[1]))
                Prov.wr(self, st, p, a[1], w)
                return old
            raise AnalysisBroken("an atomic operation at %s is not known: %s" % (i.where(), d[:80]))
        if d.startswith("std::function<void (unsigned long)>::operator()"):
            self.say("task", a[0], self.ev(a[1]))
            self.snap(st)
            if self.at_task:
                self.at_task(self, st)
            return ()
        if " std::async<" in " " + d or "std::thread::thread<" in d:
            self.workers.append((i, a, [self.ev(x) if not isinstance(x, P) else x for x in a]))
            self.say("spawn", None)
            return ()
        if re.match(r"std::(future|vector<std::future|vector<std::thread|thread::(~thread|join|joinable)|__shared)", d):
            if fn == "joinable":
                return const(1, 1)
            return ()
        return None

    def snap(self, st):
        self.log.append(("state", {k: self.val(st, self.env[k], w) for k, w in (("next", 8), ("num", 8), ("busy", 8), ("what", 8)) if k in self.env}, None, self.cur, bool(self.held)))


POOL = ("pool", 0)


def follow(m, f, args, st, script=(), env=None, at_task=None):
    """-> (thread, returned?, state, text or None)"""
    p = Thread(m, f)
    p.script, p.env, p.off, p.at_task = list(script), dict(env or {}), False, at_task
    try:
        p.boot(st, f, args)
        return p, True, st, None
    except End:
        return p, False, st, None
    except Fail as e:
        return p, None, st, e.args[0]
    except prov.Unknown as e:
        return p, None, st, (e.inst, "depends on something that is not set: %s" % e)


def unit():
    return ir.load("gprobe", keep=KEEP)


def fn(m, pat):
    r = [f for f in m.functions.values() if f.blocks and re.match("brunsli::" + pat + r"[^()]*\)( const)?$", f.dem)]
    if len(r) != 1:
        raise AnalysisBroken("%d functions %s" % (len(r), pat))
    return r[0]


def check(m):
    """Yields (key, where, ok, detail)."""
    out = []

    def ob(key, where, ok, why=""):
        w = where.where() if hasattr(where, "where") else where or AT
        out.append((key, w if AT in w else AT, bool(ok), "" if ok else why))

    ctor = fn(m, r"ParallelExecutor::ParallelExecutor\(")
    dtor = fn(m, r"ParallelExecutor::~ParallelExecutor\(")
    st = State()
    st.types[POOL] = "brunsli::ParallelExecutor"
    p, ok, st, bad = follow(m, ctor, [P(POOL, 0), const(N, 64)], st)
    if not ok:
        raise AnalysisBroken("constructor: %s" % (bad,))
    atomics = {o: w for k, o, w, i, h in p.log if k == "atomic"}
    ob("workers are started", p.workers[0][0] if p.workers else None, len(p.workers) == N, "%d threads are started for %d" % (len(p.workers), N))
    if not p.workers:
        return out
    wi, wa, wv = p.workers[0]
    n = [e[0] for e in p.log].index("spawn")
    late = [e for e in p.log[n:] if e[0] in ("write", "astore", "atomic", "cv") and not e[4]]
    ob("what is shared is set before threads start", late[0][3] if late else wi, not late, "written when threads run already")
    asy = "std::async<" in wi.cdem
    if asy and isinstance(wv[1], int):
        ob("workers run by themselves", wi, wv[1] == 1, "the threads may be deferred")
        wa = [wa[0]] + wa[2:]
    # the function the thread runs, and its arguments
    c = wa[1]
    ty = re.search(r"(?:std::async|std::thread::thread)<(.*)>\(", wi.cdem).group(1)
    g = None
    if isinstance(c, P):
        t = prov.clean(re.split(r" const&|&&|&|,", ty)[0])
        for f in m.functions.values():
            if f.blocks and re.match(re.escape(t) + r"::operator\(\)\([^()]*\)( const)?$", f.dem):
                g = f
        args = [c] + [x for x in wa[2:]]
        if g is None and "::*" in ty:
            v = p.ptr(st, c)
            g = m.functions.get(v.obj[1]) if isinstance(v, P) and v.obj and v.obj[0] in "Fg" else None
            args = [p.ptr(st, x) if isinstance(x, P) and x.obj != POOL else x for x in wa[2:]]
    if g is None:
        raise AnalysisBroken("what the threads run is not known: %s" % wi.cdem[:100])
    base = st.copy()
    cp = base.copy

    # the caller: what it sets
    s = cp()
    ex = None
    for f in m.functions.values():
        if f.blocks and "ParallelExecutor" in f.dem and re.match(r"brunsli::ParallelExecutor::execute\(.*\)$", f.dem) and "$" not in f.dem:
            ex = f
    if ex is None:
        for f in m.functions.values():
            if f.blocks and re.match(r"brunsli::ParallelExecutor::getExecutor\(\)::.*::operator\(\)\(", f.dem):
                ex = f
    if ex is None:
        raise AnalysisBroken("what runs the tasks is not known")
    task = P(("task", 1), 0)
    this = P(POOL, 0)
    if not ex.dem.startswith("brunsli::ParallelExecutor::getExecutor"):
        xa = [this, task]
    else:
        c = P(("closure", 0), 0)
        p.wr(s, c, this, 8)
        p.wr(base, c, this, 8)
        xa = [c, task]
    K = 7
    p, ok, s, bad = follow(m, ex, xa + [const(K, 64)], s)
    if bad:
        ob("caller", bad[0], False, bad[1])
        return out
    if ok:
        ob("caller waits for the tasks", at(ex), False, "returns with tasks to be done")
        return out
    env = {}
    for k, o, v, i, hd in p.log:
        if k == "write" and v == task:
            env["what"] = o
        elif k == "write" and not isinstance(v, P) and o not in atomics and p.ev(v) == K:
            env["num"] = o
        elif k == "astore" and v == 0:
            env.setdefault("next", o)
        elif k == "astore" and v == K:
            env["num"] = o
    rest = [o for o in atomics if o not in env.values() and atomics[o] == 8]
    waits = [o for k, o, v, i, hd in p.log if k == "wait"]
    # the worker's view: the index it runs comes from an atomic
    if len(rest) != 1 or not {"what", "num", "next"} <= set(env):
        raise AnalysisBroken("the members of the thread pool are not told apart: %s %s" % (env, rest))
    env["busy"] = rest[0]
    done = waits[0]
    def setter(**kw):
        def f(t, st):
            for k, v in kw.items():
                t.put(st, env[k] if k in env else kw[k], v)
        return f

    def woken(p, cv):
        """All who wait there are woken after the last change."""
        n = 0
        for k, o, v, i, hd in p.log:
            if k == "notify_all" and o == cv:
                n = 99
            elif k == "notify_one" and o == cv:
                n += 1
            elif k in ("write", "astore", "rmw"):
                n = 0
        return n

    # which members are written after construction
    mut = set()
    pd, dok, _s, dbad = follow(m, dtor, [this], cp())
    if dbad:
        ob("destructor", dbad[0], False, dbad[1])
        return out
    for q in (p, pd):
        for k, o, v, i, hd in q.log:
            if k == "write":
                mut.add(o)
    w0, wok, _s, wbad = follow(m, g, args, cp(), env=env)
    if wbad:
        ob("worker", wbad[0], False, wbad[1])
        return out
    if wok or not [1 for e in w0.log if e[0] == "wait"]:
        ob("worker waits for tasks", at(g), False, "does not wait while there is nothing to do")
        return out
    start = [e[1] for e in w0.log if e[0] == "wait"][0]
    for q in (w0,):
        for k, o, v, i, hd in q.log:
            if k == "write":
                mut.add(o)

    def race(q, who):
        counted, b = False, None
        for k, o, v, i, hd in q.log:
            if k == "rmw" and o == env["busy"]:
                counted = v[0] > 0
            if k in ("write", "astore") and not hd:
                b = b or (i, "writes what other threads use without the lock")
            if k == "read" and o in mut and o not in atomics and not hd and not counted:
                b = b or (i, "reads what other threads write, neither under the lock nor counted in")
        ob(who + ": what is shared is under the lock", b[0] if b else at(g), not b, b[1] if b else "")

    # caller
    race(p, "caller")
    sn = [e[1] for e in follow(m, ex, xa + [const(K, 64)], cp(), env=env)[0].log if e[0] == "state"][0]
    ob("caller: the tasks are set when it waits", at(ex), sn.get("next") == 0 and sn.get("num") == K and sn.get("what") == task,
       "waits while %s" % sn)
    ob("caller: wakes the workers", at(ex), woken(p, start) >= N, "%d of %d workers are woken" % (woken(p, start), N))
    for nx, bz, go in ((K, 1, 0), (K + 2, 2, 0), (K - 1, 0, 0), (K - 1, 1, 0), (0, 0, 0), (0, N, 0), (K, N, 0), (K + N, N, 0), (K, 0, 1), (K + 1, 0, 1), (K + N, 0, 1)):
        q, ok, _s, bad = follow(m, ex, xa + [const(K, 64)], cp(), [setter(next=nx, busy=bz)], env)
        ob("caller: %d of %d taken, %d at work" % (nx, K, bz), at(ex) if not bad else bad[0], bad is None and bool(ok) == bool(go),
           bad[1] if bad else "returns before all tasks are done" if ok else "does not return")
    for q2, n2 in ((1, 1), (K, 2)):
        q, ok, _s, bad = follow(m, ex, xa + [const(q2, 64)], cp(), [setter(next=q2 - 1, busy=1), setter(next=q2, busy=1), setter(next=q2, busy=0)], env)
        ob("caller: %d tasks" % q2, at(ex), bad is None and ok and not q.script, "does not wait to the end of the last task")

    # worker
    T2 = P(("task", 2), 0)
    work = lambda nx, k, b=0, w=task: (lambda t, st: (t.put(st, env["next"], nx), t.put(st, env["num"], k), t.put(st, env["busy"], b), t.put(st, env["what"], w)))
    idle = lambda t, st: None

    def worker(key, script, want, raced=(), early=(), pre=None):
        e = dict(env)
        e["raced"], e["early"] = list(raced), list(early)
        s1 = cp()
        if pre:
            pre(Thread(m, g), s1)
        q, ok, _s, bad = follow(m, g, args, s1, script, e)
        where = bad[0] if bad else at(g)
        if bad:
            ob("worker: " + key, where, False, bad[1])
            return
        race(q, "worker: " + key)
        ran = [(x[1], x[2]) for x in q.log if x[0] == "task"]
        why = ""
        if ok:
            why = "the thread ends"
        if not why and ran != want:
            why = "runs %s, not %s" % ([x[1] for x in ran], [x[1] for x in want])
        # counted in while at work, counted out and told afterwards
        busy, told, quiet = 0, True, True
        for n, (k, o, v, i, hd) in enumerate(q.log):
            if k == "rmw" and o == env["busy"]:
                if not hd and v[0] > 0:
                    why, where = why or "counts itself in without the lock", i
                busy += v[0]
                told = told and (v[0] > 0 or v[1] != 0)
                quiet = hd
            if k in ("astore",) and o == env["busy"]:
                why, where = why or "sets the count of busy threads", i
            if k == "write" and o == env["busy"]:
                why, where = why or "sets the count of busy threads", i
            if k == "task" and busy != 1:
                why, where = why or "runs a task while it is not counted in", i
            if k == "rmw" and o == env["next"] and busy != 1:
                why, where = why or "takes a task while it is not counted in", i
            if k == "rmw" and o == env["next"] and v[0] != 1:
                why, where = why or "takes %d tasks at a time" % v[0], i
            if k in ("notify_one", "notify_all") and o == done:
                told = told or quiet or hd
            if k == "wait":
                if busy != 0:
                    why, where = why or "waits while it is counted in", i
                if not told:
                    why, where = why or "does not tell that it is done", i
                if o != start:
                    why, where = why or "waits for something else", i
        ob("worker: " + key, where, not why, why)

    R = lambda *k: [(task, x) for x in k]
    worker("nothing to do", [idle, idle], [])
    worker("three tasks", [work(0, 3), idle], R(0, 1, 2))
    worker("three tasks after idling", [idle, work(0, 3), idle, idle], R(0, 1, 2))
    worker("one task", [work(0, 1)], R(0))
    worker("late", [work(2, 3, 1)], R(2))
    worker("too late", [work(3, 3, 1), idle], [])
    worker("much too late", [work(5, 3, 2), idle], [])
    bump = lambda n: (lambda t, st: t.put(st, env["next"], t.val(st, env["next"]) + n))
    worker("other threads take tasks", [work(0, 4)], R(0, 2), raced=[bump(1), bump(1), idle])
    worker("other threads take the rest", [work(0, 4)], R(0), raced=[bump(3), idle])
    worker("other threads take tasks first", [work(0, 5)], R(1, 4), early=[bump(1), bump(2), idle])
    worker("other threads take all tasks first", [work(0, 2)], [], early=[bump(2)])
    worker("tasks are there already", [idle], R(0, 1), pre=work(0, 2))
    worker("last task is there already", [], R(1), pre=work(1, 2, 1))
    worker("two runs", [work(0, 2), work(0, 1, 0, T2), idle], R(0, 1) + [(T2, 0)])
    worker("two runs with a pause", [work(0, 2), idle, idle, work(0, 2, 0, T2)], R(0, 1) + [(T2, 0), (T2, 1)])

    # the end
    race(pd, "destructor")
    n = woken(pd, start)
    ob("destructor: wakes the workers", at(dtor), n >= N, "%d of %d workers are woken" % (n, N))

    def fin(t, st):
        for o in {e[1] for e in pd.log if e[0] in ("write", "astore")}:
            b = d2k.get(o)
            if b is not None:
                t.put(st, o, *b)
    d2k = {}
    for k, o, v, i, hd in pd.log:
        if k == "write":
            d2k[o] = (v if isinstance(v, P) else pd.ev(v), 8 if isinstance(v, P) else max(1, len(v) // 8))
        if k == "astore":
            d2k[o] = (v, atomics.get(o, 8))
    for key, sc in (("when told before", []), ("at once", [fin]), ("after idling", [idle, fin]), ("after work", [work(0, 2), fin]), ("between", [work(3, 3), fin])):
        s1 = cp()
        if not sc:
            fin(Thread(m, g), s1)
        q, ok, _s, bad = follow(m, g, args, s1, sc, env)
        why = bad[1] if bad else "" if ok else "does not end"
        told = [1 for x in q.log if x[0].startswith("notify") and x[1] == done]
        ran = [x for x in q.log if x[0] == "task"]
        if not why and len(ran) > (2 if key == "after work" else 0):
            why = "runs a task at the end"
        if not why and q.held:
            why = "ends with the lock"
        inn = sum(x[2][0] for x in q.log if x[0] == "rmw" and x[1] == env["busy"])
        ob("end: worker ends " + key, bad[0] if bad else at(g), not why, why)
        if not dok:
            # the destructor waits: what the workers leave behind must let it go on
            after = lambda t, st, k=inn: t.put(st, env["busy"], N * k)
            q2, ok2, _s, bad2 = follow(m, dtor, [this], cp(), [after], env)
            ob("end: destructor returns " + key, at(dtor), bad2 is None and ok2 and (told or not inn) and told,
               bad2[1] if bad2 else "does not return when all threads have ended" if not ok2 else "is not woken by the last thread")
    return out
