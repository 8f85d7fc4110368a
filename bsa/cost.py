"""Worst-case consumption: longest path over the abstract state graph.

Every state reached by the value-set interpretation of a function becomes a
node, every step an edge weighted with what its instructions consume.  Loops
whose counters are known unroll by themselves; a cycle that consumes anything
has no bound.  Regions start at the given instruction (a check of the budget)
and end at the next check or at the return.
"""
from bsa import vs
from bsa.scen import Scen, TOP, width
from bsa.build import AnalysisBroken
from bsa.absx import field_of

CAP = 400000
WIDE = 300


def fixed(k):
    """Is the cell one field of one object (not indexed by a value)?"""
    return isinstance(field_of(k), tuple) and k[1][0] in ("a", "d", "f", "l")


def control(s, env, mem, result):
    """Values (and cells) that decide where control goes and can be known.

    A comparison with something unknown (a loop bound read from memory, say)
    decides nothing, so that what flows into it is not tracked.
    """
    fn = s.fn
    stores = {}
    for i in fn.insts():
        if i.op == "store":
            stores.setdefault(s.paths.cell(i.ops[1], i.d.get("vty", "")), []).append(i)
    memo = {}

    def known(o, depth=0):
        if o[0] in ("c", "n", "z", "g", "F"):
            return True
        if o[0] == "a":
            return ("a", o[1]) in env
        v = fn.val(o)
        if v is None:
            return False
        if v.id in env:
            return True
        r = memo.get(v.id)
        if r is not None:
            return r
        memo[v.id] = v.op != "load"
        if v.op == "load":
            k = s.paths.cell(v.ops[0], v.ty)
            if k in mem or s.fieldprem(k) is not TOP:
                r = True
            elif k is not None and k[0] == "x" and k[1][0] == "g":
                g = fn.mod.globals.get(k[1][1])
                e = fn.val(v.ops[0])
                r = bool(g and g.get("const")) and (e is None or all(known(x) for x in e.ops))
            else:
                st = stores.get(k, ())
                r = bool(st) and fixed(k) and any(known(x.ops[0]) for x in st)
        elif v.op in ("call", "invoke"):
            c = v.callee or ""
            r = any(match(v, s) for match, _ in s.pr.calls) or c.startswith("llvm.") and all(known(x) for x in v.ops) or result is not None and result(v, {}) is not None
        elif v.op == "alloca":
            r = True
        else:
            r = all(known(x) for x in v.ops)
        memo[v.id] = r
        return r
    vals, cells = set(), set()
    work = []
    conds = []
    weak = []
    for b in fn.blocks:
        t = b.term
        if t.op == "br" and len(t.ops) == 3 or t.op == "switch":
            conds.append(t.ops[0])
    seen = set()
    while conds:
        v = fn.val(conds.pop())
        if v is None or v.id in seen:
            continue
        seen.add(v.id)
        vals.add(v.id)
        if v.op == "icmp":
            memo.clear()
            if all(known(x) for x in v.ops):
                work.extend(v.ops)
            elif v.ops[1][0] == "c":
                weak.append(v.ops[0])
        elif v.op in ("and", "or", "xor", "freeze", "select", "phi", "zext", "trunc"):
            conds.extend(v.ops)
        else:
            weak.append(("i", v.id))
    nload = {}
    for i in fn.insts():
        if i.op == "load":
            k = s.paths.cell(i.ops[0], i.ty)
            nload[k] = nload.get(k, 0) + 1
    seen2 = set()
    while weak:
        v = fn.val(weak.pop())
        if v is None or v.id in seen2:
            continue
        seen2.add(v.id)
        if v.op in ("zext", "sext", "trunc", "freeze", "phi", "select", "and", "or", "xor") or \
                v.op in ("add", "sub") and v.ops[1][0] == "c":
            vals.add(v.id)
            weak.extend(v.ops)
        elif v.op in ("call", "invoke"):
            vals.add(v.id)
        elif v.op == "load":
            k = s.paths.cell(v.ops[0], v.ty)
            if fixed(k) and (k in stores or v.ty == "i8" and nload[k] > 1):
                vals.add(v.id)
                cells.add(k)
                for st in stores.get(k, ()):
                    weak.append(st.ops[0])
        elif v.op == "icmp":
            conds.append(("i", v.id))
    while work:
        v = fn.val(work.pop())
        if v is None or v.id in vals and v.id not in seen:
            continue
        seen.discard(v.id)
        vals.add(v.id)
        if v.op == "load":
            k = s.paths.cell(v.ops[0], v.ty)
            if k is not None and k not in cells:
                cells.add(k)
                for st in stores.get(k, ()):
                    work.append(st.ops[0])
            g = fn.val(v.ops[0])
            if g is not None and k is not None and k[0] == "x" and k[1][0] == "g":
                work.extend(g.ops)
        elif v.op in ("call", "invoke"):
            if (v.callee or "").startswith("llvm."):
                work.extend(v.ops)
        elif v.op != "alloca":
            work.extend(v.ops)
    return vals, cells


def longest(s, weight, start=None, env=None, mem=None, cap=CAP, also=(), fork=None, result=None, dbg=None):
    """(max cost | None when unbounded, trail of instructions that consume)

    weight(inst, env, mem) -> number, None or "stop"
    `also`: operands that must stay known.
    """
    fn = s.fn
    e0 = dict(env or {})
    for a, v in s.pr.args.items():
        e0[("a", a)] = v
    vals, cells = control(s, e0, dict(mem or {}), result)
    stores = {}
    for i in fn.insts():
        if i.op == "store":
            stores.setdefault(s.paths.cell(i.ops[1], i.d.get("vty", "")), []).append(i)
    w = list(also)
    done = set()
    while w:
        v = fn.val(w.pop())
        if v is None or v.id in done or v.op == "alloca":
            continue
        done.add(v.id)
        vals.add(v.id)
        if v.op in ("call", "invoke"):
            continue
        if v.op == "load":
            k = s.paths.cell(v.ops[0], v.ty)
            if fixed(k):
                cells.add(k)
                w.extend(st.ops[0] for st in stores.get(k, ()))
            continue
        w.extend(v.ops)
    live = liveness(s, vals, cells, also)
    s.phiseen = {}
    s.wstore = {}
    nodes = {}
    edges = []
    infos = []
    work = []

    def node(b, k, prev, e, m):
        blk = fn.blocks[b]
        if k == 0 and prev is not None:
            newv = {}
            for i in blk.insts:
                if i.op != "phi":
                    break
                v = TOP
                for o, ib in zip(i.ops, i.d["inb"]):
                    if ib == prev:
                        v = s.val(o, e)
                        break
                if i.id in s.ind and v is not TOP:
                    # a counter nothing stops
                    l = s.phiseen.setdefault(i.id, set())
                    l.add(v)
                    if len(l) > WIDE:
                        v = TOP
                newv[i.id] = v
            for x, v in newv.items():
                if v is TOP or fn.inst[x].ty[0] != "i":
                    e.pop(x, None)
                else:
                    e[x] = v
            lv = live[b]
            e = {x: v for x, v in e.items()
                 if (x in lv and x in vals if isinstance(x, int) else x[0] != "ld" or x[1] in lv)}
            m = {c: v for c, v in m.items() if c in cells or c in s.keepcells}
        sig = (b, k, frozenset(e.items()), frozenset(m.items()))
        n = nodes.get(sig)
        if n is None:
            n = nodes[sig] = len(nodes)
            edges.append([])
            infos.append((0, None))
            work.append((n, b, k, e, m))
        return n
    s.keepcells = set(mem or ())
    if start is None:
        node(0, 0, None, e0, dict(mem or {}))
    else:
        node(start.bb.id, start.idx + 1, None, e0, dict(mem or {}))
    while work:
        n, b, k, e, m = work.pop()
        if len(nodes) > cap:
            if dbg:
                import collections
                c = collections.Counter(x[0] for x in nodes)
                for b_, n_ in c.most_common(8):
                    print(b_, n_, fn.blocks[b_].insts[0].where())
                    vv = collections.defaultdict(set)
                    for x in nodes:
                        if x[0] == b_:
                            for y, z in x[2]:
                                vv[y].add(z)
                    print({y: len(z) for y, z in vv.items()})
            raise AnalysisBroken("cost of %s: more than %d abstract states" % (fn.qual, cap))
        blk = fn.blocks[b]
        tot, dead, at, forked = 0, False, None, False
        e, m = dict(e), dict(m)
        for i in blk.insts[k:]:
            if i.op == "phi":
                continue
            w = weight(i, e, m)
            if w == "stop":
                dead = True
                break
            if w:
                tot += w
                at = i
            s.step(i, e, m)
            r = result(i, e) if result else None
            if r is not None and i.id not in e:
                e[i.id] = r
            r = fork(i, e) if fork else None
            if r is not None:
                infos[n] = (tot, at)
                for v in r:
                    ne = dict(e)
                    ne[i.id] = vs.of(v)
                    edges[n].append(node(b, i.idx + 1, None, ne, dict(m)))
                forked = True
                break
            if i.d.get("noreturn") or ("dead", 0) in e:
                dead = True
                break
        infos[n] = (tot, at)
        if dead or forked or blk.term.op in ("ret", "unreachable", "resume"):
            continue
        for t, ne, nm in s.branch(blk.term, e, m):
            edges[n].append(node(t, 0, b, ne, nm))
    comp = scc(edges)
    size = {}
    for n in range(len(edges)):
        size.setdefault(comp[n], []).append(n)
    for c, l in size.items():
        if len(l) > 1 or l[0] in edges[l[0]]:
            w = [n for n in l if infos[n][0]]
            if w:
                return None, [infos[w[0]][1]], len(nodes)
    # condensation in reverse topological order == order of component numbers
    cbest = {}
    for c in range(len(size)):
        tot = sum(infos[n][0] for n in size[c])
        nxt = None
        for n in size[c]:
            for t in edges[n]:
                if comp[t] != c and (nxt is None or cbest[comp[t]][0] > cbest[nxt][0]):
                    nxt = comp[t]
        cbest[c] = (tot + (cbest[nxt][0] if nxt is not None else 0), nxt)
    tr = []
    c = comp[0]
    while c is not None:
        for n in size[c]:
            if infos[n][1] is not None:
                tr.append(infos[n][1])
        c = cbest[c][1]
    return cbest[comp[0]][0], tr, len(nodes)


def liveness(s, vals, cells, also):
    """Values needed later to decide control flow or consumption."""
    fn = s.fn
    al = set(o[1] for o in also if o[0] == "i")
    use, define, live, phiuse = {}, {}, {}, {}
    for b in fn.blocks:
        u, d = set(), set()
        for i in b.insts:
            if i.op == "phi":
                if i.id in vals:
                    for o, ib in zip(i.ops, i.d["inb"]):
                        if o[0] == "i":
                            phiuse.setdefault(ib, set()).add(o[1])
            elif i.id in vals or i.op == "switch" or i.op == "br" or \
                    i.op == "store" and s.paths.cell(i.ops[1], i.d.get("vty", "")) in cells:
                for o in i.ops:
                    s._refs(o, u, d)
            d.add(i.id)
            for o in i.ops:
                if o[0] == "i" and o[1] in al and o[1] not in d:
                    u.add(o[1])
        t = b.term
        if t.op in ("br", "switch") and t.ops:
            s._refs(t.ops[0], u, d)
        use[b.id], define[b.id], live[b.id] = u, d, set(u)
    ch = True
    while ch:
        ch = False
        for b in reversed(fn.blocks):
            out = set(phiuse.get(b.id, ()))
            for x in b.succs:
                out |= live[x]
            n = use[b.id] | (out - define[b.id])
            if not n <= live[b.id]:
                live[b.id] |= n
                ch = True
    for b in fn.blocks:
        for i in b.insts:
            if i.op != "phi":
                break
            if i.id in vals:
                live[b.id].add(i.id)
    return live


def scc(edges):
    """Tarjan; component numbers increase from the sinks up."""
    n = len(edges)
    index, low, comp = [None] * n, [0] * n, [None] * n
    st, cnt, cc = [], 0, 0
    for r in range(n):
        if index[r] is not None:
            continue
        work = [(r, 0)]
        while work:
            v, c = work[-1]
            if c == 0:
                index[v] = low[v] = cnt
                cnt += 1
                st.append(v)
            if c < len(edges[v]):
                work[-1] = (v, c + 1)
                t = edges[v][c]
                if index[t] is None:
                    work.append((t, 0))
                elif comp[t] is None:
                    low[v] = min(low[v], index[t])
            else:
                work.pop()
                if work:
                    p = work[-1][0]
                    low[p] = min(low[p], low[v])
                if low[v] == index[v]:
                    while True:
                        t = st.pop()
                        comp[t] = cc
                        if t == v:
                            break
                    cc += 1
    return comp
