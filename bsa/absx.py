"""Path-sensitive forward exploration over finite value sets.

Starting after one instruction with known values for a few SSA values and
memory cells, enumerates the (block, environment) pairs reachable from it and
reports the values that can be returned.  Values are finite sets of integers;
anything else is unknown.  Memory cells are named by access path; a store to a
field kills every other cell that may be the same field of another object.
"""
import re
from . import ir
from .build import AnalysisBroken

TOP = None
LIMIT = 16
CAP = 60000


def width(ty):
    if ty.startswith("i") and ty[1:].isdigit():
        return int(ty[1:])
    return 64


def wrap(v, w):
    v &= (1 << w) - 1
    if w > 1 and v >= (1 << (w - 1)):
        v -= 1 << w
    return v


def uns(v, w):
    return v & ((1 << w) - 1)


PREDS = {
    "eq": lambda a, b, w: a == b, "ne": lambda a, b, w: a != b,
    "slt": lambda a, b, w: a < b, "sle": lambda a, b, w: a <= b,
    "sgt": lambda a, b, w: a > b, "sge": lambda a, b, w: a >= b,
    "ult": lambda a, b, w: uns(a, w) < uns(b, w), "ule": lambda a, b, w: uns(a, w) <= uns(b, w),
    "ugt": lambda a, b, w: uns(a, w) > uns(b, w), "uge": lambda a, b, w: uns(a, w) >= uns(b, w),
}


def elem_type(t):
    if not t:
        return None
    a = re.match(r"std::(?:vector|deque|array|basic_string)<(.*)>$", t)
    if not a:
        return None
    d = 0
    s = a.group(1)
    for k, c in enumerate(s):
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif c == "," and d == 0:
            return s[:k]
    return s


class Paths(object):
    """Access-path names for pointers of one function."""

    def __init__(self, fn):
        self.fn = fn
        self.memo = {}

    def cell(self, o, ty):
        """Access path of the scalar of type `ty` accessed through pointer o.

        Zero-offset member accesses leave no trace in the IR, so the path is
        extended by first members while its static type is a record.
        """
        k = self.key(o)
        n = 0
        while k is not None and n < 6:
            n += 1
            t = self.type_of(k)
            st = self.fn.mod.struct_by_di(t) if t else None
            if st is None:
                a = t and re.match(r"(.*)\[\d+\]$", t)
                if a:
                    k = ("x", k, 0)
                    continue
                break
            name, d = st
            if ("struct." in ty or "class." in ty) and ty.strip('%"') == name:
                break
            fs = d["fields"]
            if not fs or not fs[0][0]:
                break
            k = ("f", k, name, fs[0][0])
        return k

    def type_of(self, k):
        """DI type name of the object named by path k, or None."""
        m = self.fn.mod
        if k[0] == "a":
            # the argument itself is a pointer: path ("a", n) names its target
            dt = self.fn.ditypes
            n = k[1]
            sret = bool(self.fn.args) and self.fn.args[0][0] == "agg.result"
            if sret:
                n -= 1
                if n < 0:
                    return dt[0] if dt else None
            if n + 1 < len(dt):
                t = dt[n + 1]
                if t.endswith(("*", "&")):
                    t = t[:-1]
                    return t[6:] if t.startswith("const ") else t
                return t    # by-value aggregate passed by reference
            return None
        if k[0] == "d":
            return self.ptr_type(k[1])
        if k[0] == "f":
            if k[2] == "unique_ptr" or k[2] == "container":
                return None
            st = m.structs.get(k[2])
            if st:
                for nm, ty, off, line in st.get("members", []):
                    if nm == k[3]:
                        return ty
            return None
        if k[0] == "x":
            b = k[1]
            if b[0] == "d" and b[1][0] == "f" and b[1][2] == "container":
                t = self.type_of(b[1][1])
                return elem_type(t)
            t = self.type_of(b)
            if t is None:
                return None
            a = re.match(r"(.*?)\[\d+\](.*)$", t)
            if a:
                return a.group(1) + a.group(2)
            return t
        if k[0] == "l":
            t = self.fn.inst[k[1]].d.get("aty", "")
            a = re.match(r'%"?(?:struct|class)\.(.*?)"?$', t)
            return a.group(1) if a else None
        if k[0] == "g":
            g = m.globals.get(k[1])
            return g.get("ditype") if g else None
        return None

    def ptr_type(self, k):
        """DI type of what the pointer stored at cell k points to."""
        if k[0] == "f" and k[2] == "unique_ptr":
            t = self.type_of(k[1])
            a = t and re.match(r"std::unique_ptr<(.*?)(,.*)?>$", t)
            return a.group(1) if a else None
        t = self.type_of(k)
        if t and t.endswith(("*", "&")):
            t = t[:-1]
            return t[6:] if t.startswith("const ") else t
        return None

    def key(self, o):
        """Canonical access path of pointer operand o (tuple), or None."""
        if o[0] == "i":
            k = self.memo.get(o[1])
            if k is None:
                self.memo[o[1]] = ("v", o[1])     # cycle guard
                k = self._inst(self.fn.inst[o[1]])
                self.memo[o[1]] = k
            return k
        if o[0] == "a":
            return ("a", o[1])
        if o[0] == "g":
            return ("g", o[1])
        if o[0] == "ce" and o[1] == "getelementptr":
            base = self.key(o[2][0])
            return self._gep(base, o[3]["path"])
        return ("o", repr(o)[:60])

    def _gep(self, base, path):
        for p in path:
            if p[0] == "p":
                if p[1][0] == "c" and p[1][1] == 0:
                    continue
                base = ("x", base, self._idx(p[1]))
            elif p[0] == "f":
                base = ("f", base, p[1], p[3] or str(p[2]))
            elif p[0] == "x":
                base = ("x", base, self._idx(p[2]))
            else:
                base = ("x", base, "?")
        return base

    def _idx(self, o):
        if o[0] == "c":
            return o[1]
        if o[0] == "i":
            return ("i", o[1])
        if o[0] == "a":
            return ("a", o[1])
        return "?"

    def _inst(self, i):
        if i.op == "getelementptr":
            return self._gep(self.key(i.ops[0]), i.d["path"])
        if i.op == "alloca":
            return ("l", i.id)
        if i.op == "load":
            return ("d", self.key(i.ops[0]))
        if i.op in ("bitcast", "freeze", "addrspacecast"):
            return self.key(i.ops[0])
        if i.op == "call":
            # smart pointer accessors: treat *p / p.get() as a load through p
            d = i.cdem or ""
            if i.ops and ("unique_ptr<" in d) and ("::operator->" in d or "::get()" in d or "::operator*" in d):
                return ("d", ("f", self.key(i.ops[0]), "unique_ptr", "ptr"))
            if i.ops and ("::operator[]" in d) and len(i.ops) == 2:
                return ("x", ("d", ("f", self.key(i.ops[0]), "container", "data")), self._idx(i.ops[1]))
            return ("v", i.id)
        return ("v", i.id)


def field_of(k):
    """Last (struct, field) of a cell name, for type-based aliasing."""
    if k is None:
        return None
    if k[0] == "f":
        return (k[2], k[3])
    if k[0] == "x":
        return field_of(k[1])
    return k[0]


def local_root(k):
    while k[0] in ("f", "x"):
        k = k[1]
    return k if k[0] == "l" else None


class ModSets(object):
    """Transitive sets of (struct, field) each defined function may store to."""

    def __init__(self, mod):
        self.mod = mod
        cg = mod.call_graph()
        own = {}
        for f in mod.functions.values():
            s = set()
            if not f.decl:
                p = Paths(f)
                for i in f.insts():
                    if i.op == "store":
                        s.add(field_of(p.cell(i.ops[1], i.d.get("vty", ""))))
            own[f.name] = s
        self.m = {}
        for n in cg:
            seen = set()
            st = [n]
            r = set()
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                r |= own.get(x, set())
                st.extend(cg.get(x, ()))
            self.m[n] = r

    def of(self, name):
        return self.m.get(name)


class _Entry(object):
    def __init__(self, bb):
        self.bb = bb
        self.idx = -1


class Explorer(object):
    def __init__(self, fn, mods=None, follow=None):
        self.fn = fn
        self.paths = Paths(fn)
        self.mods = mods
        self.follow = follow    # call inst -> return value set or TOP

    # environment: dict id->frozenset ; memory: dict key->frozenset
    def val(self, o, env):
        if o[0] == "c":
            return frozenset([o[1]])
        if o[0] == "n" or o[0] == "z":
            return frozenset([0])
        if o[0] == "i":
            return env.get(o[1], TOP)
        if o[0] == "a":
            return env.get(("a", o[1]), TOP)
        if o[0] in ("g", "F"):
            return TOP
        return TOP

    def step(self, i, env, mem):
        op = i.op
        r = TOP
        if op == "icmp":
            a, b = self.val(i.ops[0], env), self.val(i.ops[1], env)
            if a is not TOP and b is not TOP:
                w = 64
                for o in i.ops:
                    if o[0] == "c":
                        w = o[2]
                    elif o[0] == "i":
                        w = width(self.fn.inst[o[1]].ty)
                r = frozenset(int(PREDS[i.d["pred"]](x, y, w)) for x in a for y in b)
        elif op in ("zext", "sext", "trunc", "freeze", "bitcast"):
            a = self.val(i.ops[0], env)
            if a is not TOP:
                if op == "zext":
                    v = self.fn.val(i.ops[0])
                    w = width(v.ty) if v is not None else 64
                    r = frozenset(uns(x, w) for x in a)
                elif op == "trunc":
                    r = frozenset(wrap(x, width(i.ty)) for x in a)
                else:
                    r = a
        elif op in ("and", "or", "xor"):
            a, b = self.val(i.ops[0], env), self.val(i.ops[1], env)
            if a is not TOP and b is not TOP:
                f = {"and": lambda x, y: x & y, "or": lambda x, y: x | y, "xor": lambda x, y: x ^ y}[op]
                r = frozenset(f(x, y) for x in a for y in b)
            elif width(i.ty) == 1:
                for q in (a, b):
                    if q == frozenset([0]) and op == "and":
                        r = frozenset([0])
                    if q == frozenset([1]) and op == "or":
                        r = frozenset([1])
        elif op == "select":
            c = self.val(i.ops[0], env)
            a, b = self.val(i.ops[1], env), self.val(i.ops[2], env)
            if c == frozenset([1]):
                r = a
            elif c == frozenset([0]):
                r = b
            elif a is not TOP and b is not TOP:
                r = a | b
        elif op == "load":
            r = mem.get(self.paths.cell(i.ops[0], i.ty), TOP)
        elif op == "store":
            k = self.paths.cell(i.ops[1], i.d.get("vty", ""))
            v = self.val(i.ops[0], env)
            self.kill(mem, k)
            if v is not TOP:
                mem[k] = v
            return
        elif op in ("call", "invoke"):
            c = i.callee
            if c is None or not c.startswith("llvm."):
                ms = self.mods.of(c) if (self.mods and c) else None
                for k in list(mem):
                    lr = local_root(k)
                    if ms is None:
                        if lr is not None and not self.escapes(lr):
                            continue
                        del mem[k]
                    elif field_of(k) in ms or (field_of(k) in ("l", "a", "d", "v") and lr is None):
                        del mem[k]
                    elif lr is not None and k[0] == "l" and self.passed(i, lr):
                        del mem[k]
            if self.follow:
                r = self.follow(i)
        if r is not TOP and len(r) > LIMIT:
            r = TOP
        if r is TOP:
            env.pop(i.id, None)
        else:
            env[i.id] = r

    def passed(self, call, root):
        for o in call.ops:
            k = self.paths.key(o) if o[0] in ("i", "a", "ce") else None
            if k is not None and local_root(k) == root:
                return True
        return self.escapes(root)

    def escapes(self, root):
        """Does the address of local `root` flow anywhere but load/store/gep?"""
        if not hasattr(self, "_esc"):
            self._esc = {}
        if root in self._esc:
            return self._esc[root]
        seen = set()
        st = [root[1]]
        esc = False
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            for u in self.fn.uses.get(x, []):
                if u.op == "load":
                    continue
                if u.op == "store":
                    if u.ops[0] == ["i", x]:
                        esc = True
                    continue
                if u.op == "getelementptr":
                    st.append(u.id)
                    continue
                if u.op in ("call", "invoke") and (u.callee or "").startswith("llvm."):
                    continue
                if u.op == "icmp":
                    continue
                esc = True
        self._esc[root] = esc
        return esc

    def kill(self, mem, k):
        f = field_of(k)
        lr = local_root(k)
        for q in list(mem):
            if self.clash(q, k, f, lr):
                del mem[q]

    def clash(self, q, k, f, lr):
        """May a store to cell k (field f, local root lr) change cell q?"""
        if q == k:
            return True
        lq = local_root(q)
        if lr is not None and lq is not None and lr != lq:
            return False
        if lr is not None and lq is None and not self.escapes(lr):
            return False
        if lq is not None and lr is None and not self.escapes(lq):
            return False
        fq = field_of(q)
        if fq == f or f in ("v", "o", "d", "a") and lq is None:
            if f != fq and fq not in ("v", "o", "d", "a"):
                return False
            return True
        return False

    def refine(self, cond, truth, env, mem):
        """Narrow env with the fact cond == truth; returns False if infeasible."""
        cv = self.val(cond, env)
        if cv is not TOP:
            if (1 if truth else 0) not in cv:
                return False
        i = self.fn.val(cond)
        if i is None:
            return True
        env[i.id] = frozenset([1 if truth else 0])
        if i.op == "icmp":
            p = i.d["pred"]
            for x, y in ((0, 1), (1, 0)):
                a, b = self.val(i.ops[x], env), self.val(i.ops[y], env)
                v = self.fn.val(i.ops[x])
                if v is None and i.ops[x][0] != "a":
                    continue
                kid = v.id if v is not None else ("a", i.ops[x][1])
                w = width(v.ty) if v is not None else 64
                if a is not TOP and b is not TOP:
                    def rel(s, t):
                        q = PREDS[p](s, t, w) if x == 0 else PREDS[p](t, s, w)
                        return q == truth
                    na = frozenset(s for s in a if any(rel(s, t) for t in b))
                    if not na:
                        return False
                    env[kid] = na
                    self._back(v, na, env, mem)
                elif a is TOP and b is not TOP and len(b) == 1:
                    if (p == "eq") == truth and p in ("eq", "ne"):
                        env[kid] = b
                        self._back(v, b, env, mem)
        elif i.op == "xor" and width(i.ty) == 1 and i.ops[1][0] == "c":
            return self.refine(i.ops[0], truth != bool(i.ops[1][1]), env, mem)
        elif i.op == "and" and width(i.ty) == 1 and truth:
            return all(self.refine(o, True, env, mem) for o in i.ops)
        elif i.op == "or" and width(i.ty) == 1 and not truth:
            return all(self.refine(o, False, env, mem) for o in i.ops)
        elif i.op == "trunc" and width(i.ty) == 1:
            a = self.val(i.ops[0], env)
            if a is not TOP:
                na = frozenset(x for x in a if (x & 1) == int(truth))
                if not na:
                    return False
                v = self.fn.val(i.ops[0])
                if v is not None:
                    env[v.id] = na
                    self._back(v, na, env, mem)
        return True

    def _back(self, v, s, env, mem):
        """Propagate a narrowing to the sources of casts and loaded cells."""
        n = 0
        while v is not None and n < 8:
            n += 1
            if v.op == "load":
                k = self.paths.cell(v.ops[0], v.ty)
                if k in mem and s <= mem[k]:
                    mem[k] = s
                elif k not in mem:
                    mem[k] = s
                return
            if v.op in ("zext", "freeze"):
                u = self.fn.val(v.ops[0])
                if u is None:
                    return
                w = width(u.ty)
                s = frozenset(wrap(x, w) if w > 1 else x for x in s)
                env[u.id] = s
                v = u
                continue
            return

    def explore(self, start, env, mem, on_inst=None, bad=None, cap=CAP):
        """Explores from after instruction `start`.

        on_inst(inst, env, mem) may return "stop" to abandon the path.
        Returns list of (return inst, value set or TOP, path blocks).
        """
        results = []
        seen = set()
        if start is None:
            start = _Entry(self.fn.blocks[0])
        work = [(start.bb.id, start.idx + 1, None, dict(env), dict(mem), (start.bb.id,))]
        steps = 0
        while work:
            b, k, prev, e, m, trail = work.pop()
            steps += 1
            if steps > cap:
                results.append((None, TOP, trail))
                return results
            blk = self.fn.blocks[b]
            if k == 0 and prev is not None:
                # phis
                newv = {}
                for i in blk.insts:
                    if i.op != "phi":
                        break
                    v = TOP
                    for o, ib in zip(i.ops, i.d["inb"]):
                        if ib == prev:
                            v = self.val(o, e)
                            break
                    newv[i.id] = v
                for x, v in newv.items():
                    if v is TOP:
                        e.pop(x, None)
                    else:
                        e[x] = v
                sig = (b, frozenset(e.items()), frozenset(m.items()))
                if sig in seen:
                    continue
                seen.add(sig)
            dead = False
            for i in blk.insts[k:]:
                if i.op == "phi":
                    continue
                if on_inst:
                    r = on_inst(i, e, m)
                    if r == "stop":
                        dead = True
                        break
                self.step(i, e, m)
                if i.d.get("noreturn"):
                    dead = True
                    break
            if dead:
                continue
            t = blk.term
            if t.op == "ret":
                results.append((t, self.val(t.ops[0], e) if t.ops else frozenset([0]), trail))
                if bad and bad(results[-1][1]):
                    return results
                continue
            if t.op in ("unreachable", "resume"):
                continue
            for s, ne, nm in self.branch(t, e, m):
                work.append((s, 0, b, ne, nm, trail + (s,)))
        return results

    def branch(self, t, e, m):
        out = []
        if t.op == "br":
            if len(t.ops) == 1:
                out.append((t.bb.succs[0], e, m))
            else:
                # LLVM stores (cond, false, true)
                for truth, o in ((True, t.ops[2]), (False, t.ops[1])):
                    ne, nm = dict(e), dict(m)
                    if self.refine(t.ops[0], truth, ne, nm):
                        out.append((o[1], ne, nm))
        elif t.op == "switch":
            v = self.val(t.ops[0], e)
            vi = self.fn.val(t.ops[0])
            cases = t.d["cases"]
            vals = set(c for c, _ in cases)
            for c, s in cases:
                if v is not TOP and c not in v:
                    continue
                ne, nm = dict(e), dict(m)
                if vi is not None:
                    ne[vi.id] = frozenset([c])
                    self._back(vi, frozenset([c]), ne, nm)
                out.append((s, ne, nm))
            if v is TOP or not v <= vals:
                ne, nm = dict(e), dict(m)
                if v is not TOP and vi is not None:
                    ne[vi.id] = frozenset(v - vals)
                out.append((t.d["default"], ne, nm))
        elif t.op == "invoke":
            out.append((t.d["normal"], e, m))
        else:
            for s in t.bb.succs:
                out.append((s, dict(e), dict(m)))
        return out
