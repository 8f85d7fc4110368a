"""Assume/exclude dataflow: which results can a step return under a premise?

A path-sensitive forward analysis over value sets (bsa/vs.py).  A premise says
what is known about the values of named fields, results of named calls, sizes
of named containers, or about the difference of two of them; the analysis
answers which return values (or which constructs) remain reachable.
"""
import re
from . import absx, vs
from .absx import width, field_of, local_root
from .build import AnalysisBroken

TOP = None
VISITS = 24
STEPCAP = 40000
PROJECT = 40    # visits of a block after which unimportant facts are dropped


def last(n):
    return n.split("::")[-1]


class Premise(object):
    def __init__(self):
        self.fields = []    # (struct, field, idx|None, vset)
        self.bits = []      # (struct, field, zeros, ones)
        self.rels = []      # (atomA, atomB, vset of A - B)
        self.calls = []     # (matcher, vset)
        self.stored = []    # (struct, field, vset): calls whose result is stored there
        self.args = {}      # formal argument number -> vset
        self.locals = []    # (IR array type, vset): elements of local arrays

    def field(self, s, f, v, idx=None):
        self.fields.append((s, f, idx, v))
        return self

    def bit(self, s, f, zeros=0, ones=0):
        self.bits.append((s, f, zeros, ones))
        return self

    def rel(self, a, b, v):
        self.rels.append((a, b, v))
        return self

    def call(self, name, v, recv=None):
        self.calls.append((lambda i, fx: call_is(i, name, recv, fx), v))
        return self

    def pcall(self, pred, v):
        self.calls.append((pred, v))
        return self

    def size(self, recv, v):
        """Number of elements of the container stored in field `recv`."""
        self.calls.append((lambda i, fx: call_is(i, "size", recv, fx), v))
        e = TOP
        if not vs.has(v, 0):
            e = vs.of(0)
        elif vs.single(v) == 0:
            e = vs.of(1)
        if e is not TOP:
            self.calls.append((lambda i, fx: call_is(i, "empty", recv, fx), e))
        return self

    def store_of(self, s, f, v):
        self.stored.append((s, f, v))
        return self

    def arg(self, n, v):
        self.args[n] = v
        return self

    def local(self, aty, v):
        """Elements of local arrays of IR type `aty`."""
        self.locals.append((aty, v))
        return self


def recv_field(i, paths):
    """Last field name of the receiver object of a member call."""
    if not i.ops:
        return None
    k = paths.key(i.ops[0])
    while k is not None and k[0] in ("x",):
        k = k[1]
    if k is not None and k[0] == "f":
        return k[3]
    if k is not None and k[0] == "d" and k[1][0] == "f":
        return k[1][3]
    return None


def call_is(i, name, recv, fx):
    if i.op not in ("call", "invoke") or not i.callee:
        return False
    g = fx.fn.mod.functions.get(i.callee)
    q = g.qual if g else i.callee
    if not (q == name or q.endswith("::" + name)):
        return False
    if recv is None:
        return True
    return recv_field(i, fx.paths) == recv


CONTAINER = re.compile(r"^_ZNK?(St6vectorI[hstjmil]|Sa|9__gnu_cxx17__normal_iter)")
TAKER = re.compile(r"^_ZNSt.*(push_back|emplace_back|insert|assign|resize)")


def taker(i):
    """A container operation that copies its arguments."""
    return i.op in ("call", "invoke") and bool(TAKER.match(i.callee or ""))


def prem_field(k):
    """(struct, field) a premise can name: a member, or the container member
    an element is taken from."""
    f = field_of(k)
    if isinstance(f, tuple):
        return f
    while k is not None and k[0] == "x":
        k = k[1]
    if k is not None and k[0] == "d" and k[1][0] == "f" and k[1][2] == "container" and k[1][1][0] == "f":
        return (k[1][1][2], k[1][1][3])
    # element behind a pointer member ("*name") or a pointer argument
    if k is not None and k[0] == "d" and k[1][0] == "f":
        return (k[1][2], "*" + k[1][3])
    if k is not None and k[0] == "a":
        return ("arg", str(k[1]))
    return None


def smatch(full, want):
    return full == want or full.endswith("::" + want)


class Scen(absx.Explorer):
    visits, project = VISITS, PROJECT
    ptrphi = False
    ptrnum = False          # track pointers to bytes as numbers (offsets)

    def __init__(self, fn, mods=None, premise=None):
        absx.Explorer.__init__(self, fn, mods)
        self.pr = premise or Premise()
        self._live()
        self.loaded = set()
        for i in fn.insts():
            if i.op == "load":
                self.loaded.add(field_of(self.paths.cell(i.ops[0], i.ty)))
        self.wstore = {}
        self._symc = {}
        self._lc = {}
        self._ee = {}
        self._cp = {}
        self._stored_calls()
        self._induction()
        self.hits = set()       # premise hits: instruction ids where used
        self._imp = None
        self.keepcells = set()  # cells never dropped by projection
        self.keepfields = set()

    # ---- static preparation
    def _live(self):
        fn = self.fn
        use = {}
        define = {}
        live = {}
        for b in fn.blocks:
            u, d = set(), set()
            for i in b.insts:
                if i.op != "phi":
                    for o in i.ops:
                        self._refs(o, u, d)
                    if i.op in ("call", "invoke"):
                        self._refs(i.d["callee"], u, d)
                d.add(i.id)
            use[b.id], define[b.id] = u, d
            live[b.id] = set(u)
        phiuse = {}
        for b in fn.blocks:
            for i in b.insts:
                if i.op != "phi":
                    break
                for o, ib in zip(i.ops, i.d["inb"]):
                    if o[0] == "i":
                        phiuse.setdefault(ib, set()).add(o[1])
        ch = True
        while ch:
            ch = False
            for b in reversed(fn.blocks):
                out = set(phiuse.get(b.id, ()))
                for s in b.succs:
                    out |= live[s]
                n = use[b.id] | (out - define[b.id])
                if not n <= live[b.id]:
                    live[b.id] |= n
                    ch = True
        for b in fn.blocks:
            for i in b.insts:
                if i.op != "phi":
                    break
                live[b.id].add(i.id)
        self.livein = live

    def _refs(self, o, u, d):
        if not o:
            return
        if o[0] == "i":
            if o[1] not in d:
                u.add(o[1])
        elif o[0] == "ce":
            for x in o[2]:
                self._refs(x, u, d)

    def _induction(self):
        self.ind = set()
        fn = self.fn
        for b in fn.blocks:
            for i in b.insts:
                if i.op != "phi":
                    break
                for o in i.ops:
                    v = fn.val(o)
                    n = 0
                    while v is not None and n < 6:
                        n += 1
                        if v.op in ("add", "sub", "mul", "shl", "or", "lshr", "udiv", "xor"):
                            self.ind.add(i.id)
                            break
                        if v.op in ("zext", "sext", "trunc"):
                            v = fn.val(v.ops[0])
                            continue
                        break

    def _stored_calls(self):
        """Call results (through casts and +const) stored to premised fields."""
        self.scall = {}
        if not self.pr.stored:
            return
        fn = self.fn
        for i in fn.insts():
            if i.op != "store":
                continue
            k = self.paths.cell(i.ops[1], i.d.get("vty", ""))
            f = field_of(k)
            if not isinstance(f, tuple):
                continue
            for s, fld, v in self.pr.stored:
                if smatch(f[0], s) and f[1] == fld:
                    self.scall[i.id] = v

    def _important(self):
        """Values that flow into the result, and cells that carry them."""
        fn = self.fn
        vals, cells = set(), set()
        work = []
        for b in fn.blocks:
            if b.term.op == "ret" and b.term.ops:
                work.append(b.term.ops[0])
        stores = {}
        for i in fn.insts():
            if i.op == "store":
                k = self.paths.cell(i.ops[1], i.d.get("vty", ""))
                stores.setdefault(k, []).append(i)
        while work:
            o = work.pop()
            v = fn.val(o)
            if v is None or v.id in vals:
                continue
            vals.add(v.id)
            if v.op in ("phi", "zext", "sext", "trunc", "freeze", "xor"):
                work.extend(v.ops)
            elif v.op == "select":
                work.extend(v.ops)
            elif v.op == "icmp":
                work.extend(v.ops)
            elif v.op in ("and", "or") and width(v.ty) == 1:
                work.extend(v.ops)
            elif v.op == "load":
                k = self.paths.cell(v.ops[0], v.ty)
                if k is not None and k not in cells:
                    cells.add(k)
                    for st in stores.get(k, ()):
                        work.append(st.ops[0])
        self._imp = (vals, cells)
        return self._imp

    def _project(self, e, m):
        vals, cells = self._imp
        ks = self.keepcells
        return ({x: v for x, v in e.items() if (x in vals if isinstance(x, int) else x[0] != "ld")},
                {k: v for k, v in m.items() if k in cells or k in ks or field_of(k) in self.keepfields})

    # ---- symbolic atoms
    def atom(self, i):
        if i.op == "load":
            k = self.paths.cell(i.ops[0], i.ty)
            f = prem_field(k)
            if isinstance(f, tuple):
                idx = None
                if k[0] == "x" and isinstance(k[2], int):
                    idx = k[2]
                return ("F", last(f[0]), f[1], idx)
        if i.op in ("call", "invoke") and i.callee:
            g = self.fn.mod.functions.get(i.callee)
            q = last(g.qual) if g else i.callee
            r = recv_field(i, self.paths) if i.ops and i.ops[0][0] in ("i", "a", "ce") else None
            return ("C", q, r)
        return None

    def sym(self, o, env=None, depth=0):
        """Linear form {atom: coefficient}, constant; None if not linear."""
        if o[0] == "c":
            return {}, o[1]
        v = self.fn.val(o)
        if v is None or depth > 8:
            return None
        if env is not None:
            c = vs.single(env.get(v.id, TOP)) if env.get(v.id, TOP) is not TOP else None
            if c is not None:
                return {}, c
        r = None
        if v.op in ("zext", "sext", "trunc", "freeze"):
            r = self.sym(v.ops[0], env, depth + 1)
        elif v.op in ("add", "sub"):
            a, b = self.sym(v.ops[0], env, depth + 1), self.sym(v.ops[1], env, depth + 1)
            if a and b:
                s = 1 if v.op == "add" else -1
                d = dict(a[0])
                for k, c in b[0].items():
                    d[k] = d.get(k, 0) + s * c
                r = ({k: c for k, c in d.items() if c}, a[1] + s * b[1])
        elif v.op == "getelementptr" and v.d.get("sty") == "i8" and len(v.ops) == 2:
            a, b = self.sym(v.ops[0], env, depth + 1), self.sym(v.ops[1], env, depth + 1)
            if a and b:
                d = dict(a[0])
                for k, c in b[0].items():
                    d[k] = d.get(k, 0) + c
                r = ({k: c for k, c in d.items() if c}, a[1] + b[1])
        else:
            if v.id in self._symc:
                return self._symc[v.id]
            a = self.atom(v)
            if a is not None:
                r = ({a: 1}, 0)
            self._symc[v.id] = r
        return r

    def amatch(self, want, a):
        # want: ("F", struct, field) or ("C", callee, recv|None)
        if want[0] != a[0]:
            return False
        if want[0] == "F":
            return want[1] in (None, a[1]) and want[2] == a[2] and (len(want) < 4 or want[3] == a[3])
        return want[1] == a[1] and (len(want) < 3 or want[2] is None or want[2] == a[2])

    def reldiff(self, x, y, env=None):
        """Value set of x - y if a relational premise decides it."""
        if not self.pr.rels:
            return TOP
        a, b = self.sym(x, env), self.sym(y, env)
        if not a or not b:
            return TOP
        d = dict(a[0])
        for k, c in b[0].items():
            d[k] = d.get(k, 0) - c
        d = {k: c for k, c in d.items() if c}
        c0 = a[1] - b[1]
        if len(d) != 2:
            return TOP
        for A, B, V in self.pr.rels:
            pos = [k for k, c in d.items() if c == 1]
            neg = [k for k, c in d.items() if c == -1]
            if len(pos) != 1 or len(neg) != 1:
                continue
            if self.amatch(A, pos[0]) and self.amatch(B, neg[0]):
                return vs.norm([(l + c0, h + c0) for l, h in V])
            if self.amatch(B, pos[0]) and self.amatch(A, neg[0]):
                return vs.norm([(-h + c0, -l + c0) for l, h in V])
        return TOP

    # ---- values
    def ow(self, o):
        if o[0] == "c":
            return o[2]
        v = self.fn.val(o)
        if v is not None:
            return width(v.ty)
        if o[0] == "a" and o[1] < len(self.fn.args):
            return width(self.fn.args[o[1]][1])
        return 64

    def val(self, o, env):
        if o[0] == "c":
            c = o[1]
            if o[2] == 1:
                c &= 1
            return vs.of(c)
        if o[0] in ("n", "z"):
            return vs.of(0)
        if o[0] == "i":
            return env.get(o[1], TOP)
        if o[0] == "a":
            return env.get(("a", o[1]), TOP)
        if o[0] in ("g", "F"):
            return TOP
        return TOP

    def fieldprem(self, k):
        f = prem_field(k)
        if not isinstance(f, tuple):
            return TOP
        idx = k[2] if k[0] == "x" and isinstance(k[2], int) else None
        for s, fld, ix, v in self.pr.fields:
            if fld == f[1] and smatch(f[0], s) and (ix is None or ix == idx):
                return v
        return TOP

    def localprem(self, k):
        lr = local_root(k) if k is not None else None
        if lr is None:
            return TOP
        a = self.fn.inst[lr[1]]
        for aty, v in self.pr.locals:
            if a.d.get("aty") == aty:
                return v
        return TOP

    def globload(self, i, env):
        o = i.ops[0]
        k = self.paths.key(o)
        if not (k and k[0] == "x" and k[1][0] == "g"):
            return TOP
        g = self.fn.mod.globals.get(k[1][1])
        if not g or not g.get("init") or not g.get("const"):
            return TOP
        if len(g.get("shape") or []) != 1:
            return TOP
        ini = g["init"]
        w = width(i.ty)
        if isinstance(k[2], int):
            idx = [k[2]]
        elif isinstance(k[2], tuple) and k[2][0] == "i":
            e = env.get(k[2][1], TOP)
            idx = vs.enum(e) if e is not TOP else range(len(ini))
            if idx is None:
                idx = range(len(ini))
        else:
            idx = range(len(ini))
        vals = [ini[x] for x in idx if 0 <= x < len(ini)]
        if not vals or not all(isinstance(x, int) for x in vals):
            return TOP
        return vs.wrap([(x, x) for x in vals], w)

    def step(self, i, env, mem):
        op = i.op
        r = TOP
        if op == "icmp":
            a, b = self.val(i.ops[0], env), self.val(i.ops[1], env)
            w = max(self.ow(i.ops[0]), self.ow(i.ops[1]))
            r = vs.cmp(i.d["pred"], a, b, w)
            if r is TOP:
                d = self.reldiff(i.ops[0], i.ops[1], env)
                if d is not TOP:
                    p = i.d["pred"]
                    p = p if p in ("eq", "ne") else "s" + p[1:]
                    r = vs.cmp(p, d, vs.of(0), 64)
                    self.hits.add(i.id)
        elif op in ("zext", "sext", "trunc", "freeze", "bitcast"):
            w0 = self.ow(i.ops[0])
            r = vs.cast(op, self.val(i.ops[0], env), w0, width(i.ty)) if i.ty[0] == "i" else TOP
        elif op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr",
                    "udiv", "sdiv", "urem", "srem"):
            a, b = self.val(i.ops[0], env), self.val(i.ops[1], env)
            r = vs.binop(op, a, b, width(i.ty))
            if op == "sub" and (r is TOP or vs.card(r) > vs.ENUM):
                d = self.reldiff(i.ops[0], i.ops[1], env)
                if d is not TOP:
                    r = d if r is TOP else vs.inter(r, d)
                    self.hits.add(i.id)
            if op == "and" and self.pr.bits:
                q = self.bitand(i, env)
                if q is not TOP:
                    r = q
        elif op == "select":
            c = self.val(i.ops[0], env)
            a, b = self.val(i.ops[1], env), self.val(i.ops[2], env)
            s = vs.single(c)
            if i.ty == "ptr" and s is not None:
                self.through(i, i.ops[1] if s else i.ops[2], env, mem)
            if s is not None:
                r = a if s else b
            else:
                r = vs.union(a, b)
        elif op == "getelementptr" and self.ptrnum:
            r = self.offset(i, env)
        elif op == "load":
            k = self.paths.cell(i.ops[0], i.ty)
            r = self.localprem(k) if self.pr.locals else TOP
            if r is not TOP:
                self.hits.add(i.id)
            elif k in mem:
                r = mem[k]
            else:
                r = self.fieldprem(k)
                if r is not TOP:
                    self.hits.add(i.id)
                else:
                    r = self.globload(i, env)
            env[("ld", i.id)] = vs.of(1)
        elif op == "store":
            k = self.paths.cell(i.ops[1], i.d.get("vty", ""))
            fk, lk = field_of(k), local_root(k)
            for x in [x for x in env if isinstance(x, tuple) and x[0] == "ld"]:
                if self.clash(self.lcell(x[1]), k, fk, lk):
                    del env[x]
            v = self.val(i.ops[0], env)
            if i.id in self.scall and i.ops[0][0] != "c":
                v = vs.inter(self.scall[i.id], v)
                self.hits.add(i.id)
                env[("hit", 0)] = vs.of(1)
                if not v:
                    env[("dead", 0)] = vs.of(1)
                    return
                src = self.fn.val(i.ops[0])
                if src is not None:
                    env[src.id] = v
            self.kill(mem, k)
            if v is not TOP:
                sv = self.fn.val(i.ops[0])
                if sv is not None and sv.op in ("add", "sub", "or", "shl"):
                    n = self.wstore.setdefault(i.id, set())
                    n.add(v)
                    if len(n) > self.visits:
                        v = TOP
            if v is not TOP and field_of(k) in self.loaded and not (self.pr.locals and self.localprem(k) is not TOP):
                mem[k] = v
            return
        elif op in ("call", "invoke"):
            c = i.callee
            if c is None or not c.startswith("llvm."):
                ms = self.mods.of(c) if (self.mods and c) else None
                for k in list(mem):
                    if self.callclash(i, ms, k):
                        del mem[k]
                for x in [x for x in env if isinstance(x, tuple) and x[0] == "ld"]:
                    if self.callclash(i, ms, self.lcell(x[1])):
                        del env[x]
            for match, v in self.pr.calls:
                if match(i, self):
                    r = v
                    self.hits.add(i.id)
                    break
            if r is TOP and self.follow:
                r = self.follow(i)
            if r is TOP and c and c.startswith("llvm."):
                r = self.intrinsic(c, i, env)
        if r is TOP or i.ty[:1] != "i" and not (i.ty == "ptr" and r is not TOP):
            env.pop(i.id, None)
        else:
            env[i.id] = r

    def through(self, i, o, env, mem):
        """A choice between references (std::min): what is loaded through it."""
        for u in self.fn.uses.get(i.id, ()):
            if u.op == "load" and u.ty[0] == "i":
                k = self.paths.cell(u.ops[0], u.ty)
                if k is None or k[0] != "v":
                    continue
                c = self.paths.cell(o, u.ty)
                v = mem.get(c, TOP) if c is not None else TOP
                if v is TOP:
                    v = self.fieldprem(c)
                if v is TOP:
                    mem.pop(k, None)
                else:
                    mem[k] = v

    def offset(self, i, env):
        b = self.val(i.ops[0], env)
        if b is TOP:
            return TOP
        if all(o[0] == "c" and o[1] == 0 for o in i.ops[1:]):
            return b
        z = {"i8": 1, "i16": 2, "i32": 4, "i64": 8}.get(i.d.get("sty"))
        if z and len(i.ops) == 2:
            x = self.val(i.ops[1], env)
            x = vs.binop("mul", x, vs.of(z), 64) if z > 1 and x is not TOP else x
            return vs.binop("add", b, x, 64)
        return TOP

    def lcell(self, n):
        k = self._lc.get(n)
        if k is None:
            i = self.fn.inst[n]
            k = self._lc[n] = self.paths.cell(i.ops[0], i.ty)
        return k

    def callclash(self, i, ms, k):
        """May the call change cell k?"""
        lr = local_root(k)
        if lr is None:
            return ms is None or field_of(k) in ms or field_of(k) in ("l", "a", "d", "v")
        if self.operand(i, lr):
            if taker(i):
                r = self.paths.key(i.ops[0])
                return r is None or local_root(r) == lr
        elif not self.escapes(lr):
            return False
        if k[0] == "l" and CONTAINER.match(i.callee or "") and not self.operand(i, lr):
            return False     # containers of plain data touch only themselves
        if ms is None:
            return True
        if k[0] == "l":
            # a scalar: only through a plain pointer
            return self.operand(i, lr) or bool(ms & {"a", "d", "v", "x", None})
        return field_of(k) in ms

    def operand(self, i, lr):
        for o in i.ops:
            k = self.paths.key(o) if o[0] in ("i", "a", "ce") else None
            if k is not None and local_root(k) == lr:
                return True
        return False

    def escapes(self, lr):
        """Does local lr escape other than as an argument of a taker?"""
        if lr in self._ee:
            return self._ee[lr]
        r = False
        st, seen = [lr[1]], set()
        while st and not r:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            for u in self.fn.uses.get(x, []):
                if u.op == "load" or u.op == "store" and u.ops[0] != ["i", x]:
                    continue
                if u.op in ("getelementptr",):
                    st.append(u.id)
                elif u.op in ("call", "invoke") and (taker(u) or (u.callee or "").startswith("llvm.")):
                    continue
                else:
                    r = True
        self._ee[lr] = r
        return r

    def intrinsic(self, c, i, env):
        if c.startswith("llvm.expect"):
            return self.val(i.ops[0], env)
        m = re.match(r"llvm\.(umin|umax|smin|smax|ctlz|abs)\.i(\d+)", c)
        if not m:
            return TOP
        w = int(m.group(2))
        a = self.val(i.ops[0], env)
        if m.group(1) == "ctlz":
            if a is TOP:
                return vs.rng(0, w)
            r = []
            for l, h in vs.uns(a, w):
                r.append((w - h.bit_length(), w - l.bit_length()))
            return vs.norm(r)
        if m.group(1) == "abs":
            if a is TOP:
                return TOP
            return vs.norm([(0 if l <= 0 <= h else min(abs(l), abs(h)), max(abs(l), abs(h))) for l, h in a])
        b = self.val(i.ops[1], env)
        if a is TOP or b is TOP or vs.lo(a) < 0 or vs.lo(b) < 0:
            return TOP
        f = min if m.group(1).endswith("min") else max
        return vs.rng(f(vs.lo(a), vs.lo(b)), f(vs.hi(a), vs.hi(b)))

    def bitand(self, i, env):
        for x, y in ((0, 1), (1, 0)):
            v = self.fn.val(i.ops[x])
            while v is not None and v.op in ("zext", "sext", "trunc", "freeze"):
                v = self.fn.val(v.ops[0])
            if v is None or v.op != "load":
                continue
            a = self.atom(v)
            if a is None:
                continue
            for s, f, zeros, ones in self.pr.bits:
                if a[2] == f and (s is None or last(s) == a[1]):
                    ms = self.val(i.ops[y], env)
                    me = vs.enum(ms) if ms is not TOP else None
                    if me is None:
                        continue
                    out = []
                    w = width(i.ty)
                    ok = True
                    for m in me:
                        m &= (1 << w) - 1
                        known1 = m & ones
                        unk = m & ~(zeros | ones)
                        n = bin(unk).count("1")
                        if n > 4:
                            ok = False
                            break
                        sub = unk
                        while True:
                            out.append(known1 | sub)
                            if sub == 0:
                                break
                            sub = (sub - 1) & unk
                    if ok:
                        self.hits.add(i.id)
                        return vs.wrap([(x_, x_) for x_ in out], w)
        return TOP

    def refine(self, cond, truth, env, mem):
        cv = self.val(cond, env)
        t = 1 if truth else 0
        if cv is not TOP and not (vs.has(cv, t) or (truth and vs.has(cv, -1))):
            return False
        i = self.fn.val(cond)
        if i is None:
            return True
        env[i.id] = vs.of(t)
        if i.op == "icmp":
            p = i.d["pred"] if truth else vs.NEG[i.d["pred"]]
            w = max(self.ow(i.ops[0]), self.ow(i.ops[1]))
            for x, y in ((0, 1), (1, 0)):
                q = p if x == 0 else vs.SWAP[p]
                v = self.fn.val(i.ops[x])
                if v is None and i.ops[x][0] != "a":
                    continue
                kid = v.id if v is not None else ("a", i.ops[x][1])
                if v is not None and v.ty[0] != "i":
                    continue
                a, b = self.val(i.ops[x], env), self.val(i.ops[y], env)
                if b is TOP:
                    continue
                na = vs.keep(q, a, b, w)
                if not na:
                    return False
                if a is TOP and na == vs.full(w):
                    continue
                env[kid] = na
                if not self._back(v, na, env, mem):
                    return False
        elif i.op == "xor" and width(i.ty) == 1 and i.ops[1][0] == "c":
            return self.refine(i.ops[0], truth != bool(i.ops[1][1]), env, mem)
        elif i.op == "and" and width(i.ty) == 1 and truth:
            return all(self.refine(o, True, env, mem) for o in i.ops)
        elif i.op == "or" and width(i.ty) == 1 and not truth:
            return all(self.refine(o, False, env, mem) for o in i.ops)
        elif i.op == "trunc" and width(i.ty) == 1:
            a = self.val(i.ops[0], env)
            e = vs.enum(a) if a is not TOP else None
            if e is not None:
                na = vs.of(*[x for x in e if (x & 1) == t])
                if not na:
                    return False
                v = self.fn.val(i.ops[0])
                if v is not None:
                    env[v.id] = na
                    return self._back(v, na, env, mem)
        return True

    def _back(self, v, s, env, mem):
        n = 0
        while v is not None and n < 8:
            n += 1
            if v.op == "call" and (v.callee or "").startswith("llvm.abs.") and v.ops[0][0] != "c":
                s = vs.norm([x for l, h in s if h >= 0 for x in ((max(l, 0), h), (-h, -max(l, 0)))])
                u = self.fn.val(v.ops[0])
                kid = u.id if u is not None else ("a", v.ops[0][1])
                s = vs.inter(s, env.get(kid, TOP))
                if not s:
                    return False
                env[kid] = s
                v = u
                continue
            if v.op == "load":
                k = self.paths.cell(v.ops[0], v.ty)
                if field_of(k) in self.loaded and ("ld", v.id) in env:
                    o = mem.get(k, TOP)
                    mem[k] = vs.inter(s, o)
                    return bool(mem[k])
                return True
            u = self.fn.val(v.ops[0]) if v.ops else None
            if u is None:
                return True
            if v.op in ("and", "or", "xor", "lshr", "shl", "mul", "urem", "udiv", "ashr") and v.ops[1][0] == "c":
                o = env.get(u.id, TOP)
                e = vs.enum(o) if o is not TOP else None
                if e is None:
                    return True
                w = width(v.ty)
                c = vs.of(v.ops[1][1])
                s = vs.of(*[x for x in e if vs.meets(vs.binop(v.op, vs.of(x), c, w), s)])
                if not s:
                    return False
                env[u.id] = s
                v = u
                continue
            if v.op in ("zext", "freeze"):
                w = width(u.ty)
                s = vs.wrap(s, w) if w > 1 else vs.norm([(l & 1, h & 1) for l, h in s])
            elif v.op == "sext":
                if width(u.ty) == 1:
                    return True
            elif v.op == "add" and v.ops[1][0] == "c":
                s = vs.wrap([(l - v.ops[1][1], h - v.ops[1][1]) for l, h in s], width(v.ty))
            elif v.op == "sub" and v.ops[1][0] == "c":
                s = vs.wrap([(l + v.ops[1][1], h + v.ops[1][1]) for l, h in s], width(v.ty))
            else:
                return True
            o = env.get(u.id, TOP)
            s = vs.inter(s, o)
            if not s:
                return False
            env[u.id] = s
            v = u
        return True

    # ---- exploration
    def run(self, env=None, mem=None, start=None, on_inst=None, stop=None, entry=None, cap=None, after=None):
        """Returns [(ret inst, value set, trail)] of reachable returns.

        on_inst(inst, env, mem) -> "stop" abandons the path, "hit" records it.
        """
        results = []
        self.capped = False
        seen = {}
        visits = {}
        self.phiseen = {}
        self.marks = []          # the results recorded by "hit"
        if self._imp is None:
            self._important()
        self.keepcells = set(mem or ())
        e0 = dict(env or {})
        if self.pr.stored:
            e0[("hit", 0)] = vs.of(0)
        for n, v in self.pr.args.items():
            e0[("a", n)] = v
        if start is None:
            b0, k0 = (entry if entry is not None else 0), 0
        else:
            b0, k0 = start.bb.id, start.idx + 1
        work = [(b0, k0, None, e0, dict(mem or {}), None)]
        steps = 0
        while work:
            b, k, prev, e, m, trail = work.pop()
            steps += 1
            if steps > (cap or STEPCAP):
                self.capped = True
                results.append((None, TOP, self._trail(trail)))
                return results
            blk = self.fn.blocks[b]
            if k == 0 and prev is not None:
                newv = {}
                vis = visits.get(b, 0)
                for i in blk.insts:
                    if i.op != "phi":
                        break
                    v = TOP
                    for o, ib in zip(i.ops, i.d["inb"]):
                        if ib == prev:
                            v = self.val(o, e)
                            if i.ty == "ptr":
                                self.through(i, o, e, m)
                            break
                    if i.id in self.ind and v is not TOP:
                        hl = self.phiseen.get(i.id)
                        if hl is None:
                            hl = v
                        elif vis <= self.visits:
                            hl = vs.union(hl, v)
                        if vis > self.visits:
                            # widen to a hull; a bound that moves is dropped
                            fl = vs.full(width(i.ty))
                            lo, hi = vs.lo(hl), vs.hi(hl)
                            if vs.lo(v) < lo:
                                lo = vs.lo(fl)
                            if vs.hi(v) > hi:
                                hi = vs.hi(fl)
                            v = hl = vs.rng(lo, hi)
                        self.phiseen[i.id] = hl
                    newv[i.id] = v
                for x, v in newv.items():
                    if v is TOP or self.fn.inst[x].ty[0] != "i" and not ((self.ptrphi or self.ptrnum) and self.fn.inst[x].ty == "ptr"):
                        e.pop(x, None)
                    else:
                        e[x] = v
                live = self.livein[b]
                e = {x: v for x, v in e.items() if (x in live if isinstance(x, int) else x[0] != "ld" or x[1] in live)}
                if vis > self.project:
                    e, m = self._project(e, m)
                sig = (frozenset(e.items()), frozenset(m.items()))
                ss = seen.setdefault(b, {})
                if sig in ss:
                    continue
                # subsumption: a state already explored that knows less
                if len(ss) < 200 and any(self._covers(p, e, m) for p in ss.values()):
                    continue
                ss[sig] = (dict(e), dict(m))
                visits[b] = vis + 1
            trail = (b, trail)
            dead = False
            for i in blk.insts[k:]:
                if i.op == "phi":
                    continue
                if on_inst:
                    r = on_inst(i, e, m)
                    if r == "stop":
                        dead = True
                        break
                    if r == "hit":
                        results.append((i, TOP, self._trail(trail)))
                        self.marks.append(results[-1])
                        if stop and stop(results[-1]):
                            return results
                self.step(i, e, m)
                if after:
                    after(i, e, m)
                if i.d.get("noreturn") or ("dead", 0) in e:
                    dead = True
                    break
            if dead:
                continue
            t = blk.term
            if t.op == "ret":
                if e.get(("hit", 0)) == vs.of(0):
                    continue     # the premised store did not happen
                v = self.val(t.ops[0], e) if t.ops else vs.of(0)
                results.append((t, v, self._trail(trail)))
                if stop and stop(results[-1]):
                    return results
                continue
            if t.op in ("unreachable", "resume"):
                continue
            for s, ne, nm in self.branch(t, e, m):
                work.append((s, 0, b, ne, nm, trail))
        return results

    def _covers(self, p, e, m):
        pe, pm = p
        for x, v in pe.items():
            if not vs.subset(e.get(x, TOP), v):
                return False
        for x, v in pm.items():
            if not vs.subset(m[x] if x in m else self.cellprem(x), v):
                return False
        if self.pr.fields:
            # a cell not in memory has its premised value, if any
            for x, v in m.items():
                if x not in pm:
                    q = self.cellprem(x)
                    if q is not TOP and not vs.subset(v, q):
                        return False
        return True

    def cellprem(self, k):
        r = self._cp.get(k, 0)
        if r == 0:
            r = self._cp[k] = self.fieldprem(k)
        return r

    def _trail(self, t):
        r = []
        while t is not None:
            r.append(t[0])
            t = t[1]
        return tuple(reversed(r))

    def branch(self, t, e, m):
        out = []
        if t.op == "br":
            if len(t.ops) == 1:
                out.append((t.bb.succs[0], e, m))
            else:
                for truth, o in ((True, t.ops[2]), (False, t.ops[1])):
                    ne, nm = dict(e), dict(m)
                    if self.refine(t.ops[0], truth, ne, nm):
                        out.append((o[1], ne, nm))
        elif t.op == "switch":
            v = self.val(t.ops[0], e)
            vi = self.fn.val(t.ops[0])
            cases = t.d["cases"]
            rest = v
            w = self.ow(t.ops[0])
            for c, s in cases:
                if not vs.has(v, c):
                    continue
                if rest is not TOP:
                    rest = vs.minus(rest, c)
                ne, nm = dict(e), dict(m)
                if vi is not None:
                    ne[vi.id] = vs.of(c)
                    if not self._back(vi, vs.of(c), ne, nm):
                        continue
                out.append((s, ne, nm))
            if rest is TOP or rest:
                ne, nm = dict(e), dict(m)
                ok = True
                if rest is not TOP and vi is not None:
                    ne[vi.id] = rest
                    ok = self._back(vi, rest, ne, nm)
                if ok:
                    out.append((t.d["default"], ne, nm))
        elif t.op == "invoke":
            out.append((t.d["normal"], e, m))
        else:
            for s in t.bb.succs:
                out.append((s, dict(e), dict(m)))
        return out
