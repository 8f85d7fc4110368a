"""Object model over the JSON produced by tool/irdump."""
import json
import re
from collections import defaultdict
from . import build
from .build import AnalysisBroken


class Inst(object):
    __slots__ = ("d", "id", "op", "ops", "bb", "fn", "ty", "nm", "idx")

    def __init__(self, d, bb, fn, idx):
        self.d = d
        self.id = d["id"]
        self.op = d["op"]
        self.ops = d.get("ops", [])
        self.ty = d.get("ty", "void")
        self.nm = d.get("nm", "")
        self.bb = bb
        self.fn = fn
        self.idx = idx

    @property
    def callee(self):
        """Mangled name of a directly called function, or None."""
        if self.op not in ("call", "invoke"):
            return None
        c = self.d["callee"]
        if c[0] == "F":
            return c[1]
        return None

    @property
    def cdem(self):
        c = self.callee
        return self.fn.mod.dem(c) if c else None

    @property
    def loc(self):
        """(file, line) of the innermost source location."""
        l = self.d.get("loc")
        if not l:
            return ("?", 0)
        return (self.fn.mod.files[l[0]], l[1])

    @property
    def loc_chain(self):
        l = self.d.get("loc") or []
        return [(self.fn.mod.files[l[i]], l[i + 1]) for i in range(0, len(l), 2)]

    def where(self):
        ch = self.loc_chain
        if not ch:
            return "%s:?" % self.fn.short
        # prefer an in-repo frame
        for f, n in ch:
            if f.startswith(build.REPO + "/"):
                return "%s:%d" % (f[len(build.REPO) + 1:], n)
        return "%s:%d" % ch[0]

    def __repr__(self):
        return "<%s %%%d %s>" % (self.op, self.id, self.where())


class Block(object):
    __slots__ = ("d", "id", "fn", "insts", "preds", "succs", "name")

    def __init__(self, d, i, fn):
        self.d = d
        self.id = i
        self.fn = fn
        self.name = d["name"]
        self.preds = sorted(set(d["preds"]))
        s = []
        for x in d["succs"]:
            if x not in s:
                s.append(x)
        self.succs = s
        self.insts = [Inst(x, self, fn, k) for k, x in enumerate(d["insts"])]

    @property
    def term(self):
        return self.insts[-1]


def strip_balanced(s, a, b):
    out = []
    d = 0
    k = 0
    while k < len(s):
        c = s[k]
        if c == a and s[k:k + 2] != a + b and not s.startswith("operator" + c, k - 8 if k >= 8 else 0):
            d += 1
        elif c == b and d > 0:
            d -= 1
        elif d == 0:
            out.append(c)
        k += 1
    return "".join(out)


def qual_name(dem):
    """Qualified name without parameters, template arguments, return type."""
    s = dem.replace("(anonymous namespace)::", "")
    s = re.sub(r" \(\.\d+\)$", "", s)
    for suf in (" const", " &", " &&"):
        if s.endswith(suf):
            s = s[:-len(suf)]
    if s.endswith(")"):
        d = 0
        for k in range(len(s) - 1, -1, -1):
            if s[k] == ")":
                d += 1
            elif s[k] == "(":
                d -= 1
                if d == 0:
                    s = s[:k]
                    break
    s = s.replace("operator()", "operator@@").replace("operator<<", "operator@l").replace("operator<", "operator@<")
    s = strip_balanced(s, "<", ">")
    s = strip_balanced(s, "(", ")")
    s = s.replace("operator@@", "operator()")
    if " " in s and "operator" not in s:
        s = s.split(" ")[-1]
    return s


class Function(object):
    def __init__(self, d, mod):
        self.d = d
        self.mod = mod
        self.name = d["name"]
        self.dem = d["dem"]
        self.decl = d["decl"]
        self.repo = d["repo"]
        self.args = d.get("args", [])
        self.ditypes = d.get("ditypes", [])
        self._blocks = None
        self._uses = None
        self._inst = None
        self._idom = None
        self._reach = None
        self._qual = None

    @property
    def short(self):
        s = self.dem
        s = re.sub(r"\(anonymous namespace\)::", "", s)
        k = s.find("(")
        return s[:k] if k > 0 else s

    @property
    def qual(self):
        if self._qual is None:
            self._qual = qual_name(self.dem)
        return self._qual

    @property
    def file(self):
        return self.d.get("file", "")

    @property
    def blocks(self):
        if self._blocks is None:
            self._blocks = [Block(b, i, self) for i, b in enumerate(self.d.get("blocks", []))]
        return self._blocks

    @property
    def inst(self):
        if self._inst is None:
            self._inst = {}
            for b in self.blocks:
                for i in b.insts:
                    self._inst[i.id] = i
        return self._inst

    def insts(self):
        for b in self.blocks:
            for i in b.insts:
                yield i

    @property
    def uses(self):
        if self._uses is None:
            u = defaultdict(list)
            ua = defaultdict(list)

            def walk(o, i):
                if not o:
                    return
                if o[0] == "i":
                    u[o[1]].append(i)
                elif o[0] == "a":
                    ua[o[1]].append(i)
                elif o[0] == "ce":
                    for x in o[2]:
                        walk(x, i)
            for i in self.insts():
                for o in i.ops:
                    walk(o, i)
                if i.op in ("call", "invoke"):
                    walk(i.d["callee"], i)
            self._uses = u
            self._auses = ua
        return self._uses

    @property
    def arg_uses(self):
        self.uses
        return self._auses

    def val(self, o):
        """The defining instruction of operand o, or None."""
        if o and o[0] == "i":
            return self.inst[o[1]]
        return None

    @property
    def reach(self):
        """Set of block ids reachable from entry."""
        if self._reach is None:
            seen = set()
            st = [0]
            while st:
                b = st.pop()
                if b in seen:
                    continue
                seen.add(b)
                st.extend(self.blocks[b].succs)
            self._reach = seen
        return self._reach

    def rpo(self):
        seen = set()
        order = []
        stack = [(0, iter(self.blocks[0].succs))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            adv = False
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.blocks[s].succs)))
                    adv = True
                    break
            if not adv:
                order.append(b)
                stack.pop()
        order.reverse()
        return order

    @property
    def idom(self):
        if self._idom is None:
            rpo = self.rpo()
            num = {b: i for i, b in enumerate(rpo)}
            idom = {0: 0}
            changed = True
            while changed:
                changed = False
                for b in rpo[1:]:
                    new = None
                    for p in self.blocks[b].preds:
                        if p in idom:
                            if new is None:
                                new = p
                            else:
                                x, y = p, new
                                while x != y:
                                    while num[x] > num[y]:
                                        x = idom[x]
                                    while num[y] > num[x]:
                                        y = idom[y]
                                new = x
                    if idom.get(b) != new:
                        idom[b] = new
                        changed = True
            self._idom = idom
        return self._idom

    def dominates(self, a, b):
        idom = self.idom
        if b not in idom:
            return True
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]


class Module(object):
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.files = d["files"]
        self.structs = d["structs"]
        self.enums = d["enums"]
        self.records = d.get("records", {})
        self.globals = {g["name"]: g for g in d["globals"]}
        self._sdi = None
        self.functions = {}
        for f in d["functions"]:
            self.functions[f["name"]] = Function(f, self)

    def dem(self, n):
        f = self.functions.get(n)
        return f.dem if f else n

    def struct_by_di(self, t):
        """(llvm name, struct) for a DI type name, or None."""
        if self._sdi is None:
            self._sdi = {}
            for k, v in self.structs.items():
                if k.endswith(".base"):
                    continue
                n = v.get("di") or k.split(".", 1)[-1]
                if "brunsli" in k:
                    self._sdi.setdefault(n, (k, v))
        if t.startswith("const "):
            t = t[6:]
        return self._sdi.get(t)

    def repo_fns(self):
        return [f for f in self.functions.values() if f.repo and not f.decl]

    def find(self, qual, required=True):
        """Functions whose demangled name without parameters ends in `qual`."""
        res = []
        for f in self.functions.values():
            s = f.qual
            if s == qual or s.endswith("::" + qual):
                res.append(f)
        if required and not [f for f in res if not f.decl]:
            raise AnalysisBroken("anchor function %s not found" % qual)
        return [f for f in res if not f.decl]

    def one(self, qual):
        r = self.find(qual)
        if len(r) != 1:
            raise AnalysisBroken("anchor %s is ambiguous: %s" % (qual, [f.dem for f in r]))
        return r[0]

    def enum(self, name):
        for k, v in self.enums.items():
            if k == name or k.endswith("::" + name):
                return v["vals"]
        raise AnalysisBroken("enum %s not found" % name)

    def call_graph(self):
        """name -> set of callee names (direct calls + address-taken refs)."""
        cg = {}
        for f in self.functions.values():
            s = set()
            if not f.decl:
                for i in f.insts():
                    if i.op in ("call", "invoke"):
                        c = i.callee
                        if c:
                            s.add(c)
                    for o in i.ops:
                        _frefs(o, s)
            cg[f.name] = s
        return cg


def _frefs(o, s):
    if not o:
        return
    if o[0] == "F":
        s.add(o[1])
    elif o[0] == "ce":
        for x in o[2]:
            _frefs(x, s)


_cache = {}


def load(unit, keep=(), inline=True, passes=None):
    k = (unit, tuple(keep), inline, passes)
    if k not in _cache:
        _cache[k] = Module(build.module_json(unit, keep, inline, passes))
    return _cache[k]
