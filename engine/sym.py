"""Symbolic values, states and the structured symbolic executor (VC generator) for the extracted C++.

Values are immutable trees: z3 leaves, Rec (struct), Seq (vector/deque/list/queue/stack), MapV (map/set).
A container's element tree is the element type's tree with every leaf lifted to an SMT array.
"""
import z3, itertools, time
from prog import *

I = z3.IntVal
TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


class Rec:
    __slots__ = ("name", "f")

    def __init__(self, name, f): self.name, self.f = name, f


class Seq:
    __slots__ = ("lo", "len", "elem")

    def __init__(self, lo, len, elem): self.lo, self.len, self.elem = lo, len, elem


class MapV:
    """dom: Array(K,Bool) ; vals: tree lifted by K or None (set); kty: key Ty"""
    __slots__ = ("dom", "vals", "kty", "size")

    def __init__(self, dom, vals, kty, size): self.dom, self.vals, self.kty, self.size = dom, vals, kty, size


class Opq:
    __slots__ = ("tag",)

    def __init__(self, tag=""): self.tag = tag


class PtrTo:
    __slots__ = ("path",)

    def __init__(self, path): self.path = path


class It:
    """iterator: container path, position (index term for Seq, (key, atend) for maps)"""
    __slots__ = ("path", "pos", "kind", "end")

    def __init__(self, path, pos, kind, end=None): self.path, self.pos, self.kind, self.end = path, pos, kind, end


class Lam:
    __slots__ = ("node", "frame", "caps")

    def __init__(self, node, frame, caps): self.node, self.frame, self.caps = node, frame, caps


class FnPtr:
    __slots__ = ("f",)

    def __init__(self, f): self.f = f


class LV:
    __slots__ = ("path",)

    def __init__(self, path): self.path = path


class Path:
    __slots__ = ("root", "steps")

    def __init__(self, root, steps=()): self.root, self.steps = root, tuple(steps)

    def __truediv__(self, s): return Path(self.root, self.steps + (s,))

    def fld(self, n): return self / ("f", n)

    def same(self, o):
        if self.root != o.root or len(self.steps) != len(o.steps): return False
        for a, b in zip(self.steps, o.steps):
            if a[0] != b[0]: return False
            for x, y in zip(a[1:], b[1:]):
                if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
                    if not x.eq(y): return False
                elif isinstance(x, z3.ExprRef) or isinstance(y, z3.ExprRef): return False
                elif x != y: return False
        return True

    def __repr__(self): return self.root + "".join(".%s" % (s[1],) if s[0] == "f" else "[%s]" % (s[1],) for s in self.steps)


def isz(x): return isinstance(x, z3.ExprRef)


def isnum(x): return z3.is_int_value(x) or z3.is_bv_value(x) or z3.is_true(x) or z3.is_false(x) or z3.is_rational_value(x)


def mapl(v, f):
    if isz(v): return f(v)
    if isinstance(v, Rec): return Rec(v.name, {k: mapl(x, f) for k, x in v.f.items()})
    if isinstance(v, Seq): return Seq(f(v.lo), f(v.len), mapl(v.elem, f))
    if isinstance(v, MapV): return MapV(f(v.dom), mapl(v.vals, f) if v.vals is not None else None, v.kty, f(v.size))
    if isinstance(v, Opq) or v is None: return v
    return v


def zipl(a, b, f):
    if isz(a) or isz(b):
        if not (isz(a) and isz(b)): raise Unsupported("value shape mismatch %r / %r" % (a, b))
        return f(a, b)
    if isinstance(a, Rec) and isinstance(b, Rec):
        ks = list(a.f.keys())
        for k in b.f:
            if k not in a.f: raise Unsupported("record mismatch %s/%s on %s" % (a.name, b.name, k))
        return Rec(a.name, {k: (zipl(a.f[k], b.f[k], f) if k in b.f else a.f[k]) for k in ks})
    if isinstance(a, Seq) and isinstance(b, Seq): return Seq(f(a.lo, b.lo), f(a.len, b.len), zipl(a.elem, b.elem, f))
    if isinstance(a, MapV) and isinstance(b, MapV):
        return MapV(f(a.dom, b.dom), zipl(a.vals, b.vals, f) if a.vals is not None else None, a.kty, f(a.size, b.size))
    if isinstance(a, Opq): return a
    if isinstance(a, PtrTo) and isinstance(b, PtrTo) and a.path.same(b.path): return a
    if isinstance(a, It) and isinstance(b, It) and a.kind == b.kind and a.path.same(b.path):
        if a.kind == "map": return It(a.path, f(a.pos, b.pos), a.kind, f(a.end, b.end))
        return It(a.path, f(a.pos, b.pos), a.kind, None)
    if a is b: return a
    raise Unmergeable("%s/%s" % (type(a).__name__, type(b).__name__))


class Unmergeable(Unsupported):
    pass


def leaves(v, p=""):
    if isz(v): yield p, v
    elif isinstance(v, Rec):
        for k, x in v.f.items(): yield from leaves(x, p + "." + k)
    elif isinstance(v, Seq):
        yield p + ".#lo", v.lo
        yield p + ".#len", v.len
        yield from leaves(v.elem, p + "[]")
    elif isinstance(v, MapV):
        yield p + ".#dom", v.dom
        yield p + ".#size", v.size
        if v.vals is not None: yield from leaves(v.vals, p + "[]")
    elif isinstance(v, It):
        yield p + ".#pos", v.pos
        if v.end is not None: yield p + ".#end", v.end


def rsel(a, i):
    """select with read-over-write on syntactically decided indices"""
    while True:
        d = a.decl().kind() if z3.is_app(a) else None
        if d == z3.Z3_OP_STORE:
            j = a.arg(1)
            if j.eq(i): return a.arg(2)
            if isnum(i) and isnum(j): a = a.arg(0); continue
            # i = x + c1, j = x + c2
            if distinct_off(i, j): a = a.arg(0); continue
            break
        if d == z3.Z3_OP_CONST_ARRAY: return a.arg(0)
        break
    return z3.Select(a, i)


def splitoff(x):
    if z3.is_int_value(x): return None, x.as_long()
    if z3.is_add(x) and x.num_args() == 2:
        if z3.is_int_value(x.arg(1)): return x.arg(0), x.arg(1).as_long()
        if z3.is_int_value(x.arg(0)): return x.arg(1), x.arg(0).as_long()
    return x, 0


def distinct_off(i, j):
    if i.sort() != z3.IntSort() or j.sort() != z3.IntSort(): return False
    a, c = splitoff(i)
    b, d = splitoff(j)
    if a is None and b is None: return c != d
    if a is None or b is None: return False
    return a.eq(b) and c != d


def add(a, b):
    if z3.is_int_value(a) and a.as_long() == 0: return b
    if z3.is_int_value(b) and b.as_long() == 0: return a
    if z3.is_int_value(a) and z3.is_int_value(b): return I(a.as_long() + b.as_long())
    if z3.is_int_value(a): a, b = b, a
    if z3.is_int_value(b):
        x, c = splitoff(a)
        if x is not None and c != 0:
            t = c + b.as_long()
            return x + I(t) if t != 0 else x
    return a + b


def sub(a, b):
    if z3.is_int_value(b): return add(a, I(-b.as_long()))
    if a.eq(b): return I(0)
    return a - b


def sel(v, i): return mapl(v, lambda a: rsel(a, i))


def zeroof(s): return z3.K(s.domain(), zeroof(s.range())) if isinstance(s, z3.ArraySortRef) else I(0)


def sto1(a, i, x):
    x = coerce(x, a.sort().range())
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_CONST_ARRAY and a.arg(0).eq(x): return a
    return z3.Store(a, i, x)


def sto(v, i, w): return zipl(v, w, lambda a, x: sto1(a, i, x))


def coerce(x, s):
    if x.sort() == s: return x
    if s == z3.RealSort() and x.sort() == z3.IntSort(): return z3.ToReal(x)
    if s == z3.IntSort():
        if z3.is_bool(x): return b2i(x)
        if z3.is_bv(x): return bv2i(x)
    if s == z3.BoolSort(): return truth(x)
    if isinstance(s, z3.BitVecSortRef): return tobv(x, s.size())
    raise Unsupported("cannot coerce %s to %s" % (x.sort(), s))


def b2i(b):
    if z3.is_true(b): return I(1)
    if z3.is_false(b): return I(0)
    return z3.If(b, I(1), I(0))


def bv2i(x):
    if z3.is_bv_value(x): return I(x.as_long())
    if z3.is_app_of(x, z3.Z3_OP_ITE):  # conversions are pushed to the leaves, so that equal values convert to equal terms
        k = x.get_id()
        if k not in _bv2i:
            if len(_bv2i) > 20000: _bv2i.clear()
            _bv2i[k] = (x, z3.If(x.arg(0), bv2i(x.arg(1)), bv2i(x.arg(2))))
        return _bv2i[k][1]
    return z3.BV2Int(x)


_bv2i = {}


def lowmask(y):
    """k where y is 2^k - 1 (possibly behind an integer conversion)"""
    if z3.is_app_of(y, z3.Z3_OP_ITE): return lowmask(y.arg(1))
    if z3.is_app_of(y, z3.Z3_OP_MOD): return lowmask(y.arg(0))
    if z3.is_app_of(y, z3.Z3_OP_ADD) and y.num_args() == 2 and z3.is_int_value(y.arg(0)) and y.arg(0).as_long() == -1: p = y.arg(1)
    elif z3.is_app_of(y, z3.Z3_OP_ADD) and y.num_args() == 2 and z3.is_int_value(y.arg(1)) and y.arg(1).as_long() == -1: p = y.arg(0)
    elif z3.is_app_of(y, z3.Z3_OP_SUB) and z3.is_int_value(y.arg(1)) and y.arg(1).as_long() == 1: p = y.arg(0)
    else: return None
    if z3.is_app(p) and Engine._pow2 is not None and p.decl().eq(Engine._pow2): return p.arg(0)
    return None


def tobv(x, n, signed=False):
    if z3.is_bool(x): return z3.If(x, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
    if z3.is_bv(x):
        m = x.size()
        if m == n: return x
        if m > n: return z3.simplify(z3.Extract(n - 1, 0, x)) if z3.is_bv_value(x) else z3.Extract(n - 1, 0, x)
        if z3.is_bv_value(x) and not signed: return z3.BitVecVal(x.as_long(), n)
        return z3.SignExt(n - m, x) if signed else z3.ZeroExt(n - m, x)
    if z3.is_int_value(x): return z3.BitVecVal(x.as_long() % (1 << n), n)
    if z3.is_int(x): return z3.Int2BV(x, n)
    if z3.is_rational_value(x): return z3.BitVecVal(int(x.as_fraction()) % (1 << n), n)
    raise Unsupported("tobv %s" % x.sort())


def truth(v):
    if isinstance(v, (PtrTo, Lam, FnPtr)): return TRUE
    if not isz(v): raise Unsupported("truth of %s" % type(v).__name__)
    if z3.is_bool(v): return v
    if z3.is_int(v):
        if z3.is_int_value(v): return z3.BoolVal(v.as_long() != 0)
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(v.arg(1)) and z3.is_int_value(v.arg(2)):
            a, b = v.arg(1).as_long(), v.arg(2).as_long()
            if a == 1 and b == 0: return v.arg(0)
            if a == 0 and b == 1: return Not(v.arg(0))
        return v != 0
    if z3.is_bv(v): return v != 0
    if z3.is_real(v): return v != 0
    raise Unsupported("truth sort %s" % v.sort())


def Not(a):
    if z3.is_true(a): return FALSE
    if z3.is_false(a): return TRUE
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)


def And(*xs):
    l = []
    for x in xs:
        if isinstance(x, (list, tuple)): l += list(x)
        else: l.append(x)
    l = [x for x in l if not z3.is_true(x)]
    if any(z3.is_false(x) for x in l): return FALSE
    return TRUE if not l else l[0] if len(l) == 1 else z3.And(*l)


def Or(*xs):
    l = []
    for x in xs:
        if isinstance(x, (list, tuple)): l += list(x)
        else: l.append(x)
    l = [x for x in l if not z3.is_false(x)]
    if any(z3.is_true(x) for x in l): return TRUE
    return FALSE if not l else l[0] if len(l) == 1 else z3.Or(*l)


def Implies(a, b):
    if z3.is_true(a): return b
    if z3.is_false(a) or z3.is_true(b): return TRUE
    return z3.Implies(a, b)


def ite(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a.eq(b): return a
    if a.sort() != b.sort():
        if z3.is_bv(a) and z3.is_bv(b):
            n = max(a.size(), b.size())
            a, b = tobv(a, n), tobv(b, n)
        elif z3.is_bv(a) and z3.is_int(b) or z3.is_int(a) and z3.is_bv(b):
            n = a.size() if z3.is_bv(a) else b.size()
            x = b if z3.is_bv(a) else a
            if z3.is_int_value(x) and 0 <= x.as_long() < (1 << n): a, b = tobv(a, n), tobv(b, n)
            else: a, b = coerce(a, z3.IntSort()), coerce(b, z3.IntSort())
        elif z3.is_bool(a): b = coerce(b, z3.BoolSort()) if False else b; a = coerce(a, b.sort())
        elif z3.is_bool(b): b = coerce(b, a.sort())
        elif z3.is_real(a): b = coerce(b, z3.RealSort())
        elif z3.is_real(b): a = coerce(a, z3.RealSort())
        else: raise Unmergeable("ite sorts %s %s" % (a.sort(), b.sort()))
    if z3.is_bool(a):
        if z3.is_true(a) and z3.is_false(b): return c
        if z3.is_false(a) and z3.is_true(b): return Not(c)
    return z3.If(c, a, b)


def eqleaf(a, b):
    if a.eq(b): return TRUE
    if a.sort() != b.sort():
        if z3.is_bv(a) and z3.is_bv(b):
            n = max(a.size(), b.size())
            a, b = tobv(a, n), tobv(b, n)
        elif z3.is_bv(a) and z3.is_int_value(b):
            v = b.as_long()
            if not (-(1 << (a.size() - 1)) <= v < (1 << a.size())): return FALSE
            b = tobv(b, a.size())
        elif z3.is_bv(b) and z3.is_int_value(a): return eqleaf(b, a)
        elif z3.is_bv(a): a = bv2i(a); return eqleaf(a, b)
        elif z3.is_bv(b): b = bv2i(b); return eqleaf(a, b)
        else:
            s = z3.RealSort() if z3.is_real(a) or z3.is_real(b) else z3.IntSort()
            a, b = coerce(a, s), coerce(b, s)
    if isnum(a) and isnum(b): return z3.BoolVal(a.eq(b))
    if z3.is_bool(a):
        if z3.is_true(b): return a
        if z3.is_false(b): return Not(a)
    return a == b


def eqv(a, b):
    l = []
    def f(x, y):
        l.append(eqleaf(x, y))
        return x
    zipl(a, b, f)
    return And(l)


_cnt = itertools.count()


def fname(base): return "%s!%d" % (base, next(_cnt))


_tuplesorts = {}


def tup(sorts):
    key = tuple(str(s) for s in sorts)
    if key not in _tuplesorts:
        _tuplesorts[key] = z3.TupleSort("Tup_" + "_".join(k.replace(" ", "") for k in key), list(sorts))
    return _tuplesorts[key]


_strs = {}


def strid(s):
    if s not in _strs: _strs[s] = len(_strs) + 1
    return I(1000000 + _strs[s])


SEQ = {"std::vector", "std::deque", "std::list", "std::queue", "std::stack", "sc_core::sc_vector", "std::array"}
MULTI = "std::multimap"  # key -> sequence of its values in insertion order
MAPS = {"std::map", "std::unordered_map", "std::multimap"}
SETS = {"std::set", "std::unordered_set"}
BVS = {"sc_dt::sc_bv", "sc_dt::sc_lv", "sc_dt::sc_uint", "sc_dt::sc_biguint", "sc_dt::sc_int", "sc_dt::sc_bigint"}
SIG = {"sc_core::sc_signal", "sc_core::sc_in", "sc_core::sc_out", "sc_core::sc_inout", "sc_core::sc_buffer", "sc_core::sc_signal_t"}


class State:
    __slots__ = ("store", "pc", "known", "nextref", "heapbase")

    def __init__(self):
        self.store = {}
        self.pc = []
        self.known = set()
        self.nextref = z3.Int("next0")

    def copy(self):
        s = State.__new__(State)
        s.store = dict(self.store)
        s.pc = list(self.pc)
        s.known = set(self.known)
        s.nextref = self.nextref
        return s

    def assume(self, f, kind="a"):
        if isinstance(f, (list, tuple)):
            for x in f: self.assume(x, kind)
            return
        if z3.is_true(f): return
        if z3.is_and(f) and kind == "a":
            for c in f.children(): self.assume(c, kind)
            return
        self.pc.append((kind, f))


class Frame:
    __slots__ = ("fn", "env", "this", "tu", "cls", "names", "depth", "contract", "loopno", "retref")

    def __init__(self, fn, tu, this, depth):
        self.fn, self.tu, self.this, self.depth = fn, tu, this, depth
        self.env = {}
        self.names = {}
        self.contract = None
        self.loopno = 0
        self.retref = False


class Ob:
    __slots__ = ("label", "kind", "line", "fn", "pc", "goal", "status", "time", "backend", "model", "reason", "bounded")

    def __init__(self, label, kind, line, fn, pc, goal):
        self.label, self.kind, self.line, self.fn, self.pc, self.goal = label, kind, line, fn, pc, goal
        self.status = None
        self.time = 0
        self.backend = ""
        self.model = None
        self.reason = ""


class DeadPath(Exception):
    pass


QUO = z3.Function("quotient", z3.IntSort(), z3.IntSort(), z3.IntSort())
REM = z3.Function("remainder", z3.IntSort(), z3.IntSort(), z3.IntSort())
BACK = z3.Function("from_quotient_and_remainder", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())


def quorem_facts(quo=None, rem=None, back=None):
    """what the opaque quotient and remainder are known to satisfy; with the real ones in their place: the obligations of the lemma"""
    x, y = z3.Ints("x y")
    q, r = (quo or QUO)(x, y), (rem or REM)(x, y)
    return [("remainder", Implies(And(x >= 0, y >= 1), And(0 <= r, r < y, r <= x))), ("small numbers", Implies(And(0 <= x, x < y), And(r == x, q == 0))), ("once", Implies(And(y <= x, x < 2 * y), And(r == x - y, q == 1))),
            ("quotient", Implies(And(x >= 0, y >= 1), And(0 <= q, q <= x))), ("both determine the number", Implies(And(x >= 0, y >= 1), (back or BACK)(q, r, y) == x))]


def quorem_axioms():
    x, y = z3.Ints("x y")
    return z3.ForAll([x, y], z3.And(*[g for _, g in quorem_facts()]), patterns=[QUO(x, y)]), z3.ForAll([x, y], z3.And(*[g for _, g in quorem_facts()]), patterns=[REM(x, y)])


class Engine:
    def __init__(self, prog, bv=False, check_index=True, maxunroll=400, hooks=None):
        self.prog = prog
        self.bv = bv
        self.check_index = check_index
        self.contracts = {}       # q -> Contract
        self.models = {}          # q -> python function(eng, st, fr, node, obj LV/val, args nodes)
        self.obs = []
        self.dry = 0
        self.maxunroll = maxunroll
        self.inits = {}
        self.cur = None
        self.loopinv = None
        self.init_assume = []
        self.trusted = set()
        self.inlined = set()
        self.consts = {}
        self.abort_ok = set()     # qualified names whose call ends the path silently
        self.loops_seen = []
        self.houdini_drops = 0
        self.stats = {"unrolled": 0, "invloops": 0}
        self.noassert = False
        self.deadline = None
        self.typeinv = {}         # record name -> fn(Rec)-> list of formulas, assumed on heap reads of initial objects
        self.bounded_unroll = 0
        self.was_bounded = False
        import models
        models.install(self)

    # ---------- shapes
    def leafsort(self, ty):
        if ty.isbool: return z3.BoolSort()
        if ty.isint:
            if self.bv: return z3.BitVecSort(ty.w or 32)
            return z3.IntSort()
        if ty.isfloat: return z3.RealSort()
        if ty.k == "p": return z3.IntSort()
        return None

    def fresh(self, ty, name, lift=(), st=None):
        def leaf(s, n):
            for l in reversed(lift): s = z3.ArraySort(l, s)
            return z3.Const(fname(n), s)
        return self.shape(ty, name, lift, leaf)

    def shape(self, ty, name, lift, leaf, depth=0):
        if depth > 12: raise Unsupported("type recursion at " + name)
        if ty.k == "r": ty = ty.to
        s = self.leafsort(ty)
        if s is not None: return leaf(s, name)
        if ty.k == "arr":
            r = self.seqshape(ty.to, name, lift, leaf, depth, True)
            return r
        if ty.k == "c":
            n = ty.n
            if n in SEQ or n.startswith("std::") and n.split("<")[0] in SEQ: return self.seqshape(ty.a[0], name, lift, leaf, depth, n.split("<")[0] in ("std::vector", "std::array", "sc_core::sc_vector"))
            if n in MAPS or n in SETS:
                ks = self.keysort(ty.a[0])
                sub = lambda s, nm: leaf(z3.ArraySort(ks, s), nm)
                vals = None if n in SETS else self.seqshape(ty.a[1], name + "[]", lift, sub, depth + 1) if n == MULTI else self.shape(ty.a[1], name + "[]", lift, sub, depth + 1)
                return MapV(leaf(z3.ArraySort(ks, z3.BoolSort()), name + ".dom"), vals, ty.a[0], leaf(z3.IntSort(), name + ".size"))
            if n == "std::pair":
                return Rec("std::pair", {"first": self.shape(ty.a[0], name + ".first", lift, leaf, depth + 1), "second": self.shape(ty.a[1], name + ".second", lift, leaf, depth + 1)})
            if n == "std::tuple":
                return Rec("std::tuple", {"_%d" % i: self.shape(t, name + "._%d" % i, lift, leaf, depth + 1) for i, t in enumerate(ty.a)})
            if n == "std::basic_string": return leaf(z3.IntSort(), name)
            if n in BVS: return leaf(z3.BitVecSort(ty.a[0]), name)
            if n in SIG:
                return Rec("sig", {"cur": self.shape(ty.a[0], name + ".cur", lift, leaf, depth + 1), "nxt": self.shape(ty.a[0], name + ".nxt", lift, leaf, depth + 1)})
            if n == "std::_Bit_reference": return leaf(z3.BoolSort(), name)
            r = self.rec(ty)
            if r is not None:
                return Rec(repr(ty), {fn: self.shape(ft, name + "." + fn, lift, leaf, depth + 1) for fn, ft in self.fields(ty)})
            return Opq(repr(ty))
        return Opq(repr(ty))

    def seqshape(self, ety, name, lift, leaf, depth, fixed=False):
        sub = lambda s, nm: leaf(z3.ArraySort(z3.IntSort(), s), nm)
        lo = leaf(z3.IntSort(), name + ".lo")
        if fixed: lo = zeroof(lo.sort())  # only queues, deques and lists are ever consumed at the front
        return Seq(lo, leaf(z3.IntSort(), name + ".len"), self.shape(ety, name + "[]", lift, sub, depth + 1))

    def keysort(self, ty):
        ty = ty.strip()
        s = self.leafsort(ty)
        if s is not None: return s
        if ty.k == "c" and ty.n == "std::basic_string": return z3.IntSort()
        if ty.k == "c" and ty.n in BVS: return z3.BitVecSort(ty.a[0])
        v = self.shape(ty, "k", (), lambda s, n: z3.Const("k", s))
        return tup([x.sort() for _, x in leaves(v)])[0]

    def key(self, v, kty):
        ks = self.keysort(kty)
        if isz(v): return coerce(v, ks)
        l = [x for _, x in leaves(v)]
        srt, mk, prj = tup([x.sort() for x in l])
        return mk(*l)

    def unkey(self, k, kty, name="k"):
        """key term -> value tree"""
        if self.leafsort(kty.strip()) is not None: return k
        t = kty.strip()
        if t.k == "c" and (t.n == "std::basic_string" or t.n in BVS): return k
        v = self.shape(kty, "k", (), lambda s, n: z3.Const("k", s))
        l = [x.sort() for _, x in leaves(v)]
        srt, mk, prj = tup(l)
        it = iter(prj)
        return mapl(v, lambda x: next(it)(k))

    def rec(self, ty):
        n = repr(ty)
        r = self.prog.rec.get(n)
        if r is None:
            for k, q in self.prog.rec.items():
                if q["name"] == ty.n and not ty.a and "a" not in q: return q
                if q["name"] == ty.n and ty.a and "a" in q:
                    qa = [x["i"] if isinstance(x, dict) and "i" in x else (None if isinstance(x, dict) else repr(q["tu"].ty(x))) for x in q["a"]]
                    if qa == [x if isinstance(x, int) or x is None else repr(x) for x in ty.a]: return q
        return r

    def fields(self, ty, _seen=None):
        """flattened (name, Ty) including repo bases"""
        r = self.rec(ty)
        if r is None: return []
        out = []
        tu = r["tu"]
        for b in r["bases"]: out += self.fields(tu.ty(b))
        for f in r["fields"]:
            if f["n"] == "": continue
            out.append((f["n"], tu.ty(f["t"])))
        return out

    def isrepo(self, ty): return ty.k == "c" and self.rec(ty) is not None

    def default(self, ty, name="d", value_init=True):
        """value-initialised value"""
        if ty.k == "r": ty = ty.to
        if ty.isbool: return FALSE
        s = self.leafsort(ty)
        if s is not None:
            if s == z3.IntSort(): return I(0)
            if s == z3.RealSort(): return z3.RealVal(0)
            return z3.BitVecVal(0, s.size())
        if ty.k == "c":
            n = ty.n
            if n in SEQ:
                if n == "std::array":
                    return Seq(I(0), I(ty.a[1]), self.constarr(self.default(ty.a[0])))
                e = self.fresh(ty.a[0], name + "[]", (z3.IntSort(),))
                return Seq(I(0), I(0), e)
            if n == MULTI: raise Unsupported("empty multimap")
            if n in MAPS or n in SETS:
                ks = self.keysort(ty.a[0])
                return MapV(z3.K(ks, FALSE), self.fresh(ty.a[1], name + "[]", (ks,)) if n in MAPS else None, ty.a[0], I(0))
            if n == "std::pair": return Rec("std::pair", {"first": self.default(ty.a[0]), "second": self.default(ty.a[1])})
            if n == "std::tuple": return Rec("std::tuple", {"_%d" % i: self.default(t) for i, t in enumerate(ty.a)})
            if n == "std::basic_string": return strid("")
            if n in BVS: return z3.BitVecVal(0, ty.a[0])
            if n in SIG: return Rec("sig", {"cur": self.default(ty.a[0]), "nxt": self.default(ty.a[0])})
            if self.rec(ty) is not None:
                return Rec(repr(ty), {fn: self.default(ft, name + "." + fn) for fn, ft in self.fields(ty)})
        if ty.k == "arr":
            if ty.n is not None: return Seq(I(0), I(ty.n), self.constarr(self.default(ty.to)))
        return Opq(repr(ty))

    def constarr(self, v, ks=None): return mapl(v, lambda x: z3.K(ks or z3.IntSort(), x))

    # ---------- store
    def root(self, st, r):
        v = st.store.get(r)
        if v is not None: return v
        v = self.inits.get(r)
        if v is None:
            v = self.mkroot(r, st)
            self.inits[r] = v
        st.store[r] = v
        return v

    def mkroot(self, r, st):
        if r.startswith("heap:"):
            cls = r[5:]
            ty = self.tyof(cls)
            return self.fresh(ty, "H_" + cls, (z3.IntSort(),))
        if r.startswith("g:"):
            q = r[2:]
            if q in self.consts: return self.consts[q]
            vd = self.prog.vars.get(q)
            if vd is None: raise Unsupported("global %s" % q)
            tu = vd["tu"]
            ty = tu.ty(vd["t"])
            return self.fresh(ty, q)
        raise Unsupported("no such root " + r)

    _named = None

    def tyof(self, cls):
        if cls in self.prog.rec:
            r = self.prog.rec[cls]
            t = Ty("c", r["name"])
            if "a" in r: t.a = [x["i"] if isinstance(x, dict) and "i" in x else (None if isinstance(x, dict) else r["tu"].ty(x)) for x in r["a"]]
            return t
        if cls.startswith("raw:"): return self._raw[cls]
        raise Unsupported("class %s" % cls)

    _raw = {}

    def read(self, st, p):
        v = self.root(st, p.root)
        for s in p.steps:
            k = s[0]
            if isinstance(v, PtrTo): v = self.read(st, v.path)
            if k == "f":
                if not isinstance(v, Rec) or s[1] not in v.f: raise Unsupported("field %s of %s at %r" % (s[1], type(v).__name__ if not isinstance(v, Rec) else v.name, p))
                v = v.f[s[1]]
            elif k == "i":
                if not isinstance(v, Seq): raise Unsupported("index of %s at %r" % (type(v).__name__, p))
                v = sel(v.elem, add(v.lo, s[1]))
            elif k == "k": v = sel(v.vals, s[1])
            elif k == "h": v = sel(v, s[1])
            elif k == "b": v = z3.simplify(z3.Extract(s[1], s[2], v)) if isnum(v) else z3.Extract(s[1], s[2], v)
            else: raise Unsupported("step " + k)
        return v

    def rebase(self, st, p):
        """the place a path through an aliased reference member denotes"""
        v = self.root(st, p.root)
        for n_, s in enumerate(p.steps):
            if isinstance(v, PtrTo): return self.rebase(st, Path(v.path.root, v.path.steps + p.steps[n_:]))
            if s[0] != "f" or not isinstance(v, Rec) or s[1] not in v.f: break
            v = v.f[s[1]]
        return p

    def write(self, st, p, val):
        p = self.rebase(st, p)
        st.store[p.root] = self.upd(st, self.root(st, p.root), p.steps, val, p)

    def upd(self, st, v, steps, val, p):
        if not steps:
            if isz(v) and isz(val): return coerce(val, v.sort())
            if isinstance(v, Opq) and isz(val): return val
            if isz(v) and isinstance(val, (PtrTo, Lam, FnPtr, It)): return val
            if isinstance(v, Rec) and isinstance(val, Rec) and set(v.f) != set(val.f):
                # slicing / derived-to-base
                return Rec(v.name, {k: val.f.get(k, v.f[k]) for k in v.f})
            if isinstance(v, (Rec, Seq, MapV)) and isinstance(val, (Rec, Seq, MapV)):
                try: return zipl(v, val, lambda a, b: coerce(b, a.sort()) if a.sort() != b.sort() else b)
                except Unmergeable: return val
            return val
        s, rest = steps[0], steps[1:]
        k = s[0]
        if k == "f":
            if not isinstance(v, Rec) or s[1] not in v.f: raise Unsupported("field %s write at %r" % (s[1], p))
            f = dict(v.f)
            f[s[1]] = self.upd(st, v.f[s[1]], rest, val, p)
            return Rec(v.name, f)
        if k == "i":
            j = add(v.lo, s[1])
            old = sel(v.elem, j)
            return Seq(v.lo, v.len, sto(v.elem, j, self.upd(st, old, rest, val, p)))
        if k == "k":
            old = sel(v.vals, s[1])
            return MapV(v.dom, sto(v.vals, s[1], self.upd(st, old, rest, val, p)), v.kty, v.size)
        if k == "h":
            old = sel(v, s[1])
            return sto(v, s[1], self.upd(st, old, rest, val, p))
        if k == "b":
            hi, lo = s[1], s[2]
            n = v.size()
            w = tobv(val, hi - lo + 1)
            parts = []
            if hi < n - 1: parts.append(z3.Extract(n - 1, hi + 1, v))
            parts.append(w)
            if lo > 0: parts.append(z3.Extract(lo - 1, 0, v))
            r = parts[0] if len(parts) == 1 else z3.Concat(*parts)
            return z3.simplify(r)
        raise Unsupported("upd " + k)

    # ---------- obligations
    def oblige(self, st, goal, kind, node, label, fr=None):
        if isinstance(goal, (list, tuple)): goal = And(list(goal))
        if z3.is_true(goal): return
        if self.dry == 0:
            line = node.get("l") if isinstance(node, dict) else None
            o = Ob(label, kind, line, fr.fn["q"] if fr else (self.cur or ""), list(st.pc), goal)
            self.obs.append(o)
        st.assume(goal)

    def idx_ob(self, st, cond, node, label, fr):
        if self.check_index: self.oblige(st, cond, "index", node, label, fr)

    # ---------- merging
    def merge(self, states):
        states = [s for s in states if s is not None]
        if not states: return None
        if len(states) == 1: return states[0]
        n = min(len(s.pc) for s in states)
        k = 0
        while k < n and all(s.pc[k] is states[0].pc[k] for s in states[1:]): k += 1
        conds = []
        pcs = []
        for s in states:
            br = []
            for kind, f in s.pc[k:]:
                if kind == "b": br.append(f)
                else: pcs.append(("a", Implies(And(list(br)), f)))
            conds.append(And(br))
        m = State.__new__(State)
        m.pc = states[0].pc[:k]
        orc = Or(conds)
        triv = False
        if len(conds) == 2:
            a, b = conds
            if Not(a).eq(b) or Not(b).eq(a): triv = True
        if not triv:
            orc = z3.simplify(orc) if len(conds) <= 6 else orc
            if not z3.is_true(orc): m.pc.append(("a", orc))
        m.pc += [x for x in pcs if not z3.is_true(x[1])]
        m.known = set.intersection(*[s.known for s in states])
        roots = set(states[0].store)
        for s in states[1:]: roots |= set(s.store)
        m.store = {}
        for r in roots:
            vs = []
            miss = False
            for s in states:
                v = s.store.get(r)
                if v is None:
                    if r in self.inits: v = self.inits[r]
                    else: miss = True; break
                vs.append(v)
            if miss: continue
            acc = vs[-1]
            same = all(v is acc for v in vs)
            if not same:
                try:
                    for v, c in zip(reversed(vs[:-1]), reversed(conds[:-1])):
                        if v is acc: continue
                        acc = zipl(v, acc, lambda a, b, c=c: a if a is b else ite(c, a, b))
                except Unmergeable:
                    if r[0] == "L" or r[0] == "T":  # temporaries/locals: only a problem when read later
                        return None
                    raise
            m.store[r] = acc
        acc = states[-1].nextref
        for s, c in zip(reversed(states[:-1]), reversed(conds[:-1])): acc = acc if s.nextref.eq(acc) else ite(c, s.nextref, acc)
        m.nextref = acc
        return m

    keep_paths = 1         # up to this many paths stay apart (more obligations, each simpler)

    def merge_list(self, states):
        if len(states) <= self.keep_paths: return states
        m = self.merge(states)
        if m is None: return states
        return [m]

    # ---------- quick solver checks
    def decide(self, st, f, ms=400):
        """True if pc |= f"""
        s = z3.Solver()
        s.set("timeout", ms)
        for _, a in st.pc: s.add(a)
        s.add(Not(f))
        return s.check() == z3.unsat

    def infeasible(self, st, ms=300): return self.decide(st, FALSE, ms)

    # ---------- expression evaluation
    def rv(self, n, st, fr):
        v = self.ev(n, st, fr)
        return self.rval(v, st, n, fr)

    def rval(self, v, st, n=None, fr=None):
        if isinstance(v, LV):
            x = self.read(st, v.path)
            self.tyinv(x, st, n, fr)
            return x
        return v

    def tyinv(self, x, st, n, fr):
        """assume the range of an unsigned value / validity of a reference on read"""
        if not (isz(x) and n is not None and fr is not None and "t" in n): return
        if not z3.is_int(x) or z3.is_int_value(x): return
        ty = fr.tu.ty(n["t"]).strip()
        i = x.get_id()
        if i in st.known: return
        if ty.isint and ty.s is False:
            st.known.add(i)
            st.assume(x >= 0)
        elif ty.k == "p" and ty.to.k == "c":
            st.known.add(i)
            st.assume(z3.And(x >= 0, x < st.nextref))
        self._keep.append(x)

    _keep = []

    def lvp(self, n, st, fr):
        v = self.ev(n, st, fr)
        if isinstance(v, LV): return v.path
        # temporary
        r = "T%d" % next(_cnt)
        st.store[r] = v
        return Path(r)

    def temp(self, st, v):
        r = "T%d" % next(_cnt)
        st.store[r] = v
        return Path(r)

    def ev(self, n, st, fr):
        m = getattr(self, "e_" + n["k"], None)
        if "cv" in n and n["k"] not in ("DeclRefExpr",) or n.get("enumc"):
            if "lv" not in n: return self.const(n, fr)
        if m is None: raise Unsupported("expression %s at line %s of %s" % (n["k"], n.get("l"), fr.fn["q"]))
        return m(n, st, fr)

    def const(self, n, fr):
        ty = fr.tu.ty(n["t"])
        v = int(n["cv"])
        return self.mkint(v, ty)

    def mkint(self, v, ty):
        if ty.isbool: return z3.BoolVal(v != 0)
        if self.bv and ty.isint: return z3.BitVecVal(v % (1 << ty.w), ty.w)
        return I(v)

    def e_IntegerLiteral(self, n, st, fr): return self.mkint(int(n["v"]), fr.tu.ty(n["t"]))

    def e_CharacterLiteral(self, n, st, fr): return self.mkint(int(n["v"]), fr.tu.ty(n["t"]))

    def e_CXXBoolLiteralExpr(self, n, st, fr): return z3.BoolVal(bool(n["v"]))

    def e_FloatingLiteral(self, n, st, fr): return z3.RealVal(n["v"])

    def e_StringLiteral(self, n, st, fr): return strid(n.get("v", ""))

    def e_PredefinedExpr(self, n, st, fr): return strid("")

    def e_SourceLocExpr(self, n, st, fr): return I(0)

    def e_CXXNullPtrLiteralExpr(self, n, st, fr): return I(0)

    def e_GNUNullExpr(self, n, st, fr): return I(0)

    def e_ImplicitValueInitExpr(self, n, st, fr): return self.default(fr.tu.ty(n["t"]))

    def e_CXXScalarValueInitExpr(self, n, st, fr): return self.default(fr.tu.ty(n["t"]))

    def e_UnaryExprOrTypeTraitExpr(self, n, st, fr): raise Unsupported("sizeof")

    def e_CXXThisExpr(self, n, st, fr):
        if fr.this is None: raise Unsupported("this")
        if fr.this.steps and fr.this.steps[-1][0] == "h" and len(fr.this.steps) == 1: return fr.this.steps[-1][1]
        return PtrTo(fr.this)

    def e_DeclRefExpr(self, n, st, fr):
        if "f" in n: return FnPtr(n["f"])
        if n.get("enumc"): return self.mkint(int(n["cv"]), fr.tu.ty(n["t"]))
        if n["id"] in fr.env:
            return LV(fr.env[n["id"]])
        if "g" in n: return self.global_(n, st, fr)
        if "sl" in n: return LV(Path("g:" + n["sl"]))
        if "cv" in n: return self.const(n, fr)
        raise Unsupported("unbound %s in %s line %s" % (n["n"], fr.fn["q"], n["l"]))

    def global_(self, n, st, fr):
        q = n["g"]
        if q in self.consts and "g:" + q not in st.store: st.store["g:" + q] = self.consts[q]
        if "g:" + q not in st.store and "g:" + q not in self.inits:
            vd = self.prog.vars.get(q)
            if vd is not None and "init" in vd and vd["tu"].ty(vd["t"]).c:
                f2 = Frame({"q": q, "tu": vd["tu"]}, vd["tu"], None, 0)
                v = self.rv(vd["init"], st, f2)
                st.store["g:" + q] = v
                self.inits["g:" + q] = v
            elif vd is None:
                ty = fr.tu.ty(n["t"])
                v = self.fresh(ty, q)
                self.inits["g:" + q] = v
        return LV(Path("g:" + q))

    def deref(self, v, ty, st, n, fr):
        """pointer value -> path. ty: pointee type"""
        if isinstance(v, PtrTo): return v.path
        if isinstance(v, It): return self.itpath(v, st, n, fr)
        if isz(v):
            if ty.k == "c" and self.rec(ty) is not None: cls = repr(ty)
            else:
                cls = "raw:" + repr(ty)
                self._raw[cls] = ty
            self.oblige(st, v != 0, "null", n, "pointer dereferenced is not null", fr)
            return Path("heap:" + cls, (("h", v),))
        raise Unsupported("deref of %s" % type(v).__name__)

    def itpath(self, it, st, n, fr):
        if it.kind == "seq":
            s = self.read(st, it.path)
            self.idx_ob(st, And(it.pos >= 0, it.pos < s.len), n, "iterator dereferenced is in range", fr)
            return it.path / ("i", it.pos)
        raise Unsupported("map iterator path")

    def e_MemberExpr(self, n, st, fr):
        b = n["c"][0]
        if "g" in n: return self.global_(n, st, fr)
        if n.get("arrow"):
            pv = self.rv(b, st, fr)
            bt = fr.tu.ty(b["t"])
            if isinstance(pv, It) and pv.kind == "map": return self.mapit_field(pv, n["n"], st, n, fr)
            if isinstance(pv, It): base = self.itpath(pv, st, n, fr)
            else:
                to = fr.tu.ty(b["t"]).strip()
                base = self.deref(pv, to.to if to.k == "p" else to, st, n, fr)
        else:
            v = self.ev(b, st, fr)
            if isinstance(v, LV): base = v.path
            else:
                if isinstance(v, Rec) and n["n"] in v.f: return v.f[n["n"]]
                base = self.temp(st, v)
        if base.root.startswith("mapit:"):
            raise Unsupported("mapit")
        p = base.fld(n["n"])
        if n.get("ref"):  # reference member: holds PtrTo or Int ref
            v = self.read(st, p)
            if isinstance(v, PtrTo): return LV(v.path)
            ft = [t for f, t in self.fields(fr.tu.ty(n["fc"])) if f == n["n"]]
            if ft and isz(v) and v.sort() == z3.IntSort() and ft[0].k == "r" and self.isrepo(ft[0].to):
                return LV(Path("heap:" + repr(ft[0].to), (("h", v),)))
        return LV(p)

    def mapit_field(self, it, name, st, n, fr):
        m = self.read(st, it.path)
        self.oblige(st, Not(it.end), "index", n, "map iterator dereferenced is not end()", fr)
        if name == "first": return self.unkey(it.pos, m.kty)
        if name == "second":
            if isinstance(m.vals, Seq): return LV(it.path / ("k", it.pos) / ("i", I(0)))
            return LV(it.path / ("k", it.pos))
        raise Unsupported("map iterator ." + name)

    def e_ArraySubscriptExpr(self, n, st, fr):
        b, i = n["c"]
        bv = self.ev(b, st, fr)
        iv = self.toint(self.rv(i, st, fr))
        if isinstance(bv, LV):
            x = self.read(st, bv.path)
            if isinstance(x, Seq):
                self.idx_ob(st, And(iv >= 0, iv < x.len), n, "array index in range", fr)
                return LV(bv.path / ("i", iv))
            bv = x
        if isinstance(bv, PtrTo):
            x = self.read(st, bv.path)
            if isinstance(x, Seq):
                self.idx_ob(st, And(iv >= 0, iv < x.len), n, "array index in range", fr)
                return LV(bv.path / ("i", iv))
        if isinstance(bv, It) and bv.kind == "seq":
            return LV(self.itpath(It(bv.path, add(bv.pos, iv), "seq"), st, n, fr))
        raise Unsupported("subscript of %s line %s" % (type(bv).__name__, n["l"]))

    def toint(self, v):
        if z3.is_bv(v): return bv2i(v)
        if z3.is_bool(v): return b2i(v)
        return v

    def e_Cast(self, n, st, fr):
        ck = n["ck"]
        c = n["c"][0]
        ty = fr.tu.ty(n["t"])
        if ck in ("LValueToRValue",): return self.rv(c, st, fr)
        if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "ConstructorConversion", "UserDefinedConversion", "FunctionToPointerDecay", "BuiltinFnToFnPtr", "BitCast", "LValueBitCast", "Dependent"):
            v = self.ev(c, st, fr)
            if ck == "BitCast" and isz(v) and z3.is_int(v): return v
            return v
        if ck == "ArrayToPointerDecay":
            v = self.ev(c, st, fr)
            if isinstance(v, LV): return PtrTo(v.path)
            return v
        if ck == "NullToPointer": return I(0)
        if ck == "ToVoid":
            self.ev(c, st, fr)
            return None
        if ck == "Dynamic": return self.dyncast(n, st, fr)
        v = self.rv(c, st, fr)
        ft = fr.tu.ty(c["t"]).strip()
        if ck == "IntegralCast" or ck == "BooleanToSignedIntegral": return self.icast(v, ft, ty, st)
        if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"): return truth(v)
        if ck == "IntegralToFloating":
            if self.bv and z3.is_bv(v): v = z3.BV2Int(v, ft.s)
            if z3.is_bv(v): v = bv2i(v)
            if z3.is_bool(v): v = b2i(v)
            return z3.simplify(z3.ToReal(v))
        if ck == "FloatingCast": return v
        if ck == "FloatingToIntegral":
            r = z3.simplify(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)))
            if z3.is_int_value(r): return self.mkint(r.as_long(), ty)
            return self.icast(r, Ty("b", "long", w=64, s=True), ty, st)
        if ck in ("PointerToIntegral", "IntegralToPointer"): return v
        raise Unsupported("cast %s line %s" % (ck, n["l"]))

    def dyncast(self, n, st, fr): raise Unsupported("dynamic_cast")

    def icast(self, v, ft, ty, st):
        if ty.isbool: return truth(v)
        if z3.is_bool(v):
            if self.bv: return tobv(v, ty.w)
            return b2i(v)
        if self.bv:
            if not z3.is_bv(v): v = tobv(v, ft.w or 64)
            return tobv(v, ty.w, bool(ft.s))
        if z3.is_bv(v):
            # a bit-vector valued integer: truncate / extend
            if v.size() > ty.w: return tobv(v, ty.w)
            if ty.s and v.size() == ty.w:
                # value may be read as negative: only representable as Int
                if z3.is_bv_value(v): return I(v.as_signed_long())
                return v if not getattr(self, "strict_signed", False) else z3.BV2Int(v, True)
            return v
        if z3.is_int_value(v):
            x = v.as_long() % (1 << ty.w)
            if ty.s and x >= (1 << (ty.w - 1)): x -= 1 << ty.w
            return I(x)
        if ft.isint and ft.w is not None:
            if ty.w >= ft.w and (ty.s == ft.s or not ft.s): return v  # widening / same
            if ty.w == ft.w and ty.s and not ft.s: return v          # assumption: fits
            if not ty.s and ft.s:
                if self.nonneg(v): return v
                return z3.If(v >= 0, v, v + (1 << ty.w))
            if ty.w < ft.w:
                if ty.w <= 16: return z3.If(z3.And(v >= 0, v < (1 << ty.w)), v, v % (1 << ty.w)) if not ty.s else v
                return v  # assumption: narrowing 64->32 fits
        return v

    def nonneg(self, v):
        if z3.is_int_value(v): return v.as_long() >= 0
        if z3.is_app(v):
            k = v.decl().kind()
            if k == z3.Z3_OP_BV2INT: return True
            if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL): return all(self.nonneg(c) for c in v.children())
            if k == z3.Z3_OP_ITE: return self.nonneg(v.arg(1)) and self.nonneg(v.arg(2))
            if k in (z3.Z3_OP_MOD,): return True
            if k == z3.Z3_OP_IDIV: return self.nonneg(v.arg(0)) and self.nonneg(v.arg(1))
        return False

    def e_UnaryOperator(self, n, st, fr):
        op = n["op"]
        c = n["c"][0]
        ty = fr.tu.ty(n["t"]).strip()
        if op in ("++", "--"):
            p = self.lvp(c, st, fr)
            old = self.read(st, p)
            self.tyinv(old, st, c, fr)
            if isinstance(old, It): new = self.itadv(old, 1 if op == "++" else -1, st, n, fr)
            elif isinstance(old, PtrTo): new = self.ptradd(old, I(1 if op == "++" else -1))
            else:
                one = self.mkint(1, ty) if not z3.is_bv(old) else z3.BitVecVal(1, old.size())
                new = self.arith("+" if op == "++" else "-", old, one, ty, st, n, fr)
            self.write(st, p, new)
            return old if n.get("post") else LV(p)
        if op == "*":
            v = self.rv(c, st, fr)
            if isinstance(v, It) and v.kind == "map": raise Unsupported("deref map iterator")
            return LV(self.deref(v, fr.tu.ty(c["t"]).strip().to or ty, st, n, fr))
        if op == "&":
            v = self.ev(c, st, fr)
            if isinstance(v, FnPtr): return v
            if isinstance(v, LV):
                if len(v.path.steps) == 1 and v.path.steps[0][0] == "h": return v.path.steps[0][1]
                return PtrTo(v.path)
            raise Unsupported("address of rvalue")
        v = self.rv(c, st, fr)
        if op == "!": return Not(truth(v))
        if op == "-":
            if z3.is_int_value(v) and not z3.is_bv(v): return I(-v.as_long())
            if z3.is_bv(v) and not self.bv: v = bv2i(v)
            if z3.is_bool(v): v = b2i(v)
            return z3.simplify(-v) if isnum(v) else -v
        if op == "+": return v
        if op == "~":
            if not z3.is_bv(v):
                if z3.is_int_value(v):
                    r = ~v.as_long()
                    return I(r if ty.s else r % (1 << ty.w))
                return -v - 1 if ty.s else (1 << ty.w) - 1 - v
            return ~v
        raise Unsupported("unary " + op)

    def ptradd(self, p, k):
        if p.path.steps and p.path.steps[-1][0] == "i":
            return PtrTo(Path(p.path.root, p.path.steps[:-1]) / ("i", add(p.path.steps[-1][1], k)))
        raise Unsupported("pointer arithmetic")

    def e_BinaryOperator(self, n, st, fr):
        op = n["op"]
        a, b = n["c"]
        if op == "=":
            # C++17: right operand sequenced first
            v = self.rv(b, st, fr)
            p = self.lvp(a, st, fr)
            self.assign(st, p, v, fr)
            return LV(p)
        if op == ",":
            self.ev(a, st, fr)
            return self.ev(b, st, fr)
        if op in ("&&", "||"):
            l = truth(self.rv(a, st, fr))
            ls = z3.simplify(l)
            if op == "&&" and z3.is_false(ls): return FALSE
            if op == "||" and z3.is_true(ls): return TRUE
            if op == "&&" and z3.is_true(ls) or op == "||" and z3.is_false(ls): return truth(self.rv(b, st, fr))
            g = l if op == "&&" else Not(l)
            s1 = st.copy()
            s1.assume(g, "b")
            try:
                r = truth(self.rv(b, s1, fr))
            except DeadPath:
                st.assume(Not(g))
                return FALSE if op == "&&" else TRUE
            s2 = st.copy()
            s2.assume(Not(g), "b")
            m = self.merge([s1, s2])
            if m is None: raise Unsupported("unmergeable condition side effects")
            self.become(st, m)
            return And(l, r) if op == "&&" else Or(l, r)
        x = self.rv(a, st, fr)
        y = self.rv(b, st, fr)
        ty = fr.tu.ty(n["t"])
        ta = fr.tu.ty(a["t"]).strip()
        if op in ("==", "!=", "<", "<=", ">", ">="): return self.cmp(op, x, y, ta, st, n, fr)
        return self.arith(op, x, y, ty, st, n, fr)

    def become(self, st, m):
        st.store, st.pc, st.known, st.nextref = m.store, m.pc, m.known, m.nextref

    def assign(self, st, p, v, fr=None):
        self.write(st, p, v)

    def cmp(self, op, x, y, ty, st, n, fr):
        if isinstance(x, It) and isinstance(y, It): r = self.iteq(x, y, st); return r if op == "==" else Not(r)
        if isinstance(x, PtrTo) or isinstance(y, PtrTo):
            if isinstance(x, PtrTo) and isinstance(y, PtrTo):
                if x.path.same(y.path): r = TRUE
                elif x.path.root != y.path.root: r = FALSE
                else: raise Unsupported("pointer compare")
            else:
                o = y if isinstance(x, PtrTo) else x
                if z3.is_int_value(o) and o.as_long() == 0: r = FALSE
                else: r = FALSE  # a located object is never one of the heap references (listed aliasing assumption)
            return r if op == "==" else Not(r)
        if isinstance(x, FnPtr) and isinstance(y, FnPtr):
            r = z3.BoolVal(x.f["q"] == y.f["q"])
            return r if op == "==" else Not(r)
        if not (isz(x) and isz(y)):
            if op in ("==", "!="):
                r = eqv(x, y)
                return r if op == "==" else Not(r)
            raise Unsupported("compare %s" % op)
        if op == "==": return eqleaf(x, y)
        if op == "!=": return Not(eqleaf(x, y))
        if z3.is_bool(x): x = b2i(x)
        if z3.is_bool(y): y = b2i(y)
        if z3.is_bv(x) or z3.is_bv(y):
            if z3.is_bv(x) and z3.is_bv(y):
                k = max(x.size(), y.size())
                if self.bv and ty.s:
                    x, y = tobv(x, k, True), tobv(y, k, True)
                    return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
                x, y = tobv(x, k), tobv(y, k)
                return {"<": z3.ULT(x, y), "<=": z3.ULE(x, y), ">": z3.UGT(x, y), ">=": z3.UGE(x, y)}[op]
            if z3.is_bv(x) and z3.is_int_value(y) and 0 <= y.as_long() < (1 << x.size()): return self.cmp(op, x, tobv(y, x.size()), ty, st, n, fr)
            if z3.is_bv(y) and z3.is_int_value(x) and 0 <= x.as_long() < (1 << y.size()): return self.cmp(op, tobv(x, y.size()), y, ty, st, n, fr)
            if z3.is_bv(x): x = bv2i(x)
            if z3.is_bv(y): y = bv2i(y)
        r = {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y}[op]()
        return z3.simplify(r) if isnum(x) and isnum(y) else r

    def arith(self, op, x, y, ty, st, n, fr):
        if isinstance(x, It):
            k = self.toint(y) if isz(y) else None
            if k is not None: return It(x.path, add(x.pos, k) if op == "+" else sub(x.pos, k), x.kind)
            if isinstance(y, It) and op == "-": return sub(x.pos, y.pos)
        if isinstance(x, PtrTo) and isz(y): return self.ptradd(x, self.toint(y) if op == "+" else -self.toint(y))
        if not (isz(x) and isz(y)): raise Unsupported("arith %s on %s,%s line %s" % (op, type(x).__name__, type(y).__name__, n.get("l")))
        if z3.is_bool(x) and not ty.isbool: x = tobv(x, ty.w) if self.bv else b2i(x)
        if z3.is_bool(y) and not ty.isbool: y = tobv(y, ty.w) if self.bv else b2i(y)
        if ty.isbool or z3.is_bool(x):
            x, y = truth(x), truth(y)
            return {"|": lambda: Or(x, y), "&": lambda: And(x, y), "^": lambda: z3.Xor(x, y)}[op]()
        if ty.isfloat:
            x, y = coerce(x, z3.RealSort()), coerce(y, z3.RealSort())
            if op == "/":
                self.oblige(st, y != 0, "div", n, "divisor is not zero", fr)
                return z3.simplify(x / y)
            return z3.simplify({"+": x + y, "-": x - y, "*": x * y}[op])
        if self.bv or (z3.is_bv(x) and z3.is_bv(y)) or (op in ("&", "|", "^") and (z3.is_bv(x) or z3.is_bv(y))): return self.bvarith(op, x, y, ty, st, n, fr)
        if op in ("<<", ">>"):
            if z3.is_bv(y): y = bv2i(y)
            if z3.is_bv(x):
                w = ty.w or 64
                x = tobv(x, w) if x.size() < w else x
                return z3.simplify((x << tobv(y, x.size())) if op == "<<" else z3.LShR(x, tobv(y, x.size())))
            if z3.is_int_value(y):
                k = y.as_long()
                if op == "<<": return z3.simplify(x * (1 << k))
                return z3.simplify(x / (1 << k))
            if z3.is_int_value(x) and x.as_long() == 1 and op == "<<":
                return self.pow2(st, y)
            if op == "<<": return x * self.pow2(st, y)
            return x / self.pow2(st, y)
        if z3.is_bv(x): x = bv2i(x)
        if z3.is_bv(y): y = bv2i(y)
        if isnum(x) and isnum(y):
            a, b = x.as_long(), y.as_long()
            if op == "+": r = a + b
            elif op == "-": r = a - b
            elif op == "*": r = a * b
            elif op in ("/", "%"):
                if b == 0:
                    self.oblige(st, FALSE, "div", n, "divisor is not zero", fr)
                    raise DeadPath()
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0): q = -q
                r = q if op == "/" else a - q * b
            elif op == "&": r = a & b
            elif op == "|": r = a | b
            elif op == "^": r = a ^ b
            else: raise Unsupported(op)
            if ty.isint and not ty.s: r %= 1 << ty.w
            return I(r)
        if op == "+": return add(x, y)
        if op == "*": return x * y
        if op == "-":
            r = sub(x, y)
            if ty.isint and not ty.s: return z3.If(x >= y, r, r + (1 << ty.w))
            return r
        if op in ("/", "%"):
            if not (z3.is_int_value(y) and y.as_long() != 0): self.oblige(st, y != 0, "div", n, "divisor is not zero", fr)
            uns = ty.isint and not ty.s
            if self.opaque_div and not z3.is_int_value(y):
                self.oblige(st, And(x >= 0, y >= 1), "div", n, "division of numbers that are not negative", fr)
                return (QUO if op == "/" else REM)(x, y)
            if op == "/":
                if uns or (self.nonneg(x) and self.nonneg(y)): return x / y
                return z3.If(x >= 0, x / y, -((-x) / y))
            if uns or (self.nonneg(x) and self.nonneg(y)): return x % y
            return z3.If(x >= 0, x % y, -((-x) % y))
        if op == "&" and z3.is_int_value(y):
            m = y.as_long()
            if m >= 0 and (m & (m + 1)) == 0: return x % (m + 1)
        if op == "&" and z3.is_int_value(x): return self.arith(op, y, x, ty, st, n, fr)
        if op == "&":
            for a, b in ((x, y), (y, x)):
                k = lowmask(b)
                if k is not None:
                    # the low k bits of a number: its remainder by 2^k
                    return z3.If(z3.And(k >= 0, a >= 0, b == self.pow2(st, k) - 1), a % self.pow2(st, k), bv2i(z3.Int2BV(x, ty.w or 32) & z3.Int2BV(y, ty.w or 32)))
        if op == "^" and (z3.is_int_value(y) and y.as_long() == 1 or z3.is_int_value(x) and x.as_long() == 1):
            if z3.is_int_value(x): x, y = y, x
            return z3.If(x % 2 == 0, x + 1, x - 1)  # flips the lowest bit, two's complement
        if op in ("&", "|", "^"):
            w = ty.w or 32
            return bv2i({"&": lambda a, b: a & b, "|": lambda a, b: a | b, "^": lambda a, b: a ^ b}[op](z3.Int2BV(x, w), z3.Int2BV(y, w)))
        raise Unsupported("int op %s line %s" % (op, n.get("l")))

    _pow2 = None
    opaque_div = False     # quotients and remainders by a variable as opaque functions with the facts in quorem_facts

    def pow2(self, st, k):
        if Engine._pow2 is None: Engine._pow2 = z3.Function("pow2", z3.IntSort(), z3.IntSort())
        r = Engine._pow2(k)
        st.assume(Implies(k >= 0, r >= 1))
        return r

    def bvarith(self, op, x, y, ty, st, n, fr):
        w = ty.w if (ty.isint and ty.w) else max([v.size() for v in (x, y) if z3.is_bv(v)])
        sg = bool(ty.s) and self.bv
        if op in ("<<", ">>"):
            x = tobv(x, w, sg)
            y = tobv(y, w, False)
            if op == "<<": r = x << y
            else: r = (x >> y) if sg else z3.LShR(x, y)
            return z3.simplify(r) if isnum(x) and isnum(y) else r
        x, y = tobv(x, w, sg), tobv(y, w, sg)
        if op == "+": r = x + y
        elif op == "-": r = x - y
        elif op == "*": r = x * y
        elif op == "&": r = x & y
        elif op == "|": r = x | y
        elif op == "^": r = x ^ y
        elif op in ("/", "%"):
            self.oblige(st, y != 0, "div", n, "divisor is not zero", fr)
            if op == "/": r = (x / y) if sg else z3.UDiv(x, y)
            else: r = z3.SRem(x, y) if sg else z3.URem(x, y)
        else: raise Unsupported(op)
        return z3.simplify(r) if isnum(x) and isnum(y) else r

    def e_CompoundAssign(self, n, st, fr):
        a, b = n["c"]
        y = self.rv(b, st, fr)
        p = self.lvp(a, st, fr)
        x = self.read(st, p)
        self.tyinv(x, st, a, fr)
        lt = fr.tu.ty(a["t"]).strip()
        ct = fr.tu.ty(n["ct"])
        if isz(x) and ct.isint and lt.isint: x = self.icast(x, lt, ct, st)
        if isz(x) and ct.isfloat: x = coerce(x, z3.RealSort())
        r = self.arith(n["op"][:-1], x, y, ct, st, n, fr)
        if isz(r):
            if lt.isint and ct.isint: r = self.icast(r, ct, lt, st)
            elif lt.isint and ct.isfloat: r = z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))
        self.write(st, p, r)
        return LV(p)

    def e_Cond(self, n, st, fr):
        c, a, b = n["c"]
        cv = z3.simplify(truth(self.rv(c, st, fr)))
        want_lv = bool(n.get("lv"))
        if z3.is_true(cv): return self.ev(a, st, fr)
        if z3.is_false(cv): return self.ev(b, st, fr)
        rs = []
        for e, g in ((a, cv), (b, Not(cv))):
            s = st.copy()
            s.assume(g, "b")
            try:
                v = self.ev(e, s, fr)
                if isinstance(v, LV): v = self.rval(v, s, e, fr)
                rs.append((s, v, g))
            except DeadPath: pass
        if not rs: raise DeadPath()
        if len(rs) == 1:
            self.become(st, rs[0][0])
            return rs[0][1]
        m = self.merge([rs[0][0], rs[1][0]])
        if m is None: raise Unsupported("cond merge")
        self.become(st, m)
        v1, v2 = rs[0][1], rs[1][1]
        if v1 is None or v2 is None: return None
        if isz(v1) and isinstance(v2, PtrTo) or isz(v2) and isinstance(v1, PtrTo): raise Unsupported("cond pointer merge")
        return zipl(v1, v2, lambda x, y: ite(cv, x, y))

    def e_InitListExpr(self, n, st, fr):
        ty = fr.tu.ty(n["t"])
        vals = [self.rv(c, st, fr) for c in n["c"]]
        return self.initlist(ty, vals, st, n, fr)

    def initlist(self, ty, vals, st, n, fr):
        if ty.k == "arr":
            d = self.default(ty)
            e = d.elem
            for i, v in enumerate(vals): e = sto(e, I(i), v)
            return Seq(I(0), I(ty.n), e)
        if ty.k == "c" and self.rec(ty) is not None:
            d = self.default(ty)
            f = dict(d.f)
            for (fn, ft), v in zip(self.fields(ty), vals): f[fn] = coerce(v, f[fn].sort()) if isz(v) and isz(f[fn]) else v
            return Rec(d.name, f)
        if ty.k == "c" and ty.n == "std::initializer_list":
            return ("il", vals)
        if len(vals) == 1: return vals[0]
        if not vals: return self.default(ty)
        raise Unsupported("init list of %r" % ty)

    def e_CXXStdInitializerListExpr(self, n, st, fr):
        c = n["c"][0]
        return ("il", [self.rv(x, st, fr) for x in c["c"]])

    def e_LambdaExpr(self, n, st, fr): return Lam(n, fr, None)

    def e_CXXThrowExpr(self, n, st, fr):
        raise DeadPath()

    def e_CXXDeleteExpr(self, n, st, fr):
        self.ev(n["c"][0], st, fr)
        return None

    def e_CXXNewExpr(self, n, st, fr):
        ty = fr.tu.ty(n["at"])
        if n.get("arr") is not None:
            cnt = self.toint(self.rv(n["arr"], st, fr))
            r = "T%d" % next(_cnt)
            st.store[r] = Seq(I(0), cnt, self.fresh(ty, "newarr", (z3.IntSort(),)))
            return PtrTo(Path(r))
        ref = st.nextref
        st.nextref = add(ref, I(1))
        st.assume(ref >= 1)
        if self.isrepo(ty): cls = repr(ty)
        else:
            cls = "raw:" + repr(ty)
            self._raw[cls] = ty
        p = Path("heap:" + cls, (("h", ref),))
        self.root(st, p.root)
        if n.get("ce"):
            v = self.construct_into(n["ce"], p, ty, st, fr)
        return ref

    # construct: returns value
    def e_Construct(self, n, st, fr):
        ty = fr.tu.ty(n["t"])
        f = n["f"]
        args = n["c"]
        if self.isrepo(ty):
            if len(args) == 1 and f["ps"] and fr.tu.ty(f["ps"][0]).k == "r" and repr(fr.tu.ty(f["ps"][0]).to) == repr(ty) and not self.prog_has_ctor(f):
                return self.rv(args[0], st, fr)
            p = self.temp(st, self.fresh(ty, "obj"))
            self.run_ctor(f, p, ty, args, st, fr, n)
            v = self.read(st, p)
            return v
        import models
        return models.construct(self, ty, f, args, st, fr, n)

    e_CXXTemporaryObjectExpr = e_Construct

    def construct_into(self, n, p, ty, st, fr):
        if n["k"] == "Construct" and self.isrepo(ty):
            f = n["f"]
            args = n["c"]
            if len(args) == 1 and repr(fr.tu.ty(f["ps"][0]).strip()) == repr(ty) and not self.prog_has_ctor(f):
                self.write(st, p, self.rv(args[0], st, fr))
                return
            self.run_ctor(f, p, ty, args, st, fr, n)
        else: self.write(st, p, self.rv(n, st, fr))

    def prog_has_ctor(self, f):
        l = self.prog.fq.get(f["q"], [])
        return any(len(g["ps"]) == 1 and len(f["ps"]) == 1 and g.get("ctor") and repr(g["tu"].ty(g["ps"][0]["t"]).strip()) == repr(g["tu"].ty(g["cls"])) for g in l)

    def run_ctor(self, f, p, ty, args, st, fr, n):
        cand = [g for g in self.prog.fq.get(f["q"], []) if g.get("ctor") and len(g["ps"]) == len(f["ps"]) and [repr(g["tu"].ty(x["t"])) for x in g["ps"]] == [repr(fr.tu.ty(x)) for x in f["ps"]] and repr(g["tu"].ty(g["cls"])) == repr(ty)]
        if f["q"] in self.models:
            self.trusted.add(f["q"])
            return self.models[f["q"]](self, st, fr, n, p, args)
        if not cand:
            if len(f["ps"]) == 0:
                self.default_ctor(p, ty, st, fr)
                return
            raise Unsupported("constructor %s not available" % f["q"])
        g = cand[0]
        av = self.eval_args(g, args, st, fr)
        self.call_fn(g, av, p, st, fr, n)

    def default_ctor(self, p, ty, st, fr):
        """implicit default constructor: in-class initialisers, class-typed members default-constructed, others indeterminate"""
        r = self.rec(ty)
        tu = r["tu"]
        for b in r["bases"]:
            if self.isrepo(tu.ty(b)): self.default_ctor(p, tu.ty(b), st, fr)
        for fd in r["fields"]:
            ft = tu.ty(fd["t"])
            if "init" in fd:
                f2 = Frame({"q": ty.n, "tu": tu}, tu, p, fr.depth + 1)
                self.write(st, p.fld(fd["n"]), self.rv(fd["init"], st, f2))
            elif ft.k == "c": self.default_member(p.fld(fd["n"]), ft, st, fr)

    def default_member(self, p, ft, st, fr):
        if self.isrepo(ft):
            g = [x for x in self.prog.fq.get(ft.n + "::" + ft.n.split("::")[-1].split("<")[0], []) if x.get("ctor") and not x["ps"]]
            if g: self.call_fn(g[0], [], p, st, fr, {"l": 0})
            else: self.default_ctor(p, ft, st, fr)
        else:
            d = self.default(ft)
            if isinstance(d, Opq): return
            self.write(st, p, d)

    def bind(self, pt, a, st, fr):
        """evaluate argument a for parameter type pt"""
        if pt.k == "r":
            v = self.ev(a, st, fr)
            if isinstance(v, LV): return v
            return v
        return self.rv(a, st, fr)

    def eval_args(self, g, args, st, fr):
        out = []
        for i, a in enumerate(args):
            pt = g["tu"].ty(g["ps"][i]["t"]) if i < len(g["ps"]) else None
            out.append(self.bind(pt, a, st, fr) if pt is not None else self.rv(a, st, fr))
        return out

    # ---------- calls
    def e_Call(self, n, st, fr):
        if "f" not in n:
            fv = self.rv(n["fe"], st, fr)
            if isinstance(fv, FnPtr): return self.docall(fv.f, None, n["c"], st, fr, n)
            if isinstance(fv, Lam): return self.call_lambda(fv, n["c"], st, fr, n)
            return self.indirect(fv, n, st, fr)
        return self.docall(n["f"], None, n["c"], st, fr, n)

    def indirect(self, fv, n, st, fr):
        h = self.models.get("indirect:" + (n["fe"]["c"][0].get("n", "") if n["fe"].get("c") else n["fe"].get("n", "")))
        if h: return h(self, st, fr, n, None, n["c"])
        raise Unsupported("indirect call line %s" % n["l"])

    def e_MemberCall(self, n, st, fr): return self.docall(n["f"], n["obj"], n["c"], st, fr, n, n.get("arrow"))

    def e_OpCall(self, n, st, fr):
        f = n["f"]
        if "cls" in f and not f.get("static"): return self.docall(f, n["c"][0], n["c"][1:], st, fr, n)
        return self.docall(f, None, n["c"], st, fr, n)

    def docall(self, f, obj, args, st, fr, n, arrow=False):
        q = f["q"]
        if q in self.models:
            self.trusted.add(q)
            return self.models[q](self, st, fr, n, obj, args)
        import models
        if not f.get("root"):
            return models.libcall(self, f, obj, args, st, fr, n, arrow)
        cty = fr.tu.ty(f["cls"]) if "cls" in f else None
        this = None
        ftu = fr.tu
        if obj is not None and not f.get("static"):
            if arrow:
                pv = self.rv(obj, st, fr)
                ot = fr.tu.ty(obj["t"]).strip()
                ot = ot.to if ot.k == "p" else ot
                this = self.deref(pv, ot, st, n, fr)
            else:
                this = self.lvp(obj, st, fr)
                ot = fr.tu.ty(obj["t"]).strip()
        sig = [repr(ftu.ty(x)) for x in f["ps"]]
        cq = self.contracts.get(q)
        if cq is not None:
            for c in (cq if isinstance(cq, list) else [cq]):
                if c.match(sig): return self.use_contract(c, f, this, args, st, fr, n)
        cand = [g for g in self.prog.fq.get(q, []) if [repr(g["tu"].ty(x["t"])) for x in g["ps"]] == sig and (cty is None or g["sig"][0] == repr(cty)) and bool(g.get("const")) == bool(f.get("const"))]
        if f.get("ta") and len(cand) > 1:
            tar = repr([ftu.ty(x) if not isinstance(x, dict) else x for x in f["ta"]])
            cand = [g for g in cand if g["sig"][3] == tar]
        if f.get("virt") and not n.get("qualified"):
            d = self.dispatch(f, this, st, fr)
            if d is not None: cand = d
        if q.endswith("::operator=") and not cand and len(args) == 1:
            v = self.rv(args[0], st, fr)
            self.write(st, this, v)
            return LV(this)
        if not cand: raise Unsupported("no body or contract for %s (called at line %s of %s)" % (q, n.get("l"), fr.fn["q"]))
        g = cand[0]
        av = self.eval_args(g, args, st, fr)
        self.inlined.add(q)
        return self.call_fn(g, av, this, st, fr, n)

    dyncls = {}

    def dispatch(self, f, this, st, fr):
        """virtual dispatch: the unit fixes the dynamic class of the receiver (eng.dyncls)"""
        base = repr(fr.tu.ty(f["cls"]))
        dc = self.dyncls.get(this.root if this else None) or self.dyncls.get(base)
        if dc is None: return None
        q = f["n"]
        c = dc
        while c:
            l = [g for g in self.prog.fq.get(c + "::" + q, []) if len(g["ps"]) == len(f["ps"])]
            if l: return l
            r = self.prog.rec.get(c)
            c = repr(r["tu"].ty(r["bases"][0])) if r and r["bases"] else None
        return None

    def call_fn(self, g, av, this, st, fr, n):
        """inline a function body; mutates st; returns value or LV"""
        if fr is not None and fr.depth > 40: raise Unsupported("recursion depth in " + g["q"])
        f2 = Frame(g, g["tu"], this, (fr.depth + 1) if fr else 0)
        if fr is not None and fr.contract is not None: f2.contract = fr.contract
        outs = self.exec_body(g, av, f2, st)
        ret = g["tu"].ty(g["ret"])
        sts = [s for s, v in outs]
        if not sts: raise DeadPath()
        if len(outs) == 1:
            self.become(st, sts[0])
            return self.retconv(outs[0][1], ret)
        # merge, carrying the value through the store
        isref = ret.k == "r"
        vals = [v for s, v in outs]
        if isref and all(isinstance(v, LV) for v in vals) and all(v.path.same(vals[0].path) for v in vals):
            m = self.merge(sts)
            if m is None: raise Unsupported("unmergeable returns in " + g["q"])
            self.become(st, m)
            return vals[0]
        r = "T%d" % next(_cnt)
        for s, v in outs:
            if isinstance(v, LV): v = self.read(s, v.path)
            if v is not None: s.store[r] = v if not (isz(v) and self.leafsort(ret.strip()) is not None) else v
        m = self.merge(sts)
        if m is None: raise Unmergeable("returns in " + g["q"])
        self.become(st, m)
        if ret.isvoid or g.get("ctor"): return None
        v = st.store.pop(r)
        return v

    def retconv(self, v, ret): return v

    def exec_body(self, g, av, f2, st):
        """returns list of (state, value)"""
        for p, a in zip(g["ps"], av):
            pt = g["tu"].ty(p["t"])
            self.bind_param(f2, p, pt, a, st)
        s0 = st.copy()
        if g.get("ctor"):
            done = set()
            for i in g.get("inits", []):
                if "f" in i:
                    done.add(i["f"])
                    if i["e"] is None: continue
                    tgt = f2.this.fld(i["f"])
                    ft = [t for fn, t in self.fields(g["tu"].ty(g["cls"])) if fn == i["f"]]
                    if ft and ft[0].k == "r":
                        v = self.ev(i["e"], s0, f2)
                        if isinstance(v, LV):
                            if len(v.path.steps) == 1 and v.path.steps[0][0] == "h": self.write(s0, tgt, v.path.steps[0][1])
                            else: self.write(s0, tgt, PtrTo(v.path))
                            continue
                        self.write(s0, tgt, v)
                        continue
                    if i["e"]["k"] == "Construct" and ft and self.isrepo(ft[0]): self.construct_into(i["e"], tgt, ft[0], s0, f2)
                    elif i["e"]["k"] == "InitListExpr" and False: pass
                    else:
                        v = self.rv(i["e"], s0, f2)
                        if isinstance(v, Opq): continue
                        self.write(s0, tgt, v)
                elif "b" in i:
                    bt = g["tu"].ty(i["b"])
                    if self.isrepo(bt) and i["e"]["k"] == "Construct":
                        self.run_ctor(i["e"]["f"], f2.this, bt, i["e"]["c"], s0, f2, i["e"])
        o = self.exec(g["body"], s0, f2)
        outs = [(s, None) for s in o["normal"]] + o["return"]
        return outs

    def bind_param(self, f2, p, pt, a, st):
        if pt.k == "r" and isinstance(a, LV):
            f2.env[p["id"]] = a.path
            return
        if isinstance(a, LV): a = self.read(st, a.path)
        r = "L%d" % next(_cnt)
        if isz(a):
            s = self.leafsort(pt.strip())
            if s is not None and a.sort() != s and not z3.is_bv(a): a = coerce(a, s)
            if pt.strip().k == "c" and pt.strip().n in BVS: a = tobv(a, pt.strip().a[0])
        st.store[r] = a
        f2.env[p["id"]] = Path(r)
        f2.names[r] = p["n"]

    def call_lambda(self, lam, args, st, fr, n):
        f2 = Frame(lam.frame.fn, lam.frame.tu, lam.frame.this, fr.depth + 1)
        f2.env = dict(lam.frame.env)
        for p, a in zip(lam.node["ps"], args):
            pt = f2.tu.ty(p["t"])
            self.bind_param(f2, p, pt, a if not isinstance(a, dict) else self.bind(pt, a, st, fr), st)
        o = self.exec(lam.node["body"], st.copy(), f2)
        outs = [(s, None) for s in o["normal"]] + o["return"]
        if not outs: raise DeadPath()
        r = "T%d" % next(_cnt)
        for s, v in outs:
            if isinstance(v, LV): v = self.read(s, v.path)
            if v is not None: s.store[r] = v
        m = self.merge([s for s, v in outs])
        if m is None: raise Unsupported("lambda merge")
        self.become(st, m)
        return st.store.get(r)

    # ---------- contracts at call sites
    def use_contract(self, c, f, this, args, st, fr, n):
        g = c.decl(self, f, fr)
        av = []
        for i, a in enumerate(args):
            pt = fr.tu.ty(f["ps"][i])
            v = self.bind(pt, a, st, fr)
            av.append(v)
        return c.apply(self, this, av, st, fr, n)

    # ---------- statements
    def out(self, **k):
        o = {"normal": [], "break": [], "continue": [], "return": []}
        o.update(k)
        return o

    def exec(self, n, st, fr):
        if n is None: return self.out(normal=[st])
        if self.deadline and time.time() > self.deadline: raise Unsupported("time budget of the unit exhausted during execution")
        k = n["k"]
        m = getattr(self, "s_" + k, None)
        try:
            if m: return m(n, st, fr)
            self.ev(n, st, fr)
            return self.out(normal=[st])
        except DeadPath:
            return self.out()

    def join(self, outs):
        o = self.out()
        for x in outs:
            for k in o: o[k] += x[k]
        for k in ("normal", "continue"):
            m = self.merge(o[k]) if len(o[k]) > 1 else None
            if m is not None: o[k] = [m]
        o["break"] = self.merge_list(o["break"])
        return o

    def s_CompoundStmt(self, n, st, fr): return self.block(n["c"], 0, st, fr)

    def block(self, cs, k, st, fr):
        """statements k.. of a block; paths that stay apart run the rest one after the other (variables are bound per frame)"""
        o = self.out()
        cur = st
        while k < len(cs):
            rc = self.refcond(cs[k], fr)
            if rc is not None:       # T& r = c ? a : b;  -- one path per object referred to
                v, e = rc
                for s, leaf in self.condleaves(e, cur, fr):
                    self.declare(dict(v, init=leaf), s, fr)
                    y = self.block(cs, k + 1, s, fr)
                    for z in o: o[z] += y[z]
                o["normal"] = self.merge_list(o["normal"])
                return o
            x = self.exec(cs[k], cur, fr)
            for z in ("break", "continue", "return"): o[z] += x[z]
            nxt = self.merge_list(x["normal"])
            k += 1
            if len(nxt) != 1:
                for s in nxt:
                    y = self.block(cs, k, s, fr)
                    for z in o: o[z] += y[z]
                if len(nxt) > 1: o["normal"] = self.merge_list(o["normal"])
                return o
            cur = nxt[0]
        o["normal"].append(cur)
        return o

    def refcond(self, n, fr):
        if n is None or n["k"] != "DeclStmt" or len(n["d"]) != 1 or n["d"][0] is None: return None
        v = n["d"][0]
        if v.get("static") or not v.get("init") or fr.tu.ty(v["t"]).k != "r": return None
        e = v["init"]
        while e["k"] == "Paren": e = e["c"][0]
        return (v, e) if e["k"] == "Cond" and e.get("lv") else None

    def condleaves(self, e, st, fr):
        while e["k"] == "Paren": e = e["c"][0]
        if e["k"] != "Cond": return [(st, e)]
        c, a, b = e["c"]
        out = []
        for x, y in zip(self.branch(truth(self.rv(c, st, fr)), st), (a, b)):
            if x is not None: out += self.condleaves(y, x, fr)
        return out

    def s_NullStmt(self, n, st, fr): return self.out(normal=[st])

    def s_DeclStmt(self, n, st, fr):
        for v in n["d"]:
            if v is None: continue
            self.declare(v, st, fr)
        return self.out(normal=[st])

    def declare(self, v, st, fr):
        ty = fr.tu.ty(v["t"])
        if v.get("static"):
            q = "static:%s::%s" % (fr.fn["q"], v["n"])
            fr.env[v["id"]] = Path("g:" + q)
            if "g:" + q not in st.store:
                if "init" in v and v["init"] is not None: st.store["g:" + q] = self.rv(v["init"], st, fr)
                else: st.store["g:" + q] = self.default(ty)
            return
        r = "L%d" % next(_cnt)
        if ty.k == "r":
            x = self.ev(v["init"], st, fr)
            if isinstance(x, LV):
                fr.env[v["id"]] = x.path
                return
            if v["init"]["k"] == "Cond" and v["init"].get("lv"): raise Unsupported("reference to one of several objects")
            st.store[r] = x
        else:
            if "init" in v and v["init"] is not None:
                i = v["init"]
                if i["k"] == "Construct" and self.isrepo(ty):
                    st.store[r] = self.fresh(ty, v["n"])
                    self.construct_into(i, Path(r), ty, st, fr)
                else:
                    x = self.rv(i, st, fr)
                    if isz(x):
                        s = self.leafsort(ty)
                        if s is not None and x.sort() != s and not z3.is_bv(x): x = coerce(x, s)
                        if ty.k == "c" and ty.n in BVS: x = tobv(x, ty.a[0])
                    st.store[r] = x
            else: st.store[r] = self.fresh(ty, v["n"])
        fr.env[v["id"]] = Path(r)
        fr.names[r] = v["n"]

    def s_ReturnStmt(self, n, st, fr):
        v = None
        if n["c"] and n["c"][0] is not None:
            ret = fr.tu.ty(fr.fn["ret"]) if "ret" in fr.fn else None
            v = self.ev(n["c"][0], st, fr)
            if isinstance(v, LV) and not (ret is not None and ret.k == "r"): v = self.rval(v, st, n["c"][0], fr)
        return self.out(**{"return": [(st, v)]})

    def s_BreakStmt(self, n, st, fr): return self.out(**{"break": [st]})

    def s_ContinueStmt(self, n, st, fr): return self.out(**{"continue": [st]})

    def branch(self, c, st):
        """returns (st_true or None, st_false or None)"""
        cs = z3.simplify(c)
        if z3.is_true(cs): return st, None
        if z3.is_false(cs): return None, st
        a = st.copy()
        a.assume(c, "b")
        b = st.copy()
        b.assume(Not(c), "b")
        if self.prune:
            if self.infeasible(a, 150): return None, st if self.adda(st, Not(c)) else st
            if self.infeasible(b, 150): return (st if self.adda(st, c) else st), None
        return a, b

    prune = False

    def adda(self, st, f):
        st.assume(f)
        return True

    def s_IfStmt(self, n, st, fr):
        init, cvar, cond, th, el = n["c"]
        if init is not None: self.exec(init, st, fr)
        if cvar is not None: self.exec(cvar, st, fr)
        c = truth(self.rv(cond, st, fr))
        a, b = self.branch(c, st)
        outs = []
        if a is not None: outs.append(self.exec(th, a, fr))
        if b is not None: outs.append(self.exec(el, b, fr) if el is not None else self.out(normal=[b]))
        return self.join(outs)

    def s_SwitchStmt(self, n, st, fr):
        cond, body = n["c"]
        v = self.rv(cond, st, fr)
        # flatten the body into (labels, stmt) items
        items = []
        for s in body["c"]:
            labels = []
            while s is not None and s["k"] in ("CaseStmt", "DefaultStmt"):
                labels.append(("default",) if s["k"] == "DefaultStmt" else ("case", int(s["v"])))
                s = s["c"][0]
            items.append((labels, s))
        allc = [l[1] for ls, _ in items for l in ls if l[0] == "case"]
        o = self.out()
        dflt = And([Not(eqleaf(v, self.mkc(x, v))) for x in allc])
        has_default = any(l[0] == "default" for ls, _ in items for l in ls)
        # entry conditions per label position: execute each entry separately, falling through
        entries = []
        for idx, (ls, _) in enumerate(items):
            if not ls: continue
            cs = [eqleaf(v, self.mkc(l[1], v)) if l[0] == "case" else dflt for l in ls]
            entries.append((idx, Or(cs)))
        # incremental: walk items with the set of live states (fallthrough merges with new entries)
        live = []
        for idx, (ls, s) in enumerate(items):
            for e, c in entries:
                if e == idx:
                    cs = z3.simplify(c)
                    if z3.is_false(cs): continue
                    a = st.copy()
                    if not z3.is_true(cs): a.assume(c, "b")
                    if self.prune and self.infeasible(a, 150): continue
                    live.append(a)
            nxt = []
            live = self.merge_list(live) if len(live) > 1 else live
            for x in live:
                r = self.exec(s, x, fr)
                o["normal"] += r["break"]
                o["continue"] += r["continue"]
                o["return"] += r["return"]
                nxt += r["normal"]
            live = nxt
        o["normal"] += live
        if not has_default:
            ds = z3.simplify(dflt)
            if not z3.is_false(ds):
                a = st.copy()
                if not z3.is_true(ds): a.assume(dflt, "b")
                o["normal"].append(a)
        o["normal"] = self.merge_list(o["normal"])
        return o

    def mkc(self, x, v):
        if z3.is_bv(v): return z3.BitVecVal(x, v.size())
        return I(x)

    def s_ForStmt(self, n, st, fr):
        init, cond, inc, body = n["c"]
        if init is not None:
            o = self.exec(init, st, fr)
            if not o["normal"]: return o
            st = o["normal"][0]
        return self.loop(n, cond, inc, body, st, fr)

    def s_WhileStmt(self, n, st, fr):
        cond, body = n["c"]
        return self.loop(n, cond, None, body, st, fr)

    def s_DoStmt(self, n, st, fr):
        cond, body = n["c"]
        o = self.exec(body, st, fr)
        res = self.out()
        res["return"] += o["return"]
        res["normal"] += o["break"]
        for s in self.merge_list(o["normal"] + o["continue"]):
            r = self.loop(n, cond, None, body, s, fr)
            res["normal"] += r["normal"]
            res["return"] += r["return"]
        res["normal"] = self.merge_list(res["normal"])
        return res

    def s_CXXForRangeStmt(self, n, st, fr):
        rng, beg, end, cond, inc, lv, body = n["c"]
        for d in (rng, beg, end):
            if d is not None: self.exec(d, st, fr)
        full = {"k": "CompoundStmt", "l": n["l"], "c": [lv, body]}
        return self.loop(n, cond, inc, full, st, fr)

    def step(self, cond, inc, body, st, fr):
        """one guarded iteration: returns (exit_states, next_states, returns)"""
        pass

    def loop(self, n, cond, inc, body, st, fr):
        res = self.out()
        cur = [st]
        it = 0
        while cur:
            nxt = []
            for s in cur:
                if cond is not None:
                    try: c = truth(self.rv(cond, s, fr))
                    except DeadPath: continue
                    cs = z3.simplify(c)
                    if not (z3.is_true(cs) or z3.is_false(cs)) and self.solver_unroll:
                        if self.decide(s, cs): cs = TRUE
                        elif self.decide(s, Not(cs)): cs = FALSE
                else: cs = TRUE
                if z3.is_false(cs):
                    res["normal"].append(s)
                    continue
                if not z3.is_true(cs):
                    if self.bounded_unroll and it < self.bounded_unroll:
                        a = s.copy()
                        a.assume(cs, "b")
                        b = s.copy()
                        b.assume(Not(cs), "b")
                        if not self.infeasible(b): res["normal"].append(b)
                        if self.infeasible(a): continue
                        s = a
                    elif self.bounded_unroll:
                        self.was_bounded = True
                        s.assume(Not(cs))
                        res["normal"].append(s)
                        continue
                    else:
                        r = self.inv_loop(n, cond, inc, body, s, fr)
                        for k in ("normal", "return"): res[k] += r[k]
                        continue
                it += 1
                self.stats["unrolled"] += 1
                if it > self.maxunroll: raise Unsupported("loop at line %s of %s unrolled more than %d times" % (n["l"], fr.fn["q"], self.maxunroll))
                o = self.exec(body, s, fr)
                res["return"] += o["return"]
                res["normal"] += o["break"]
                for x in self.merge_list(o["normal"] + o["continue"]):
                    if inc is not None:
                        try: self.ev(inc, x, fr)
                        except DeadPath: continue
                    nxt.append(x)
            cur = self.merge_list(nxt)
        res["normal"] = self.merge_list(res["normal"])
        return res

    solver_unroll = False

    # ---------- loops with invariants
    def inv_loop(self, n, cond, inc, body, st, fr):
        import loops
        return loops.inv_loop(self, n, cond, inc, body, st, fr)

    # iterators
    def itadv(self, it, d, st, n, fr):
        if it.kind == "seq": return It(it.path, add(it.pos, I(d)), "seq")
        import models
        return models.mapit_next(self, it, st, n, fr)

    def iteq(self, x, y, st):
        if x.kind == "seq": return eqleaf(x.pos, y.pos)
        if z3.is_true(y.end): return x.end
        if z3.is_true(x.end): return y.end
        return And(eqleaf_b(x.end, y.end), Implies(Not(x.end), eqleaf(x.pos, y.pos)))


def eqleaf_b(a, b): return a == b


z3.set_param("warning", False)


def plain(a):
    while z3.is_app(a):
        k = a.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED: return True
        if k == z3.Z3_OP_SELECT: a = a.arg(0); continue
        return False
    return False


def FA(vs, body, *pats):
    """universal quantifier with a trigger when the trigger is legal"""
    if not isinstance(vs, list): vs = [vs]
    if pats and all(z3.is_select(p) and plain(p.arg(0)) for p in pats):
        try: return z3.ForAll(vs, body, patterns=list(pats))
        except z3.Z3Exception: pass
    return z3.ForAll(vs, body)
