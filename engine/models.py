"""Assumed theories of the libraries the code uses (STL containers, SystemC signals and bit vectors, libc).
Every model here is part of the trusted base; names used by a run are listed in its evidence."""
from sym import *


def install(eng):
    M = eng.models
    M["__assert_fail"] = m_assert
    M["Module::Module"] = M["TimedModule::TimedModule"] = lambda eng, st, fr, n, p, args: None  # naming only
    M["abort"] = M["exit"] = m_abort
    M["std::exit"] = m_abort
    eng.libs = set()


def m_assert(eng, st, fr, n, obj, args):
    eng.oblige(st, FALSE, "assert", n, "assert at line %s of %s" % (n.get("l"), fr.fn["q"]), fr)
    raise DeadPath()


def m_abort(eng, st, fr, n, obj, args):
    if not eng.noassert: eng.oblige(st, FALSE, "abort", n, "the simulator is not terminated (exit/abort at line %s of %s)" % (n.get("l"), fr.fn["q"]), fr)
    raise DeadPath()


def ignore(eng, st, fr, n, obj, args): return Opq("ignored")


def basecls(f, fr):
    if "cls" not in f: return None
    t = fr.tu.ty(f["cls"])
    return t.n


IGN_CLASSES = ("std::basic_ostream", "std::basic_ofstream", "std::basic_ostringstream", "std::ios_base", "std::basic_ios", "std::basic_stringstream", "std::basic_ifstream", "std::basic_istream")


def is_stream(t):
    t = t.strip()
    return t.k == "c" and t.n in IGN_CLASSES


def libcall(eng, f, obj, args, st, fr, n, arrow):
    q = f["q"]
    nm = f["n"]
    eng.trusted.add("lib:" + (q if "<" not in q else q.split("<")[0] + "::" + nm))
    cls = basecls(f, fr)
    if cls is None: return freefn(eng, f, args, st, fr, n)
    if cls in IGN_CLASSES: return Opq("stream")
    if cls.startswith("std::_Vector_base") or cls.startswith("std::_"): pass
    if cls == "std::_Bit_reference":
        p = eng.lvp(obj, st, fr)
        if nm == "operator=":
            v = truth(eng.rv(args[0], st, fr))
            eng.write(st, p, v)
            return LV(p)
        if nm.startswith("operator bool"): return eng.read(st, p)
        raise Unsupported(q)
    if cls in SIG or cls.startswith("sc_core::sc_in") or cls.startswith("sc_core::sc_out") or cls.startswith("sc_core::sc_signal") or cls.startswith("sc_core::sc_port"):
        return sigcall(eng, f, obj, args, st, fr, n, arrow)
    if cls.startswith("sc_dt::"): return bvcall(eng, f, obj, args, st, fr, n, arrow)
    # container / iterator / string: find the receiver
    oty = fr.tu.ty(obj["t"]).strip() if obj is not None else None
    if cls in ("__gnu_cxx::__normal_iterator",) or "iterator" in cls.lower() or cls.startswith("std::_List") or cls.startswith("std::_Rb_tree") or cls.startswith("std::__detail::_Node") or cls.startswith("std::_Deque"):
        return itercall(eng, f, obj, args, st, fr, n)
    if obj is not None:
        if arrow:
            pv = eng.rv(obj, st, fr)
            ot = oty.to if oty.k == "p" else oty
            p = eng.deref(pv, ot, st, n, fr)
        else:
            x = eng.ev(obj, st, fr)
            p = x.path if isinstance(x, LV) else eng.temp(st, x)
    else: p = None
    if cls in SEQ or cls.startswith("std::_Vector") : return seqcall(eng, f, p, args, st, fr, n)
    if cls == MULTI: return multicall(eng, f, p, args, st, fr, n)
    if cls in MAPS or cls in SETS: return mapcall(eng, f, p, args, st, fr, n)
    if cls == "std::pair":
        if nm == "operator=":
            eng.write(st, p, eng.rv(args[0], st, fr))
            return LV(p)
    if cls == "std::basic_string": return strcall(eng, f, p, args, st, fr, n)
    if cls == "std::function" and nm == "operator()":
        fv = eng.read(st, p)
        h = eng.models.get("indirect:std::function")
        if h: return h(eng, st, fr, n, p, args)
    raise Unsupported("library call %s line %s of %s" % (q, n.get("l"), fr.fn["q"]))


# ---------------------------------------------------------------- free functions
def realabs(v): return z3.If(v >= 0, v, -v)


def freefn(eng, f, args, st, fr, n):
    q, nm = f["q"], f["n"]
    if nm in ("operator<<", "operator>>"):
        t0 = fr.tu.ty(f["ps"][0])
        if is_stream(t0) or is_stream(t0.strip()): return Opq("stream")
    if nm in ("printf", "fprintf", "endl", "flush", "setw", "setprecision", "setfill", "fflush", "puts", "perror", "srand"): return Opq("io") if nm not in ("printf", "fprintf") else I(0)
    if nm in ("move", "forward"): return eng.ev(args[0], st, fr)
    if nm in ("min", "max"):
        a, b = [eng.rv(x, st, fr) for x in args[:2]]
        t = fr.tu.ty(f["ps"][0]).strip()
        c = eng.cmp("<", b, a, t, st, n, fr)
        if nm == "max": c = eng.cmp("<", a, b, t, st, n, fr)
        return ite(z3.simplify(c), b, a)
    if nm == "make_pair":
        a, b = [eng.rv(x, st, fr) for x in args]
        return Rec("std::pair", {"first": a, "second": b})
    if nm == "swap":
        p, r = eng.lvp(args[0], st, fr), eng.lvp(args[1], st, fr)
        a, b = eng.read(st, p), eng.read(st, r)
        eng.write(st, p, b)
        eng.write(st, r, a)
        return None
    if nm in ("ceil", "floor", "abs", "fabs", "labs", "round", "trunc"):
        v = eng.rv(args[0], st, fr)
        if nm in ("abs", "fabs", "labs"):
            if z3.is_bv(v): v = bv2i(v)
            return z3.simplify(realabs(v))
        if z3.is_int(v): return v if fr.tu.ty(n["t"]).isint else z3.ToReal(v)
        if nm == "floor" or nm == "trunc": r = z3.ToReal(z3.ToInt(v))
        elif nm == "ceil":
            r = z3.ToReal(-z3.ToInt(-v))
            w = z3.simplify(v)
            if not z3.is_rational_value(w) and v.decl().kind() == z3.Z3_OP_DIV:
                # facts of the ceiling of a quotient (instances of an arithmetic lemma)
                x, y = v.children()
                k = -z3.ToInt(-v)
                st.assume(z3.Implies(y > 0, z3.And(k * y >= x, (k - 1) * y < x, z3.Implies(z3.And(x > 0, x <= y), k == 1), z3.Implies(x > y, k >= 2), z3.Implies(x <= 0, k <= 0))))
                return r
        else: r = z3.ToReal(z3.ToInt(v + z3.RealVal("1/2")))
        return z3.simplify(r)
    if nm in ("log2", "pow", "sqrt", "log"):
        vs = [eng.rv(x, st, fr) for x in args]
        vs = [coerce(v, z3.RealSort()) for v in vs]
        vs = [z3.simplify(v) for v in vs]
        if nm == "pow" and all(z3.is_rational_value(v) for v in vs) and vs[1].denominator_as_long() == 1 and vs[1].numerator_as_long() >= 0:
            return z3.simplify(z3.RealVal(vs[0].as_fraction() ** vs[1].numerator_as_long()))
        if nm == "log2" and z3.is_rational_value(vs[0]):
            fr_ = vs[0].as_fraction()
            if fr_.denominator == 1 and fr_.numerator > 0 and fr_.numerator & (fr_.numerator - 1) == 0: return z3.RealVal(fr_.numerator.bit_length() - 1)
            if fr_ > 0:  # the double the C library computes
                import math
                from fractions import Fraction
                d = Fraction(math.log2(fr_))
                return z3.RealVal("%d/%d" % (d.numerator, d.denominator))
        F = z3.Function("libm_" + nm, *([z3.RealSort()] * (len(vs) + 1)))
        return F(*vs)
    if nm in ("fill",):
        a, b = eng.rv(args[0], st, fr), eng.rv(args[1], st, fr)
        v = eng.rv(args[2], st, fr)
        s = eng.read(st, a.path)
        if isinstance(a, It) and z3.is_int_value(a.pos) and a.pos.as_long() == 0 and b.pos.eq(s.len):
            eng.write(st, a.path, Seq(I(0), s.len, mapl_zip_const(s.elem, v)))
            return None
    if nm in ("max_element", "min_element"):
        a, b = eng.rv(args[0], st, fr), eng.rv(args[1], st, fr)
        s = eng.read(st, a.path)
        k = z3.Int(fname("ext"))
        j = z3.Int("mj")
        ek = rsel(s.elem, add(s.lo, k))
        cmpf = (lambda x, y: x <= y) if nm == "max_element" else (lambda x, y: x >= y)
        st.assume(z3.If(a.pos < b.pos, z3.And(k >= a.pos, k < b.pos, z3.ForAll([j], z3.Implies(z3.And(a.pos <= j, j < b.pos), cmpf(z3.Select(s.elem, s.lo + j), ek)))), k == b.pos))
        return It(a.path, k, "seq")
    if nm == "accumulate": raise Unsupported("accumulate")
    if nm in ("operator==", "operator!="):
        a, b = [eng.rv(x, st, fr) for x in args]
        if isinstance(a, It) and isinstance(b, It): r = eng.iteq(a, b, st)
        else: r = eqv(a, b)
        return r if nm == "operator==" else Not(r)
    if nm in ("operator+", "operator-", "operator<"):
        a, b = [eng.rv(x, st, fr) for x in args]
        if isinstance(a, It) and isinstance(b, It): return sub(a.pos, b.pos) if nm == "operator-" else a.pos < b.pos
        if isz(a) and z3.is_int(a) and isz(b): return strcat(a, b)
    if nm == "operator," : return concat(eng, [eng.rv(x, st, fr) for x in args])
    if nm == "to_string":
        v = eng.rv(args[0], st, fr)
        return z3.Function("to_string", z3.IntSort(), z3.IntSort())(eng.toint(v))
    if nm == "wait" or q.endswith("::wait"):
        h = eng.models.get("wait")
        if h: return h(eng, st, fr, n, None, args)
    if nm == "rand": 
        v = z3.Int(fname("rand"))
        st.assume(v >= 0)
        return v
    raise Unsupported("library function %s line %s of %s" % (q, n.get("l"), fr.fn["q"]))


def mapl_zip_const(e, v): return zipl(e, v, lambda a, x: z3.K(a.sort().domain(), coerce(x, a.sort().range())))


_cat = None


def strcat(a, b):
    global _cat
    if _cat is None: _cat = z3.Function("strcat", z3.IntSort(), z3.IntSort(), z3.IntSort())
    return _cat(a, b)


# ---------------------------------------------------------------- constructors of library classes
def construct(eng, ty, f, args, st, fr, n):
    eng.trusted.add("lib:" + ty.n)
    nm = ty.n
    ps = [fr.tu.ty(x) for x in f["ps"]]
    args = [a for a in args if not (a["k"] in ("Construct", "CXXTemporaryObjectExpr") and fr.tu.ty(a["t"]).strip().k == "c" and fr.tu.ty(a["t"]).strip().n in ("std::allocator", "std::less"))]
    if nm in ("__gnu_cxx::__normal_iterator",) or "iterator" in nm: return eng.rv(args[0], st, fr)
    if not args: return eng.default(ty, "new") if nm not in SIG else eng.fresh(ty, "sig")
    if nm in SEQ:
        a0 = eng.rv(args[0], st, fr)
        if isinstance(a0, Seq): return a0
        if isinstance(a0, tuple) and a0[0] == "il":
            e = eng.fresh(ty.a[0], "il", (z3.IntSort(),))
            for i, v in enumerate(a0[1]): e = sto(e, I(i), v)
            return Seq(I(0), I(len(a0[1])), e)
        if isz(a0):
            cnt = eng.toint(a0)
            d = eng.rv(args[1], st, fr) if len(args) > 1 else eng.default(ty.a[0])
            if isinstance(d, Opq): d = eng.default(ty.a[0])  # the allocator argument
            if isz(d):
                s = eng.leafsort(ty.a[0])
                if s is not None and d.sort() != s: d = coerce(d, s)
            return Seq(I(0), cnt, eng.constarr(d))
        if isinstance(a0, It):
            b = eng.rv(args[1], st, fr)
            s = eng.read(st, a0.path)
            return Seq(add(s.lo, a0.pos), sub(b.pos, a0.pos), s.elem)
    if nm in MAPS or nm in SETS:
        a0 = eng.rv(args[0], st, fr)
        if isinstance(a0, MapV): return a0
        if isinstance(a0, tuple) and a0[0] == "il":
            m = eng.default(ty)
            for v in a0[1]:
                if nm in SETS: k = eng.key(v, ty.a[0]); m = MapV(z3.Store(m.dom, k, TRUE), None, m.kty, m.size + 1)
                else:
                    k = eng.key(v.f["first"], ty.a[0])
                    m = MapV(z3.Store(m.dom, k, TRUE), sto(m.vals, k, v.f["second"]), m.kty, m.size + 1)
            return m
    if nm == "std::pair":
        if len(args) == 1:
            v = eng.rv(args[0], st, fr)
            d = eng.default(ty)
            return zipl(d, v, lambda a, b: coerce(b, a.sort()))
        a, b = [eng.rv(x, st, fr) for x in args]
        d = eng.default(ty)
        return zipl(d, Rec("std::pair", {"first": a, "second": b}), lambda x, y: coerce(y, x.sort()))
    if nm == "std::basic_string":
        v = eng.rv(args[0], st, fr)
        if isinstance(v, Opq): return v
        return v
    if nm in BVS:
        v = eng.rv(args[0], st, fr)
        if isz(v): return tobv(v, ty.a[0])
        if isinstance(v, list): return tobv(concat(eng, v), ty.a[0])
    if nm in SIG: return eng.fresh(ty, "sig")
    if nm == "std::function": return eng.rv(args[0], st, fr)
    if nm in IGN_CLASSES: return Opq("stream")
    v = eng.rv(args[0], st, fr)
    if len(args) == 1: return v
    raise Unsupported("construct %r line %s" % (ty, n.get("l")))


# ---------------------------------------------------------------- sequences
def intarg(eng, a, st, fr): return eng.toint(eng.rv(a, st, fr))


def capacity_of(p): return z3.Int("capacity of %s" % p)


def seqcall(eng, f, p, args, st, fr, n):
    nm = f["n"]
    s = eng.read(st, p)
    if isinstance(s, PtrTo): p = s.path; s = eng.read(st, p)
    if not isinstance(s, Seq): raise Unsupported("sequence op %s on %s" % (nm, type(s).__name__))
    where = "line %s of %s" % (n.get("l"), fr.fn["q"])
    if nm in ("operator[]", "at"):
        i = intarg(eng, args[0], st, fr)
        eng.idx_ob(st, And(i >= 0, i < s.len) if not (isnum(i) and isnum(s.len)) else z3.BoolVal(0 <= i.as_long() < s.len.as_long()), n, "index in range at " + where, fr)
        return LV(p / ("i", i))
    if nm in ("size", "length"):
        if not eng.bv: st.assume(s.len >= 0) if not isnum(s.len) else None
        return s.len if not eng.bv else z3.Int2BV(s.len, 64)
    if nm == "empty": return eqleaf(s.len, I(0))
    if nm in ("front", "top" if False else "front"):
        eng.oblige(st, z3.simplify(s.len > 0), "index", n, "front() of a non-empty container at " + where, fr)
        return LV(p / ("i", I(0)))
    if nm in ("back", "top"):
        eng.oblige(st, z3.simplify(s.len > 0), "index", n, "back() of a non-empty container at " + where, fr)
        return LV(p / ("i", sub(s.len, I(1))))
    if nm in ("push_back", "push", "emplace_back", "emplace"):
        if nm.startswith("emplace") and len(args) != 1:
            vals = [eng.rv(a, st, fr) for a in args]
            ety = fr.tu.ty(f["cls"]).a[0]
            if ety.k == "c" and ety.n == "std::pair": v = Rec("std::pair", {"first": vals[0], "second": vals[1]})
            elif eng.isrepo(ety): v = emplace_obj(eng, ety, args, st, fr, n)
            else: raise Unsupported("emplace")
        else:
            v = eng.rv(args[0], st, fr)
            ety = fr.tu.ty(f["cls"]).a[0]
            if nm.startswith("emplace") and eng.isrepo(ety) and not isinstance(v, Rec): v = emplace_obj(eng, ety, args, st, fr, n)
        if isinstance(v, It): raise Unsupported("container of iterators")
        if isinstance(v, PtrTo):
            v = I(-999)
        cur = eng.read(st, p)
        old = sel(cur.elem, add(cur.lo, cur.len))
        eng.write(st, p, Seq(cur.lo, add(cur.len, I(1)), sto(cur.elem, add(cur.lo, cur.len), adapt(old, v))))
        if not isnum(cur.len): st.assume(cur.len >= 0)
        return LV(p / ("i", cur.len))
    if nm == "push_front":
        v = eng.rv(args[0], st, fr)
        nl = sub(s.lo, I(1))
        old = sel(s.elem, nl)
        eng.write(st, p, Seq(nl, add(s.len, I(1)), sto(s.elem, nl, adapt(old, v))))
        return None
    if nm in ("pop_front",) or (nm == "pop" and fr.tu.ty(f["cls"]).n == "std::queue"):
        eng.oblige(st, z3.simplify(s.len > 0), "index", n, "pop of a non-empty container at " + where, fr)
        eng.write(st, p, Seq(add(s.lo, I(1)), sub(s.len, I(1)), s.elem))
        return None
    if nm in ("pop_back", "pop"):
        eng.oblige(st, z3.simplify(s.len > 0), "index", n, "pop of a non-empty container at " + where, fr)
        eng.write(st, p, Seq(s.lo, sub(s.len, I(1)), s.elem))
        return None
    if nm == "clear":
        eng.write(st, p, Seq(s.lo, I(0), s.elem))
        return None
    if nm in ("begin", "cbegin"): return It(p, I(0), "seq")
    if nm in ("end", "cend"): return It(p, s.len, "seq")
    if nm == "capacity":          # constant per container: only pushes beyond it change it
        c = capacity_of(p)
        st.assume(c >= 0)
        return c
    if nm in ("reserve", "shrink_to_fit"): 
        if args: eng.rv(args[0], st, fr)
        return None
    if nm in ("resize", "assign") and isz(eng_peek(eng, args[0], st, fr)):
        cnt = intarg(eng, args[0], st, fr)
        ety = fr.tu.ty(f["cls"]).a[0]
        d = eng.rv(args[1], st, fr) if len(args) > 1 else eng.default(ety)
        if isz(d):
            ss = eng.leafsort(ety)
            if ss is not None and d.sort() != ss: d = coerce(d, ss)
        if nm == "assign" or (isnum(s.len) and s.len.as_long() == 0):
            eng.write(st, p, Seq(I(0), cnt, eng.constarr(shapeas(eng, ety, d))))
            return None
        dd = shapeas(eng, ety, d)
        ne = eng.fresh(ety, "rs", (z3.IntSort(),))
        j = z3.Int("rj")
        end = add(s.lo, s.len)
        def ax(a, b): return a
        pairs = list(zip(leaves(ne), leaves(s.elem), leaves(eng.constarr(dd))))
        for (pa, x), (pb, o), (pc, c) in pairs:
            st.assume(FA([j], z3.Select(x, j) == z3.If(j < end, z3.Select(o, j), z3.Select(c, j)), z3.Select(x, j)))
        eng.write(st, p, Seq(s.lo, cnt, ne))
        return None
    if nm == "erase":
        it = eng.rv(args[0], st, fr)
        if len(args) == 2:
            e2 = eng.rv(args[1], st, fr)
            raise Unsupported("range erase")
        i = it.pos
        eng.oblige(st, z3.simplify(And(i >= 0, i < s.len)), "index", n, "erase position in range at " + where, fr)
        if z3.is_int_value(i) and i.as_long() == 0:
            eng.write(st, p, Seq(add(s.lo, I(1)), sub(s.len, I(1)), s.elem))
            return It(p, I(0), "seq")
        def shift(a):
            b = z3.Const(fname("er"), a.sort())
            j = z3.Int("ej")
            pos = add(s.lo, i)
            st.assume(FA([j], z3.Select(b, j) == z3.If(j < pos, z3.Select(a, j), z3.Select(a, j + 1)), z3.Select(b, j)))
            return b
        eng.write(st, p, Seq(s.lo, sub(s.len, I(1)), mapl(s.elem, shift)))
        return It(p, i, "seq")
    if nm == "insert":
        it = eng.rv(args[0], st, fr)
        v = eng.rv(args[1], st, fr)
        if isinstance(v, It): raise Unsupported("range insert")
        i = it.pos
        if i.eq(s.len):
            old = sel(s.elem, add(s.lo, s.len))
            eng.write(st, p, Seq(s.lo, add(s.len, I(1)), sto(s.elem, add(s.lo, s.len), adapt(old, v))))
            return It(p, i, "seq")
        pos = add(s.lo, i)
        def shift(a, x):
            b = z3.Const(fname("ins"), a.sort())
            j = z3.Int("ij")
            st.assume(FA([j], z3.Select(b, j) == z3.If(j < pos, z3.Select(a, j), z3.If(j == pos, coerce(x, a.sort().range()), z3.Select(a, j - 1))), z3.Select(b, j)))
            return b
        eng.write(st, p, Seq(s.lo, add(s.len, I(1)), zipl(s.elem, v, shift)))
        return It(p, i, "seq")
    if nm == "operator=":
        v = eng.rv(args[0], st, fr)
        eng.write(st, p, v)
        return LV(p)
    if nm == "init" :  # sc_vector
        cnt = intarg(eng, args[0], st, fr)
        eng.write(st, p, Seq(I(0), cnt, s.elem))
        return None
    if nm == "swap":
        p2 = eng.lvp(args[0], st, fr)
        a, b = s, eng.read(st, p2)
        eng.write(st, p, b)
        eng.write(st, p2, a)
        return None
    if nm == "fill":
        v = eng.rv(args[0], st, fr)
        eng.write(st, p, Seq(s.lo, s.len, mapl_zip_const(s.elem, v)))
        return None
    raise Unsupported("sequence op %s line %s" % (nm, n.get("l")))


def shapeas(eng, ety, d):
    if isz(d):
        s = eng.leafsort(ety)
        if s is not None and d.sort() != s: return coerce(d, s)
        if ety.k == "c" and ety.n in BVS: return tobv(d, ety.a[0])
    return d


def eng_peek(eng, a, st, fr):
    s = st.copy()
    eng.dry += 1
    try: return eng.rv(a, s, fr)
    finally: eng.dry -= 1


def emplace_obj(eng, ety, args, st, fr, n):
    cand = [g for g in eng.prog.fq.get(ety.n + "::" + ety.n.split("::")[-1], []) if g.get("ctor") and len(g["ps"]) == len(args)]
    if len(cand) != 1: raise Unsupported("emplace of %r" % ety)
    p = eng.temp(st, eng.fresh(ety, "emp"))
    av = eng.eval_args(cand[0], args, st, fr)
    eng.call_fn(cand[0], av, p, st, fr, n)
    return eng.read(st, p)


def adapt(old, v):
    """coerce a value to the element shape"""
    if isz(old) and isz(v): return coerce(v, old.sort())
    if isinstance(old, Rec) and isinstance(v, Rec) and set(old.f) != set(v.f): return Rec(old.name, {k: v.f.get(k, x) for k, x in old.f.items()})
    return v


# ---------------------------------------------------------------- iterators
def itercall(eng, f, obj, args, st, fr, n):
    nm = f["n"]
    if nm in ("operator==", "operator!="):
        a, b = eng.rv(obj, st, fr), eng.rv(args[0], st, fr)
        r = eng.iteq(a, b, st)
        return r if nm == "operator==" else Not(r)
    if nm in ("operator++", "operator--"):
        p = eng.lvp(obj, st, fr)
        it = eng.read(st, p)
        new = eng.itadv(it, 1 if nm == "operator++" else -1, st, n, fr)
        eng.write(st, p, new)
        return it if args else LV(p)
    if nm == "operator->":
        it = eng.rv(obj, st, fr)
        return it
    if nm == "operator*":
        it = eng.rv(obj, st, fr)
        if it.kind == "map":
            m = eng.read(st, it.path)
            eng.oblige(st, Not(it.end), "index", n, "map iterator dereferenced is not end()", fr)
            k = eng.unkey(it.pos, m.kty)
            if m.vals is None: return k
            return Rec("std::pair", {"first": k, "second": sel(m.vals, it.pos)})
        return LV(eng.itpath(it, st, n, fr))
    if nm in ("operator+", "operator-", "operator+=", "operator-="):
        it = eng.rv(obj, st, fr)
        k = eng.rv(args[0], st, fr)
        if isinstance(k, It): return sub(it.pos, k.pos)
        k = eng.toint(k)
        r = It(it.path, add(it.pos, k) if "+" in nm else sub(it.pos, k), "seq")
        if nm.endswith("="):
            p = eng.lvp(obj, st, fr)
            eng.write(st, p, r)
            return LV(p)
        return r
    if nm == "operator[]":
        it = eng.rv(obj, st, fr)
        k = intarg(eng, args[0], st, fr)
        return LV(eng.itpath(It(it.path, add(it.pos, k), "seq"), st, n, fr))
    if nm == "operator=":
        p = eng.lvp(obj, st, fr)
        v = eng.rv(args[0], st, fr)
        st.store[p.root] = v if not p.steps else st.store[p.root]
        if p.steps: eng.write(st, p, v)
        return LV(p)
    if nm == "base": return eng.rv(obj, st, fr)
    raise Unsupported("iterator op %s line %s" % (nm, n.get("l")))


# ---------------------------------------------------------------- maps
def klt(a, b):
    """strict order of keys"""
    if z3.is_int(a) or z3.is_real(a): return a < b
    if z3.is_bv(a): return z3.ULT(a, b)
    # tuples: lexicographic
    s = a.sort()
    acc = FALSE
    n = s.constructor(0).arity()
    for i in reversed(range(n)):
        x, y = s.accessor(0, i)(a), s.accessor(0, i)(b)
        acc = z3.Or(klt(x, y), z3.And(x == y, acc))
    return acc


def multicall(eng, f, p, args, st, fr, n):
    """std::multimap: find() returns the first inserted of the equal keys, insert() appends after them (C++11)"""
    nm = f["n"]
    m = eng.read(st, p)
    if nm == "insert" and len(args) == 1:
        v = eng.rv(args[0], st, fr)
        k = eng.key(v.f["first"], m.kty)
        s = sel(m.vals, k)
        st.assume(s.len >= 0)
        old = sel(s.elem, add(s.lo, s.len))
        eng.write(st, p / ("k", k), Seq(s.lo, add(s.len, I(1)), sto(s.elem, add(s.lo, s.len), adapt(old, v.f["second"]))))
        return Opq("iterator")
    if nm == "find":
        k = eng.key(eng.rv(args[0], st, fr), m.kty)
        st.assume(sel(m.vals, k).len >= 0)
        return It(p, k, "map", z3.Not(sel(m.vals, k).len > 0))
    if nm == "count": return sel(m.vals, eng.key(eng.rv(args[0], st, fr), m.kty)).len
    if nm == "end": return It(p, z3.Const(fname("endk"), m.dom.sort().domain()), "map", TRUE)
    if nm == "erase":
        a = eng.rv(args[0], st, fr)
        if not isinstance(a, It): raise Unsupported("multimap erase by key")
        eng.oblige(st, z3.simplify(Not(a.end)), "index", n, "erase of a valid iterator at line %s of %s" % (n.get("l"), fr.fn["q"]), fr)
        s = sel(m.vals, a.pos)
        eng.write(st, p / ("k", a.pos), Seq(add(s.lo, I(1)), sub(s.len, I(1)), s.elem))
        return Opq("iterator")
    raise Unsupported("multimap op %s line %s" % (nm, n.get("l")))


def mapcall(eng, f, p, args, st, fr, n):
    nm = f["n"]
    m = eng.read(st, p)
    if isinstance(m, PtrTo): p = m.path; m = eng.read(st, p)
    if not isinstance(m, MapV): raise Unsupported("map op on %s" % type(m).__name__)
    cty = fr.tu.ty(f["cls"])
    isset = m.vals is None
    kk = lambda a: eng.key(eng.rv(a, st, fr), m.kty)
    where = "line %s of %s" % (n.get("l"), fr.fn["q"])
    if nm == "operator[]":
        k = kk(args[0])
        has = rsel(m.dom, k)
        if not z3.is_true(z3.simplify(has)):
            d = eng.default(cty.a[1])
            old = sel(m.vals, k)
            nv = zipl(old, d, lambda a, b: ite(has, a, b))
            m = MapV(z3.Store(m.dom, k, TRUE), sto(m.vals, k, nv), m.kty, m.size + ite(has, I(0), I(1)))
            eng.write(st, p, m)
        return LV(p / ("k", k))
    if nm == "at":
        k = kk(args[0])
        eng.oblige(st, rsel(m.dom, k), "index", n, "map::at key present at " + where, fr)
        return LV(p / ("k", k))
    if nm in ("find",):
        k = kk(args[0])
        return It(p, k, "map", Not(rsel(m.dom, k)))
    if nm == "count": return b2i(rsel(m.dom, kk(args[0]))) if not eng.bv else tobv(rsel(m.dom, kk(args[0])), 64)
    if nm == "end": return It(p, z3.Const(fname("endk"), m.dom.sort().domain()), "map", TRUE)
    if nm == "begin":
        k = z3.Const(fname("bk"), m.dom.sort().domain())
        e = z3.Const(fname("be"), z3.BoolSort())
        j = z3.Const("bj", m.dom.sort().domain())
        st.assume(FA([j], z3.Implies(z3.Select(m.dom, j), z3.And(z3.Not(e), z3.Or(j == k, klt(k, j)))), z3.Select(m.dom, j)))
        st.assume(z3.Or(e, z3.Select(m.dom, k)))
        return It(p, k, "map", e)
    if nm in ("empty", "size"):
        if nm == "empty":
            e = z3.Const(fname("emp"), z3.BoolSort())
            j = z3.Const("bj", m.dom.sort().domain())
            w = z3.Const(fname("ew"), m.dom.sort().domain())
            st.assume(z3.Implies(e, FA([j], z3.Not(z3.Select(m.dom, j)), z3.Select(m.dom, j))))
            st.assume(z3.Implies(z3.Not(e), z3.Select(m.dom, w)))
            st.assume(e == (m.size == 0))
            st.assume(m.size >= 0)
            return e
        st.assume(m.size >= 0)
        return m.size
    if nm in ("insert", "emplace"):
        if len(args) == 2 and nm == "insert":
            a1 = eng.rv(args[1], st, fr)
            a0 = eng.rv(args[0], st, fr)
            v = a1
        elif len(args) == 2: v = Rec("std::pair", {"first": eng.rv(args[0], st, fr), "second": eng.rv(args[1], st, fr)})
        else: v = eng.rv(args[0], st, fr)
        m = eng.read(st, p)
        if isset:
            k = eng.key(v, m.kty)
            has = rsel(m.dom, k)
            eng.write(st, p, MapV(z3.Store(m.dom, k, TRUE), None, m.kty, m.size + ite(has, I(0), I(1))))
        else:
            k = eng.key(v.f["first"], m.kty)
            has = rsel(m.dom, k)
            old = sel(m.vals, k)
            nv = zipl(old, v.f["second"], lambda a, b: ite(has, a, coerce(b, a.sort())))
            eng.write(st, p, MapV(z3.Store(m.dom, k, TRUE), sto(m.vals, k, nv), m.kty, m.size + ite(has, I(0), I(1))))
        return Rec("std::pair", {"first": It(p, k, "map", FALSE), "second": Not(has)})
    if nm == "erase":
        a = eng.rv(args[0], st, fr)
        if isinstance(a, It):
            eng.oblige(st, z3.simplify(Not(a.end)), "index", n, "erase of a valid iterator at " + where, fr)
            nx = mapit_next(eng, a, st, n, fr)
            eng.write(st, p, MapV(z3.Store(m.dom, a.pos, FALSE), m.vals, m.kty, m.size - 1))
            return nx
        k = eng.key(a, m.kty)
        has = rsel(m.dom, k)
        eng.write(st, p, MapV(z3.Store(m.dom, k, FALSE), m.vals, m.kty, m.size - ite(has, I(1), I(0))))
        return b2i(has)
    if nm == "clear":
        eng.write(st, p, MapV(z3.K(m.dom.sort().domain(), FALSE), m.vals, m.kty, I(0)))
        return None
    if nm in ("lower_bound", "upper_bound"):
        k0 = kk(args[0])
        k = z3.Const(fname("lb"), m.dom.sort().domain())
        e = z3.Const(fname("lbe"), z3.BoolSort())
        j = z3.Const("bj", m.dom.sort().domain())
        ge = (lambda a, b: z3.Or(a == b, klt(b, a))) if nm == "lower_bound" else (lambda a, b: klt(b, a))
        st.assume(FA([j], z3.Implies(z3.And(z3.Select(m.dom, j), ge(j, k0)), z3.And(z3.Not(e), z3.Or(j == k, klt(k, j)))), z3.Select(m.dom, j)))
        st.assume(z3.Or(e, z3.And(z3.Select(m.dom, k), ge(k, k0))))
        return It(p, k, "map", e)
    if nm == "operator=":
        eng.write(st, p, eng.rv(args[0], st, fr))
        return LV(p)
    raise Unsupported("map op %s line %s" % (nm, n.get("l")))


def mapit_next(eng, it, st, n, fr):
    m = eng.read(st, it.path)
    k = z3.Const(fname("nk"), m.dom.sort().domain())
    e = z3.Const(fname("ne"), z3.BoolSort())
    j = z3.Const("bj", m.dom.sort().domain())
    st.assume(FA([j], z3.Implies(z3.And(z3.Select(m.dom, j), klt(it.pos, j)), z3.And(z3.Not(e), z3.Or(j == k, klt(k, j)))), z3.Select(m.dom, j)))
    st.assume(z3.Or(e, z3.And(z3.Select(m.dom, k), klt(it.pos, k))))
    return It(it.path, k, "map", e)


# ---------------------------------------------------------------- strings (opaque identities)
SUBSTR = z3.Function("substr", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())


def strcall(eng, f, p, args, st, fr, n):
    nm = f["n"]
    v = eng.read(st, p)
    if nm == "operator=":
        eng.write(st, p, eng.rv(args[0], st, fr))
        return LV(p)
    if nm in ("c_str", "data"): return v
    if nm in ("operator+=", "append"):
        eng.write(st, p, strcat(v, eng.rv(args[0], st, fr)))
        return LV(p)
    if nm == "operator==": return v == eng.rv(args[0], st, fr)
    if nm in ("length", "size"):
        for sv, l in getattr(eng, "strlens", ()):     # lengths the unit's precondition fixes
            if v.eq(sv): return I(l)
        r = z3.Function("strlen", z3.IntSort(), z3.IntSort())(v)
        st.assume(r >= 0)
        return r
    if nm == "empty": return v == strid("")
    if nm == "substr" and len(args) == 2:
        a = [eng.rv(x, st, fr) for x in args]
        if all(isz(x) and z3.is_int(x) for x in a): return SUBSTR(v, a[0], a[1])
    raise Unsupported("string op %s line %s" % (nm, n.get("l")))


# ---------------------------------------------------------------- SystemC signals / ports
def sigcall(eng, f, obj, args, st, fr, n, arrow):
    nm = f["n"]
    if arrow:
        pv = eng.rv(obj, st, fr)
        ot = fr.tu.ty(obj["t"]).strip()
        p = eng.deref(pv, ot.to if ot.k == "p" else ot, st, n, fr)
    else: p = eng.lvp(obj, st, fr)
    v = eng.read(st, p)
    if nm in ("read", "get_data_ref", "get_new_value") or nm.startswith("operator const") or nm in ("operator bool",):
        c = eng.read(st, p.fld("cur"))
        eng.tyinv(c, st, n, fr)
        return c
    if nm in ("write", "operator="):
        x = eng.rv(args[0], st, fr)
        if isinstance(x, Rec) and x.name == "sig": x = x.f["cur"]
        old = eng.read(st, p.fld("nxt"))
        if isz(old) and isz(x):
            if z3.is_bv(old): x = tobv(x, old.size())
            else: x = coerce(x, old.sort())
        eng.write(st, p.fld("nxt"), x)
        return LV(p)
    if nm in ("bind", "operator()"): return None
    raise Unsupported("signal op %s line %s" % (nm, n.get("l")))


# ---------------------------------------------------------------- SystemC bit vectors
def bvof(eng, node, st, fr):
    v = eng.rv(node, st, fr)
    return v


def concat(eng, vs):
    l = []
    for v in vs:
        if isinstance(v, list): l += v
        else: l.append(v)
    bvs = []
    for v in l:
        if z3.is_bool(v): bvs.append(tobv(v, 1))
        elif z3.is_bv(v): bvs.append(v)
        else: raise Unsupported("concat of non bit-vector")
    return z3.simplify(z3.Concat(*bvs)) if len(bvs) > 1 else bvs[0]


def as_num(v):
    if z3.is_bv_value(v): return v.as_long()
    if z3.is_int_value(v): return v.as_long()
    v = z3.simplify(v)
    if z3.is_bv_value(v) or z3.is_int_value(v): return v.as_long()
    return None


def bvcall(eng, f, obj, args, st, fr, n, arrow=False):
    nm = f["n"]
    if arrow:
        pv = eng.rv(obj, st, fr)
        while obj["k"] in ("Cast", "ParenExpr") and obj.get("ck") in ("DerivedToBase", "UncheckedDerivedToBase", "NoOp", "LValueToRValue", None): obj = obj["c"][0]
        ot = fr.tu.ty(obj["t"]).strip()
        ob = LV(eng.deref(pv, ot.to if ot.k == "p" else ot, st, n, fr))
    else: ob = eng.ev(obj, st, fr)
    if nm in ("range", "operator()", "operator[]", "bit"):
        p = ob.path if isinstance(ob, LV) else eng.temp(st, ob)
        v = eng.read(st, p)
        if not z3.is_bv(v): raise Unsupported("range of non bv")
        idx = [eng.toint(eng.rv(a, st, fr)) for a in args]
        hi, lo = (idx[0], idx[0]) if len(idx) == 1 else (idx[0], idx[1])
        h, l = as_num(hi), as_num(lo)
        if h is None or l is None:
            # case analysis over a bounded index: width must be decided
            w = as_num(z3.simplify(hi - lo))
            hx = eng.models.get("bvrange")
            if hx: return hx(eng, st, fr, n, p, hi, lo)
            raise Unsupported("symbolic bit range line %s of %s" % (n.get("l"), fr.fn["q"]))
        if not (0 <= l <= h < v.size()):
            eng.oblige(st, FALSE, "index", n, "bit range [%d:%d] within a %d-bit vector, line %s of %s" % (h, l, v.size(), n.get("l"), fr.fn["q"]), fr)
            raise DeadPath()
        if p.steps and p.steps[-1][0] == "b":
            _, h0, l0 = p.steps[-1]
            return LV(Path(p.root, p.steps[:-1]) / ("b", l0 + h, l0 + l))
        return LV(p / ("b", h, l))
    if nm in ("to_uint", "to_uint64", "to_ulong", "to_int", "to_int64", "to_long", "value", "operator unsigned long long", "operator long long", "to_bool") or nm.startswith("operator "):
        if nm.startswith("operator ") and args: pass
        elif not nm.startswith("operator=") :
            v = eng.rval(ob, st)
            w = 64 if "64" in nm or "long" in nm else 32
            t = fr.tu.ty(n["t"])
            if t.isbool: return v != 0
            if v.size() < w: return v if not ("int" in nm and v.size() == w) else v
            return tobv(v, w)
    if nm == "operator=":
        x = eng.rv(args[0], st, fr)
        if isinstance(x, list): x = concat(eng, x)
        if isinstance(x, Rec) and x.name == "sig": x = x.f["cur"]
        v = eng.read(st, ob.path)
        eng.write(st, ob.path, tobv(x, v.size()))
        return ob
    if nm in ("or_reduce", "and_reduce", "xor_reduce", "nor_reduce", "nand_reduce"):
        v = eng.rval(ob, st)
        if nm == "or_reduce": return v != 0
        if nm == "nor_reduce": return v == 0
        if nm == "and_reduce": return v == z3.BitVecVal(-1, v.size())
        raise Unsupported(nm)
    if nm == "length": return I(eng.rval(ob, st).size())
    v = eng.rval(ob, st)
    if nm in ("operator==", "operator!="):
        y = eng.rv(args[0], st, fr)
        r = eqleaf(v, y)
        return r if nm == "operator==" else Not(r)
    if nm in ("operator&", "operator|", "operator^"):
        y = tobv(eng.rv(args[0], st, fr), v.size())
        return {"&": v & y, "|": v | y, "^": v ^ y}[nm[-1]]
    if nm in ("operator&=", "operator|=", "operator^="):
        y = tobv(eng.rv(args[0], st, fr), v.size())
        eng.write(st, ob.path, {"&": v & y, "|": v | y, "^": v ^ y}[nm[-2]])
        return ob
    if nm in ("operator<<", "operator>>"):
        y = tobv(eng.rv(args[0], st, fr), v.size())
        return v << y if nm == "operator<<" else z3.LShR(v, y)
    if nm == "operator~": return ~v
    raise Unsupported("bit-vector op %s line %s" % (f["q"], n.get("l")))
