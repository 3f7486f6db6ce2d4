"""Contracts, verification units and obligation discharge."""
import z3, time, os, sys, traceback, subprocess, tempfile, multiprocessing
sys.setrecursionlimit(20000)
from sym import *
import sym


class View:
    """read-only sugar over the value found at a path in a state"""

    def __init__(self, eng, st, path, val=None):
        object.__setattr__(self, "_e", (eng, st, path, val))

    @property
    def val(self):
        eng, st, path, val = self._e
        return val if val is not None else eng.read(st, path)

    def _w(self, v):
        eng, st, path, _ = self._e
        if isz(v): return v
        if isinstance(v, (Rec, Seq, MapV)): return View(eng, st, None, v)
        if isinstance(v, PtrTo): return View(eng, st, v.path)
        return v

    def __getattr__(self, n):
        v = self.val
        if isinstance(v, Rec):
            if n in v.f: return self._w(v.f[n])
            raise Unsupported("contract refers to the member %s, which %s does not have" % (n, v.name))
        if isinstance(v, Seq):
            if n == "len": return v.len
            if n == "lo": return v.lo
        if isinstance(v, MapV):
            if n == "size": return v.size
            if n == "dom": return v.dom
        raise Unsupported("contract: no attribute %s on %s" % (n, type(v).__name__))

    def __getitem__(self, i):
        v = self.val
        if isinstance(i, int): i = I(i)
        if isinstance(v, Seq): return self._w(sel(v.elem, add(v.lo, i)))
        if isinstance(v, MapV): return self._w(sel(v.vals, i))
        raise Unsupported("contract: index of %s" % type(v).__name__)

    def abs(self, a): return self._w(sel(self.val.elem, a))

    def all(self, prop):
        """prop(element, absolute position) for every element, quantified over absolute positions (clean triggers)"""
        a = z3.Int("a_abs")
        v = self.val
        return z3.ForAll([a], z3.Implies(z3.And(v.lo <= a, a < v.lo + v.len), prop(self.abs(a), a)))

    def has(self, k): return rsel(self.val.dom, k)

    def at(self, k): return self._w(sel(self.val.vals, k))

    @property
    def first(self): return self._w(self.val.f["first"])

    @property
    def second(self): return self._w(self.val.f["second"])


class Ctx:
    def __init__(self, eng, pre, post, this, args, ret=None, names=None):
        self.eng, self.pre, self.post, self.thisp, self.args, self.ret = eng, pre, post, this, args, ret
        self.names = names or {}

    @property
    def this(self): return View(self.eng, self.post, self.thisp)

    @property
    def old(self): return View(self.eng, self.pre, self.thisp)

    def arg(self, i, st=None):
        a = self.args[i]
        if isinstance(a, LV): a = self.eng.read(st or self.pre, a.path)
        if isinstance(a, (Rec, Seq, MapV)): return View(self.eng, st or self.pre, None, a)
        return a

    def argpath(self, i):
        a = self.args[i]
        return a.path if isinstance(a, (LV, PtrTo)) else None

    def obj(self, cls, ref, st=None):
        """object of class cls (a name, or an extracted type) at address ref"""
        if not isinstance(cls, str):
            ty, cls = cls, "raw:" + repr(cls)
            self.eng._raw[cls] = ty
        return View(self.eng, st or self.post, Path("heap:" + cls, (("h", ref),)))

    def oobj(self, cls, ref): return self.obj(cls, ref, self.pre)

    def g(self, name, st=None):
        self.eng.root(st or self.post, "g:" + name)
        v = self.eng.read(st or self.post, Path("g:" + name))
        return v if isz(v) else View(self.eng, st or self.post, None, v)

    def rootv(self, r, st=None):
        v = self.eng.root(st or self.post, r)
        return v if isz(v) else View(self.eng, st or self.post, None, v)


def zerolo(x):
    while z3.is_app(x) and x.decl().kind() == z3.Z3_OP_CONST_ARRAY: x = x.arg(0)
    return z3.is_int_value(x) and x.as_long() == 0


class Contract:
    def __init__(self, q, requires=None, ensures=None, modifies=None, sig=None, invs=None, setup=None, rettype=None, note=""):
        self.q, self.requires, self.ensures, self.modifies, self.sig, self.invs, self.setup = q, requires, ensures, modifies, sig, invs, setup
        self.rettype = rettype
        self.note = note

    def match(self, sig): return self.sig is None or list(self.sig) == list(sig)

    def decl(self, eng, f, fr): return f

    def apply(self, eng, this, av, st, fr, n):
        pre = st.copy()
        f = n["f"]
        c = Ctx(eng, pre, st, this, av)
        if self.requires:
            for l, g in self.requires(c): eng.oblige(st, g, "pre", n, "precondition of %s at line %s: %s" % (self.q, n.get("l"), l), fr)
        pre = st.copy()
        c.pre = pre
        if self.modifies:
            for p in self.modifies(c):
                if isinstance(p, tuple):      # (path, suffix of the leaves that change)
                    import loops
                    p, suf = p
                    v = eng.read(st, p)
                    eng.write(st, p, loops.havoc_val(v, {x for x, _ in leaves(v) if x.endswith(suf)}, "call_" + self.q.split("::")[-1]))
                    continue
                v = eng.read(st, p)
                # vectors are kept in the representation that starts at 0
                import loops
                nv = loops.havoc_val(v, {l for l, x in leaves(v) if not (l.endswith("#lo") and zerolo(x))}, "call_" + self.q.split("::")[-1])
                for pth, x in leaves(nv):
                    if pth.endswith("#len") and x.sort() == z3.IntSort(): st.assume(x >= 0)
                eng.write(st, p, nv)
        rt = fr.tu.ty(fr.tu.jt and n["t"])
        ft = fr.tu.ty(f["t"])
        ret = None
        if ft.ret is not None and not ft.ret.isvoid:
            r = ft.ret
            if self.rettype: ret = self.rettype(c)
            else:
                ret = eng.fresh(r.strip(), "ret_" + self.q.split("::")[-1])
                if isz(ret) and z3.is_int(ret):
                    if r.strip().isint and r.strip().s is False: st.assume(ret >= 0)
        c.ret = View(eng, st, None, ret) if isinstance(ret, (Rec, Seq, MapV)) else ret
        if self.ensures:
            for l, g in self.ensures(c): st.assume(g)
        return ret


class Lemma:
    """a pure obligation over contracts: goals(prog) -> [(label, formula)], valid for all values of the free constants"""

    def __init__(self, name, goals, timeout=8000):
        self.name, self.fn, self.goals, self.timeout, self.bounded = name, "lemma " + name, goals, timeout, None


class Unit:
    """one function under contract"""

    def __init__(self, name, fn, requires=None, ensures=None, invs=None, setup=None, kind="fn", params=None, cls=None, nparams=None, contracts=None, models=None, engine=None, frame=None, vacuity=True, bounded=None, timeout=8000, prop=True, after=None, unit_budget=240, prune=False, solver_unroll=False, args=None, note="", paths=1, scope=None):
        self.__dict__.update(locals())
        del self.__dict__["self"]

    def label(self): return self.name


def frame_obligations(eng, con, c, pre, s, f, f2):
    """everything outside the places the contract lists as modified is as before: the state before, with the listed places
    overwritten by their final values, equals the state after"""
    P = pre.copy()
    for p in (con.modifies(c) if con.modifies else []):
        suf = None
        if isinstance(p, tuple): p, suf = p
        v1 = eng.read(s, eng.rebase(s, p))
        if suf is not None:
            v0 = eng.read(P, p)
            new = dict(leaves(v1))
            v1 = replace_leaves(v0, lambda l, x: new.get(l, x) if l.endswith(suf) else x)
        eng.write(P, p, v1)
    for r0, v1 in s.store.items():
        if r0[0] in "LT" or r0.startswith("ev:"): continue
        v0 = P.store.get(r0)
        if v0 is None: v0 = eng.inits.get(r0)
        if v0 is None or v0 is v1: continue
        d0 = dict(leaves(v0))
        for pth, x in leaves(v1):
            y = d0.get(pth)
            if y is None or x.eq(y) or pth.endswith("#lo") and zerolo(y): continue
            goal = x == y
            if r0.startswith("heap:"):
                j_ = z3.Int("old_ref")
                goal = z3.ForAll([j_], z3.Implies(z3.And(0 <= j_, j_ < pre.nextref), z3.Select(x, j_) == z3.Select(y, j_)))
            if z3.is_true(z3.simplify(goal)): continue
            eng.oblige(s.copy(), goal, "frame", {"l": f["line"]}, "only the places listed by its contract change: %s%s" % (r0, pth), f2)


def replace_leaves(v, fn, p=""):
    if isz(v): return fn(p, v)
    if isinstance(v, Rec): return Rec(v.name, {k: replace_leaves(x, fn, p + "." + k) for k, x in v.f.items()})
    if isinstance(v, Seq): return Seq(replace_leaves(v.lo, fn, p + ".#lo"), replace_leaves(v.len, fn, p + ".#len"), replace_leaves(v.elem, fn, p + "[]"))
    if isinstance(v, MapV): return MapV(replace_leaves(v.dom, fn, p + ".#dom"), replace_leaves(v.vals, fn, p + "[]") if v.vals is not None else None, v.kty, replace_leaves(v.size, fn, p + ".#size"))
    return v


def attach_frames(groups):
    """every unit also proves the frame of the contracts by which other units call its function; groups: lists of units that
    share their sources (contracts are matched inside a group first). Returns the contracts no unit proves."""
    missing = set()
    every = [u for us in groups for u in us if not isinstance(u, Lemma)]
    for u in every: u.frame_contracts = []
    def attach(c, us):
        hit = False
        for u in us:
            if isinstance(u, Lemma) or u.fn != c.q or u.kind == "process" or c.sig is not None and u.params is not None and list(c.sig) != list(u.params): continue
            if not any(x is c for x in u.frame_contracts): u.frame_contracts.append(c)
            hit = True
        return hit
    for us in groups:
        for u in us:
            if isinstance(u, Lemma): continue
            for c in u.contracts or []:
                if not attach(c, us) and not attach(c, every): missing.add(c.q)
    return sorted(missing)


def conjuncts(g):
    if z3.is_and(g): return [y for x in g.children() for y in conjuncts(x)]
    if z3.is_implies(g): return [z3.Implies(g.arg(0), x) for x in conjuncts(g.arg(1))]
    return [g]


def discharge(obs, timeout, budget):
    """decide every obligation; returns nothing, sets status"""
    t_end = time.time() + budget
    for o in obs:
        if o.status is not None: continue
        t0 = time.time()
        if t0 > t_end:
            o.status = "unknown"
            o.reason = "unit time budget exhausted"
            continue
        g = o.goal
        if z3.is_true(g):
            o.status, o.backend = "proved", "syntactic"
            continue
        r, backend, model, reason = prove([a for _, a in o.pc], g, timeout, t_end)
        o.time = time.time() - t0
        o.backend = backend
        o.reason = reason
        o.status = {"unsat": "proved", "sat": "failed", "unknown": "unknown"}[r]
        o.model = model


def prove(pc, g, timeout, t_end):
    res = solve(pc, g, timeout, True)
    if res[0] != "unknown": return res
    gs = conjuncts(g)            # the conjuncts of the goal, one at a time
    left = []
    for x in gs:
        res = solve(pc, x, timeout, True) if len(gs) > 1 else res
        if res[0] == "sat": return res
        if res[0] == "unknown": left.append(x)
        if time.time() > t_end: return res
    for x in left:
        r2 = cases(pc, x, timeout, min(t_end, time.time() + 90), 6)
        if r2[0] == "unknown": r2 = solve(pc, x, timeout)
        if r2[0] != "unsat": return r2
        res = r2
    return "unsat", res[1] + (" (split)" if len(gs) > 1 else ""), None, ""


def atoms(c, out):
    if z3.is_and(c) or z3.is_or(c) or z3.is_not(c) or z3.is_implies(c):
        for x in c.children(): atoms(x, out)
    elif not z3.is_true(c) and not z3.is_false(c) and not z3.is_quantifier(c) and not (z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ITE): out.append(c)


def hasvar(e, memo):
    k = e.get_id()
    if k in memo: return memo[k]
    r = z3.is_var(e) or any(hasvar(x, memo) for x in (e.children() if not z3.is_quantifier(e) else []))
    memo[k] = r
    return r


def split_atom(fs):
    """the condition that decides most choices between paths"""
    seen, cnt, memo = set(), {}, {}
    stack = list(fs)
    while stack:
        e = stack.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_quantifier(e): stack.append(e.body()); continue
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE and not z3.is_bool(e):
            l = []
            atoms(e.arg(0), l)
            for x in l:
                if not hasvar(x, memo): cnt[x.get_id()] = (cnt.get(x.get_id(), (0,))[0] + 1, x)
        stack.extend(e.children())
    return max(cnt.values(), key=lambda p: (p[0], -p[1].get_id()))[1] if cnt else None


def cases(pc, g, timeout, t_end, depth):
    """case split on path conditions"""
    if depth == 0 or time.time() > t_end: return "unknown", "z3+cvc5", None, "case split exhausted"
    pc = [z3.simplify(x) for x in pc]
    g = z3.simplify(g)
    c = split_atom([g]) if True else None
    if c is None: c = split_atom(pc)
    if c is None: return "unknown", "z3+cvc5", None, "nothing to split"
    back = None
    for v in (True, False):
        sub = (c, z3.BoolVal(v))
        p2 = [z3.simplify(z3.substitute(x, sub)) for x in pc] + [c if v else z3.Not(c)]
        p2 = [x for x in p2 if not z3.is_true(x)]
        if any(z3.is_false(x) for x in p2): continue
        g2 = z3.simplify(z3.substitute(g, sub))
        r = solve(p2, g2, timeout, True)
        if r[0] == "unknown": r = cases(p2, g2, timeout, t_end, depth - 1)
        if r[0] != "unsat": return r
        back = r
    return "unsat", (back[1] if back else "syntactic") + (" (cases)" if back and "(cases)" not in back[1] else ""), None, ""


def solve(pc, g, timeout, short=False):
    s = z3.Solver()
    s.set("timeout", min(timeout, 1200))
    for a in pc: s.add(a)
    s.add(Not(g))
    r = s.check()
    if r == z3.unsat: return "unsat", "z3-5.3.2", None, ""
    if r == z3.sat: return "sat", "z3-5.3.2", s.model(), ""
    def variant(opts, ms):
        s2 = z3.SimpleSolver()
        try:
            for k, v in opts.items(): s2.set(k.replace("smt.", ""), v)
        except z3.Z3Exception: pass
        s2.set("timeout", ms)
        for a in pc: s2.add(a)
        s2.add(Not(g))
        return s2.check(), s2, "z3-5.3.2(%s)" % ",".join("%s=%s" % kv for kv in opts.items())
    r2, s2, nm = variant({"smt.mbqi": False, "smt.random_seed": 7}, min(timeout, 3000))
    if r2 == z3.unsat: return "unsat", nm, None, ""
    # cvc5 on the exported query
    sx = z3.Solver()      # a fresh one: after check() the assertions come out preprocessed
    for a in pc: sx.add(a)
    sx.add(Not(g))
    txt = "(set-logic ALL)\n" + sx.to_smt2().replace("(check-sat)", "") + "\n(check-sat)\n"

    def cvc(ms):
        try:
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
                f.write(txt)
                name = f.name
            try:
                p = subprocess.run(["cvc5", "--tlimit=%d" % ms, name], capture_output=True, text=True, timeout=ms / 1000 + 5)
                return p.stdout.strip().split("\n")[0]
            finally: os.unlink(name)
        except Exception as e: return "unknown"
    if cvc(3000) == "unsat": return "unsat", "cvc5-1.1.2", None, ""
    if short: return "unknown", "z3+cvc5", None, s.reason_unknown()
    # further attempts: no model-based quantifier instantiation, other seeds
    for opts in ({"smt.mbqi": False, "smt.random_seed": 7}, {"smt.arith.solver": 2, "smt.random_seed": 3}):
        r2, s2, nm = variant(opts, timeout)
        if r2 == z3.unsat: return "unsat", nm, None, ""
        if r2 == z3.sat: return "sat", "z3-5.3.2", s2.model(), ""
    if cvc(timeout) == "unsat": return "unsat", "cvc5-1.1.2", None, ""
    return "unknown", "z3+cvc5", None, s.reason_unknown()


def mkengine(prog, u, mode_opts=None):
    o = dict(u.engine or {})
    if mode_opts: o.update(mode_opts)
    attrs = o.pop("attrs", {})
    e = Engine(prog, **o)
    for k, v in attrs.items(): setattr(e, k, v)
    e.prune = u.prune
    e.solver_unroll = u.solver_unroll
    for c in (u.contracts or []): e.contracts.setdefault(c.q, []).append(c)
    for k, v in (u.models or {}).items(): e.models[k] = v
    return e


def run_unit(prog, u, mode=None):
    """returns a result dict; u.scope(True/False), where given, brackets the unit (predicates kept opaque inside it)"""
    if getattr(u, "scope", None):
        u.scope(True)
        try: return run_unit1(prog, u, mode)
        finally: u.scope(False)
    return run_unit1(prog, u, mode)


def run_unit1(prog, u, mode=None):
    t0 = time.time()
    res = {"unit": u.name, "fn": u.fn, "status": "proved", "obs": [], "error": None, "trusted": [], "inlined": [], "mode": mode or "unbounded", "loops": [], "bounded": False}
    if isinstance(u, Lemma):
        try:
            for l, g in u.goals(prog):
                o = Ob(l, "lemma", 0, u.fn, [], g)
                discharge([o], u.timeout, 240)
                d = {"label": o.label, "kind": o.kind, "line": 0, "fn": u.fn, "status": o.status, "time": round(o.time or 0, 3), "backend": o.backend, "reason": o.reason}
                if o.status != "proved":
                    d["goal"] = str(o.goal)[:1500]
                    if o.model is not None: d["model"] = model_str(o.model)
                    res["status"] = "failed"
                res["obs"].append(d)
        except Exception as e: res["status"], res["error"] = "unsupported", str(e)
        res["wall"] = round(time.time() - t0, 2)
        return res
    try:
        eng = mkengine(prog, u, (u.bounded or {}).get("engine") if mode == "bounded" else None)
        if mode == "bounded": eng.bounded_unroll = (u.bounded or {}).get("unroll", 6)
        eng.deadline = time.time() + u.unit_budget
        eng.keep_paths = u.paths
        eng.cur = u.fn
        eng.mode = mode
        f = prog.find(u.fn, nparams=u.nparams, params=u.params, cls=u.cls)
        tu = f["tu"]
        st = State()
        st.assume(st.nextref >= 1)
        this = None
        if "cls" in f and not f.get("static"):
            this = Path("this")
            st.store["this"] = eng.fresh(tu.ty(f["cls"]), "this")
            eng.inits["this"] = st.store["this"]
        av = []
        for p in f["ps"]:
            pt = tu.ty(p["t"])
            if pt.k == "r":
                r = "arg:" + p["n"]
                st.store[r] = eng.fresh(pt.to, p["n"])
                av.append(LV(Path(r)))
            else:
                v = eng.fresh(pt, p["n"])
                if isz(v) and z3.is_int(v) and pt.isint and pt.s is False: st.assume(v >= 0)
                av.append(v)
        c = Ctx(eng, st, st, this, av)
        if u.setup:
            r = u.setup(eng, st, c)
            if r is not None: av = r; c.args = av
        # well-formedness of every container reachable from this/args
        for r, v in list(st.store.items()):
            for pth, x in leaves(v):
                if pth.endswith(("#len", "#size")) and z3.is_int(x) and not isnum(x): st.assume(x >= 0)
        for g in eng.init_assume: st.assume(g)
        if os.environ.get("RADAUDIT"):
            for con in getattr(u, "frame_contracts", ()):
                s0 = st.copy()
                for l, g in (con.requires(c) if con.requires else []): s0.assume(g)
                for l, g in (u.requires(c) if u.requires else []): eng.oblige(s0.copy(), g, "audit-pre", {"l": 0}, "contract %s implies: %s" % (con.q, l), Frame(f, tu, this, 0))
        if u.requires:
            for l, g in u.requires(c): st.assume(g)
        pre = st.copy()
        c.pre = pre
        if u.vacuity:
            s = z3.Solver()
            s.set("timeout", 2000)
            for _, a in st.pc: s.add(a)
            if s.check() == z3.unsat: raise Unsupported("vacuous precondition")
        f2 = Frame(f, tu, this, 0)
        f2.contract = Contract(u.fn, invs=u.invs)
        if u.kind == "process":
            outs = exec_process(eng, f, f2, st, av)
        else:
            outs = eng.exec_body(f, av, f2, st)
        reach = False
        for s, v in outs:
            cc = Ctx(eng, pre, s, this, av, v if not isinstance(v, LV) else View(eng, s, v.path))
            if isinstance(v, LV):
                x = eng.read(s, v.path)
                cc.ret = x if isz(x) else View(eng, s, v.path)
            elif isinstance(v, (Rec, Seq, MapV)): cc.ret = View(eng, s, None, v)
            if u.vacuity and not reach:
                q = z3.Solver()
                q.set("timeout", 1500)
                for _, a in s.pc: q.add(a)
                if q.check() != z3.unsat: reach = True
            if u.ensures:
                for l, g in u.ensures(cc):
                    s2 = s.copy()
                    eng.oblige(s2, g, "post", {"l": f["line"]}, l, f2)
                    if z3.is_true(g):
                        o = Ob(l, "post", f["line"], f["q"], [], TRUE)
                        o.status, o.backend = "proved", "syntactic"
                        eng.obs.append(o)
            if u.frame is not None:
                allowed = u.frame(cc)
                for r0, v0 in s.store.items():
                    if r0[0] in "LT" or r0.startswith("arg:"): continue
                    i0 = pre.store.get(r0)
                    if i0 is None: i0 = eng.inits.get(r0)
                    if i0 is None or i0 is v0: continue
                    d0 = dict(leaves(i0))
                    for pth, x in leaves(v0):
                        y = d0.get(pth)
                        if y is None or x.eq(y): continue
                        full = r0 + pth
                        if any(full.startswith(a) for a in allowed): continue
                        eng.oblige(s.copy(), x == y, "frame", {"l": f["line"]}, "frame: %s unchanged" % full, f2)
            for con in getattr(u, "frame_contracts", ()):
                frame_obligations(eng, con, Ctx(eng, pre, pre, this, av), pre, s, f, f2)
                if os.environ.get("RADAUDIT") and con.ensures:
                    for l, g in con.ensures(cc): eng.oblige(s.copy(), g, "audit-post", {"l": f["line"]}, "contract %s ensures: %s" % (con.q, l), f2)
        if u.vacuity and outs and not reach: raise Unsupported("no exit of %s is reachable under the precondition" % u.fn)
        if not outs: raise Unsupported("%s never returns normally" % u.fn)
        discharge(eng.obs, u.timeout, u.unit_budget)
        res["bounded"] = eng.was_bounded
        res["trusted"] = sorted(eng.trusted)
        res["inlined"] = sorted(eng.inlined)
        res["loops"] = eng.loops_seen
        res["contracts"] = [q for q in eng.contracts]
        for o in eng.obs:
            d = {"label": o.label, "kind": o.kind, "line": o.line, "fn": o.fn, "status": o.status, "time": round(o.time, 3), "backend": o.backend, "reason": o.reason}
            if o.status != "proved":
                d["goal"] = str(o.goal)[:1500]
                if o.model is not None: d["model"] = model_str(o.model)
            res["obs"].append(d)
        if not res["obs"]: raise Unsupported("no obligation generated for %s" % u.fn)
        if any(o["status"] != "proved" for o in res["obs"]): res["status"] = "failed"
    except DeadPath:
        res["status"] = "unsupported"
        res["error"] = "dead path at top level"
    except Unsupported as e:
        res["status"] = "unsupported"
        res["error"] = str(e)
        if os.environ.get("VERIF_TB"): traceback.print_exc()
    except z3.Z3Exception as e:
        res["status"] = "unsupported"
        res["error"] = "z3: %s" % e
        if os.environ.get("VERIF_TB"): traceback.print_exc()
    except RecursionError:
        res["status"] = "unsupported"
        res["error"] = "recursion"
    except Exception as e:
        res["status"] = "unsupported"
        res["error"] = "internal: %s: %s" % (type(e).__name__, e)
        if os.environ.get("VERIF_TB"): traceback.print_exc()
    res["wall"] = round(time.time() - t0, 2)
    return res


def model_str(m):
    out = []
    for d in m.decls():
        s = "%s = %s" % (d.name(), m[d])
        if len(s) < 400: out.append(s)
    return sorted(out)[:300]


def exec_process(eng, f, f2, st, av):
    """SC_CTHREAD: body = reset part; wait(); while (true) { ...; wait(); }.
    The unit is one arbitrary iteration of the infinite loop (from one wait() to the next)."""
    body = f["body"]["c"]
    wl = [c for c in body if c["k"] in ("WhileStmt", "ForStmt", "DoStmt")]
    def always(c):
        cond = c["c"][0] if c["k"] == "WhileStmt" else c["c"][1]
        return cond is None or cond.get("cv") == "1" or cond.get("v") is True
    wl = [c for c in wl if always(c)]
    if len(wl) != 1: raise Unsupported("process %s is not of the form reset; while (true) {...}" % f["q"])
    # locals declared before the loop keep their bindings as unconstrained state
    for c in body:
        if c is wl[0]: break
        if c["k"] == "DeclStmt":
            for v in c["d"]:
                r = "L%d" % next(sym._cnt)
                st.store[r] = eng.fresh(f["tu"].ty(v["t"]), v["n"])
                f2.env[v["id"]] = Path(r)
                f2.names[r] = v["n"]
    snaps = []

    def m_wait(eng_, s, fr, n, obj, args):
        if "waited" in s.store: raise Unsupported("more than one wait() on a path of %s" % f["q"])
        s.store["waited"] = I(1)
        return None
    eng.models["wait"] = m_wait
    eng.models["sc_core::sc_thread::wait"] = m_wait
    for q in ("sc_core::sc_module::wait", "sc_core::wait"): eng.models[q] = m_wait
    w = wl[0]
    loop_body = w["c"][-1]
    stmts = loop_body["c"] if loop_body["k"] == "CompoundStmt" else [loop_body]
    last = stmts[-1]
    o = eng.exec(loop_body, st.copy(), f2)
    outs = o["normal"] + o["continue"]
    if o["break"] or o["return"]: raise Unsupported("process %s leaves its loop" % f["q"])
    for s in outs:
        if "waited" not in s.store: pass
        s.store.pop("waited", None)
    return [(s, None) for s in outs]


_G = {}


def _worker(i):
    u, mode = _G["jobs"][i]
    return run_unit(_G["prog"], u, mode)


def run_units(prog, units, procs=8, mode=None):
    _G["prog"] = prog
    _G["jobs"] = [(u, mode) for u in units]
    if procs == 1 or len(units) == 1: return [_worker(i) for i in range(len(units))]
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(min(procs, len(units)), maxtasksperchild=1) as p:
        return p.map(_worker, range(len(units)), chunksize=1)


def show(r, verbose=False):
    n = len(r["obs"])
    ok = sum(o["status"] == "proved" for o in r["obs"])
    print("%-55s %-11s %d/%d  %.1fs %s" % (r["unit"], r["status"], ok, n, r["wall"], r["error"] or ""))
    for o in r["obs"]:
        if o["status"] != "proved" or verbose:
            print("    [%s] %s:%s %s -- %s %s %s" % (o["kind"], o["fn"], o["line"], o["label"], o["status"], o["reason"], o["time"]))
            if verbose and o.get("model"): print("        " + "; ".join(o["model"][:60]))
