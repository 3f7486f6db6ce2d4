"""Loop rule: havoc of the leaves the body can change, Houdini over candidate invariants, one symbolic iteration."""
import os
import sys
from sym import *
import sym


class LoopCtx:
    """what an invariant template sees"""

    def __init__(self, eng, fr, entry, cur, mods, n):
        self.eng, self.fr, self.entry, self.st, self.mods, self.n = eng, fr, entry, cur, mods, n
        self.fn = fr.fn["q"]

    def val(self, path, st=None): return self.eng.read(st or self.st, path)

    def local(self, name, st=None):
        for i, p in self.fr.env.items():
            if not p.steps and self.fr.names.get(p.root) == name and p.root in (st or self.st).store: return self.eng.read(st or self.st, p)
        return None

    def params(self):
        return {p["n"]: self.eng.read(self.entry, self.fr.env[p["id"]]) for p in self.fr.fn["ps"] if p["id"] in self.fr.env}

    def counters(self):
        """(name, entry value, current value) of every modified scalar integer local"""
        out = []
        seen = set()
        for i, p in self.fr.env.items():
            if p.steps or p.root not in self.st.store or p.root in seen: continue
            seen.add(p.root)
            v = self.st.store[p.root]
            e = self.entry.store.get(p.root)
            if isz(v) and z3.is_int(v) and e is not None and isz(e) and p.root in self.mods and z3.is_int(e): out.append((self.fr.names.get(p.root), e, v))
            elif isinstance(v, It) and isinstance(e, It) and v.kind == "seq" and p.root in self.mods: out.append((self.fr.names.get(p.root), e.pos, v.pos))
        return out

    def mapiters(self):
        out = []
        for i, p in self.fr.env.items():
            if p.steps or p.root not in self.st.store or p.root not in self.entry.store: continue
            v = self.st.store[p.root]
            if isinstance(v, It) and v.kind == "map" and p.root in self.mods: out.append(v)
        return out

    def ints(self):
        """every scalar local (modified or not) (name, value)"""
        out = []
        for i, p in self.fr.env.items():
            if p.steps or p.root not in self.st.store or p.root not in self.entry.store: continue
            v = self.st.store[p.root]
            if isz(v) and z3.is_int(v): out.append((self.fr.names.get(p.root), v))
        return out

    def bools(self):
        out = []
        for i, p in self.fr.env.items():
            if p.steps or p.root not in self.st.store or p.root not in self.entry.store: continue
            v = self.st.store[p.root]
            if isz(v) and z3.is_bool(v): out.append((self.fr.names.get(p.root), v))
        return out

    def mod_locals(self):
        """modified scalar locals of any sort: (name, entry, current)"""
        out = []
        for i, p in self.fr.env.items():
            if p.steps or p.root not in self.st.store or p.root not in self.mods: continue
            v = self.st.store[p.root]
            e = self.entry.store.get(p.root)
            if isz(v): out.append((self.fr.names.get(p.root), e, v))
        return out

    def this(self, st=None):
        from spec import View
        return View(self.eng, st or self.st, self.fr.this)

    @property
    def old_this(self): return self.this(self.entry)


def iterate(eng, cond, inc, body, st, fr):
    """one iteration from st: (end_states, breaks, returns)"""
    ends, brk, ret = [], [], []
    if cond is not None:
        try: c = truth(eng.rv(cond, st, fr))
        except DeadPath: return ends, brk, ret
        st.assume(z3.simplify(c), "b")
    o = eng.exec(body, st, fr)
    ret += o["return"]
    brk += o["break"]
    for x in eng.merge_list(o["normal"] + o["continue"]):
        if inc is not None:
            try: eng.ev(inc, x, fr)
            except DeadPath: continue
        ends.append(x)
    return ends, brk, ret


def diff(eng, a, b, mods, start):
    """record in mods (root -> set of leaf paths) the leaves of b that differ from a"""
    ch = False
    for r, vb in b.store.items():
        va = a.store.get(r)
        if va is None:
            va = eng.inits.get(r)
            if va is None: continue
        if va is vb: continue
        try:
            la = list(leaves(va))
            lb = list(leaves(vb))
        except Exception:
            la = lb = None
        if isinstance(va, (PtrTo, Lam, FnPtr)) or isinstance(vb, (PtrTo, Lam, FnPtr)) or type(va) is not type(vb) and not (isz(va) and isz(vb)):
            if isinstance(va, PtrTo) and isinstance(vb, PtrTo) and va.path.same(vb.path): continue
            if "*" not in mods.setdefault(r, set()):
                mods[r].add("*")
                ch = True
            continue
        db = dict(lb)
        for p, x in la:
            y = db.get(p)
            if y is None or not x.eq(y):
                s = mods.setdefault(r, set())
                if p not in s:
                    s.add(p)
                    ch = True
    return ch


def havoc_val(v, paths, name, p=""):
    if isz(v): return z3.Const(fname("h_" + name + p.replace("!", "")), v.sort()) if p in paths else v
    if isinstance(v, Rec): return Rec(v.name, {k: havoc_val(x, paths, name, p + "." + k) for k, x in v.f.items()})
    if isinstance(v, Seq):
        return Seq(havoc_val(v.lo, paths, name, p + ".#lo"), havoc_val(v.len, paths, name, p + ".#len"), havoc_val(v.elem, paths, name, p + "[]"))
    if isinstance(v, MapV):
        return MapV(havoc_val(v.dom, paths, name, p + ".#dom"), havoc_val(v.vals, paths, name, p + "[]") if v.vals is not None else None, v.kty, havoc_val(v.size, paths, name, p + ".#size"))
    if isinstance(v, It):
        return It(v.path, havoc_val(v.pos, paths, name, p + ".#pos"), v.kind, havoc_val(v.end, paths, name, p + ".#end") if v.end is not None else None)
    return v


def havoc(eng, st, mods, fr):
    s = st.copy()
    for r, ps in mods.items():
        v = eng.root(s, r)
        if "*" in ps: raise Unsupported("loop modifies a non-symbolic local %s in %s" % (fr.names.get(r, r), fr.fn["q"]))
        nm = fr.names.get(r, r).split(":")[-1]
        s.store[r] = havoc_val(v, ps, nm)
        for p, x in leaves(s.store[r]):
            if p in ps and p.endswith("#len") and x.sort() == z3.IntSort(): s.assume(x >= 0)
            if p in ps and p.endswith("#size") and x.sort() == z3.IntSort(): s.assume(x >= 0)
    return s


class Prover:
    def __init__(self, st, mbqi=True):
        self.mbqi = mbqi
        self.s = z3.Solver()
        for _, a in st.pc: self.s.add(a)

    def prove(self, goal, ms):
        if z3.is_true(goal): return True
        import time, os
        t0 = time.time()
        ng = Not(goal)
        self.s.push()
        self.s.set("timeout", ms)
        self.s.set("mbqi", False)
        self.s.add(ng)
        r = self.s.check()
        if r == z3.unknown and self.mbqi:
            self.s.set("mbqi", True)
            self.s.set("timeout", 700)
            r = self.s.check()
        self.s.pop()
        if os.environ.get("HDBG") and time.time() - t0 > 0.3: print("  slow candidate %.2f %s %s" % (time.time() - t0, r, str(goal)[:150].replace(chr(10), " ")))
        return r == z3.unsat


def autocands(eng, n, cond, fr, entry, cur, mods):
    L = LoopCtx(eng, fr, entry, cur, mods, n)
    out = []
    cs = L.counters()
    for nm, e, v in cs:
        out.append(("%s>=entry" % nm, v >= e))
        out.append(("%s<=entry" % nm, v <= e))
        out.append(("%s>=0" % nm, v >= 0))
    # relax the loop condition
    if cond is not None:
        eng.dry += 1
        try:
            c = truth(eng.rv(cond, cur.copy(), fr))
            for x in (c.children() if z3.is_and(c) else [c]):
                y = x
                neg = False
                if z3.is_not(y):
                    y = y.arg(0)
                    neg = True
                if z3.is_lt(y) and not neg: out.append(("cond-relaxed", y.arg(0) <= y.arg(1)))
                elif z3.is_gt(y) and not neg: out.append(("cond-relaxed", y.arg(0) >= y.arg(1)))
                elif z3.is_ge(y) and not neg: out.append(("cond-relaxed-ge", y.arg(0) >= y.arg(1) - 1))
                elif z3.is_le(y) and not neg: out.append(("cond-relaxed-le", y.arg(0) <= y.arg(1) + 1))
                elif z3.is_eq(y) and neg and z3.is_int(y.arg(0)):
                    out.append(("cond-neq-le", y.arg(0) <= y.arg(1)))
                    out.append(("cond-neq-ge", y.arg(0) >= y.arg(1)))
        except Exception: pass
        eng.dry -= 1
    # array frames
    j = z3.Int("fj")
    for r, ps in mods.items():
        ve, vc = eng.root(entry.copy(), r), eng.root(cur, r)
        de, dc = dict(leaves(ve)), dict(leaves(vc))
        for p in ps:
            if p not in de or p not in dc: continue
            a0, a1 = de[p], dc[p]
            if getattr(eng, "auto_frames", True) and isinstance(a0.sort(), z3.ArraySortRef) and a0.sort().domain() == z3.IntSort():
                for nm, e, v in cs:
                    out.append(("frame-up %s%s by %s" % (r, p, nm), FA([j], z3.Implies(z3.Or(j < e, j >= v), a1[j] == a0[j]), a1[j])))
                    out.append(("frame-down %s%s by %s" % (r, p, nm), FA([j], z3.Implies(z3.Or(j > e, j <= v), a1[j] == a0[j]), a1[j])))
            elif z3.is_int(a0) and p.endswith((".#len", ".#lo")):
                out.append(("%s%s unchanged" % (r, p), a1 == a0))
                for nm, e, v in cs:
                    if nm: out.append(("%s%s grows by %s" % (r, p, nm), a1 == a0 + (v - e)))
    return out


def inv_loop(eng, n, cond, inc, body, st, fr):
    eng.stats["invloops"] += 1
    res = eng.out()
    entry = st.copy()
    mods = {}
    # 1. modified leaves
    eng.dry += 1
    eng.nohoudini = getattr(eng, "nohoudini", 0) + 1
    try:
        nextch = False
        for _ in range(12):
            h = havoc(eng, entry, mods, fr)
            if nextch:
                nx = z3.Int(fname("next"))
                h.assume(nx >= entry.nextref)
                h.nextref = nx
            start = h.copy()
            ends, brk, ret = iterate(eng, cond, inc, body, h, fr)
            ch = False
            for e in ends:
                if diff(eng, start, e, mods, entry): ch = True
                if not e.nextref.eq(start.nextref) and not nextch:
                    nextch = True
                    ch = True
            if not ch: break
        else: raise Unsupported("loop modification set did not stabilise")
    finally:
        eng.dry -= 1
        eng.nohoudini -= 1

    def fresh_head():
        h = havoc(eng, entry, mods, fr)
        if nextch:
            nx = z3.Int(fname("next"))
            h.assume(nx >= entry.nextref)
            h.nextref = nx
        return h

    auto = set()
    shape = {}

    def cands(cur):
        out = autocands(eng, n, cond, fr, entry, cur, mods)
        auto.update(l for l, f in out)
        c = fr.contract
        if c is not None and c.invs is not None:
            L = LoopCtx(eng, fr, entry, cur, mods, n)
            out += list(c.invs(L))
        seen = {}
        res = []
        for l, f in out:  # positional names keep the lists aligned between states
            k = seen.get(l, 0)
            seen[l] = k + 1
            res.append((l if k == 0 else "%s#%d" % (l, k), f))
        # a template that yields another number of formulas in another state is not aligned: drop it everywhere
        for l in set(seen) | set(shape):
            if shape and shape.get(l, 0) != seen.get(l, 0): misaligned.add(l)
        if not shape: shape.update(seen)
        return [(l, f) for l, f in res if l.split("#")[0] not in misaligned]
    misaligned = set()
    head = fresh_head()
    alive = None
    if not eng.nohoudini:
        P = Prover(entry, getattr(eng, 'houdini_mbqi', True))
        ent = cands(entry.copy())
        cands(head.copy())
        if misaligned and os.environ.get("RADHOU"): print("misaligned", n.get("l"), sorted(misaligned), file=sys.stderr)
        alive = set()
        for l, f in ent:
            if P.prove(f, 1000 if l in auto else 3000): alive.add(l)
            elif os.environ.get("RADHOU"): print("not at entry", n.get("l"), l, file=sys.stderr)
        rounds = 0
        while True:
            rounds += 1
            h = head.copy()
            hc = cands(h)
            for l, f in hc:
                if l in alive: h.assume(f)
            eng.dry += 1
            try: ends, brk, ret = iterate(eng, cond, inc, body, h, fr)
            finally: eng.dry -= 1
            dropped = set()
            for e in ends:
                P = Prover(e, getattr(eng, 'houdini_mbqi', True))
                ec = [(l, f) for l, f in cands(e) if l in alive]
                dropped |= {l for l in alive if l.split("#")[0] in misaligned}
                names = {l for l, f in ec}
                dropped |= alive - names
                for l, f in ec:
                    if l in dropped: continue
                    if not P.prove(f, 1000 if l in auto else 4000): dropped.add(l)
            eng.houdini_drops += len(dropped)
            if os.environ.get("RADHOU"): print("drop", n.get("l"), rounds, sorted(dropped), file=sys.stderr)
            alive -= dropped
            if not dropped or rounds > 25: break
        if rounds > 25 and dropped: alive = set()
        if eng.dry == 0:
            for l in alive:
                for ph in ("established", "preserved"):
                    o = Ob("loop invariant %s (%s)" % (l, ph), "inv", n.get("l"), fr.fn["q"], [], TRUE)
                    o.status = "proved"
                    o.backend = "z3-inproc"
                    eng.obs.append(o)
            eng.loops_seen.append((fr.fn["q"], n.get("l"), sorted(alive)))
    h = head.copy()
    if alive:
        for l, f in cands(h):
            if l in alive: h.assume(f)
    # 2. the arbitrary iteration (records the obligations of the body)
    hb = h.copy()
    ends, brk, ret = iterate(eng, cond, inc, body, hb, fr)
    res["return"] += ret
    ex = []
    if cond is not None:
        hx = h.copy()
        try:
            c = truth(eng.rv(cond, hx, fr))
            hx.assume(z3.simplify(Not(c)), "b")
            ex.append(hx)
        except DeadPath: pass
    ex += brk
    res["normal"] = eng.merge_list(ex)
    return res
