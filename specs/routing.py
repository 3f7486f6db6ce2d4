"""Dimension-order routing on meshes and tori, and the links it runs on (P11)."""
from common import *
from check import Harness
from sym import QUO, REM, quorem_axioms, quorem_facts

RF = [BOOK + "/routefunc.cpp"]
KN = [BOOK + "/networks/kncube.cpp", BOOK + "/misc_utils.cpp"]
FLAGS = SIM_INC
i, j, d_, n_, a_ = z3.Ints("i j d n a")
Z = z3.IntSort()

SH = z3.Function("shifted_down", Z, Z, Z)       # node number without its lowest i digits
MK2 = z3.Function("step2", Z, Z, Z)             # always zero; triggers one step of the definition
WALL = z3.Function("walls", Z, Z)


def sh_def(k):
    """SH(n, 0) = n, SH(n, i + 1) = SH(n, i) / k"""
    return And(z3.ForAll([n_], SH(n_, 0) == n_, patterns=[SH(n_, 0)]),
               z3.ForAll([n_, i], And(MK2(n_, i) == 0, Implies(i >= 0, SH(n_, i + 1) == QUO(SH(n_, i), k))), patterns=[MK2(n_, i)]))


def digit(n, i, k): return REM(SH(n, i), k)


def nodes(c, *ns):
    k, N = c.g("gK"), c.g("gN")
    return [("radix and dimensions", And(k >= 1, N >= 1)), *[("a node number has gN digits", And(n >= 0, SH(n, N - 1) >= 0, SH(n, N - 1) < k)) for n in ns]]


def sh_setup(eng, st, c):
    st.assume(sh_def(c.g("gK", st)))
    for a in quorem_axioms(): st.assume(a)


def first_diff(k, cur, dest, dim):
    """dim is the lowest dimension in which the two nodes differ"""
    return And(digit(cur, dim, k) != digit(dest, dim, k), z3.ForAll([j], Implies(And(0 <= j, j < dim), digit(cur, j, k) == digit(dest, j, k))))


def mesh_post(c):
    k, N = c.g("gK"), c.g("gN")
    cur, dest, r = c.arg(0), c.arg(1), c.ret
    dim = r / 2
    return [("ejected exactly at the destination", (r == 2 * N) == (cur == dest)),
            ("otherwise one of the router's network outputs", Implies(cur != dest, And(0 <= r, r < 2 * N))),
            ("in the lowest dimension still to be corrected", Implies(cur != dest, first_diff(k, cur, dest, dim))),
            ("to the right exactly when the destination lies right", Implies(cur != dest, (r % 2 == 0) == (digit(cur, dim, k) < digit(dest, dim, k))))]


def walk_inv(L):
    """both nodes without the digits compared so far, which were equal"""
    out = []
    P = L.params()
    k = L.eng.read(L.st, Path("g:gK"))
    ps = [(n, P[n]) for n in P if isz(P[n]) and z3.is_int(P[n])]
    cur, dest = ps[0][1], ps[1][1]
    for nm, e, v in L.counters():
        out.append(("dimension counter %s" % nm, And(v >= 0, MK2(cur, v) == 0, MK2(dest, v) == 0)))
        out.append(("digits below %s are equal" % nm, z3.ForAll([j], Implies(And(0 <= j, j < v), digit(cur, j, k) == digit(dest, j, k)))))
        for n2, e2, v2 in L.counters():
            for who, x in (("cur", cur), ("dest", dest)): out.append(("%s is %s without %s digits" % (n2, who, nm), And(v2 >= 0, v2 == SH(x, v))))
        for n2, e2, v2 in L.counters():
            for n3, e3, v3 in L.counters():
                if n2 < n3: out.append(("%s and %s differ if the nodes do" % (n2, n3), (v2 != v3) == (cur != dest)))
    return out


def rnd(eng, st, fr, n, obj, args):
    m = eng.toint(eng.rv(args[0], st, fr))
    r = z3.Int(fname("random"))
    st.assume(And(0 <= r, r <= m))
    return r


OPQ = {"attrs": {"opaque_div": True}}
MODELS = dict(BASE, RandomInt=rnd)
MESH = Contract("dor_next_mesh", lambda c: nodes(c, c.arg(0), c.arg(1)) + [("lowest dimension first", Not(c.arg(2)))], mesh_post)


def outs(eng, st, c):
    sh_setup(eng, st, c)
    st.store["arg:out"] = z3.Int("out0")
    st.store["arg:part"] = z3.Int("part0")
    return [*c.args[:3], PtrTo(Path("arg:out")), PtrTo(Path("arg:part")), c.args[5]]


def torus_goals(c, cur, dest, inp, out, part, part0, bal):
    k, N = c.g("gK"), c.g("gN")
    dim = out / 2
    x, y = digit(cur, dim, k), digit(dest, dim, k)
    fwd = z3.If(y >= x, y - x, y - x + k)
    right = out % 2 == 0
    turn = inp / 2 != dim
    m = (k - 1) / 2
    go = cur != dest
    return [("ejected exactly at the destination", (out == 2 * N) == Not(go)),
            ("otherwise one of the router's network outputs", Implies(go, And(0 <= out, out < 2 * N))),
            ("in the lowest dimension still to be corrected", Implies(go, first_diff(k, cur, dest, dim))),
            ("turning into a ring: the shorter way round", Implies(And(go, turn), z3.If(right, 2 * fwd <= k, 2 * fwd >= k))),
            ("within a ring: never back", Implies(And(go, Not(turn)), right == (inp % 2 == 1))),
            ("within a ring, and when ejected: the class is kept", Implies(Not(And(go, turn)), part == part0)),
            ("the class is 0 or 1", Implies(And(go, turn), And(0 <= part, part <= 1))),
            ("fixed dateline: each direction has one class for packets that wrap and one for those that do not", Implies(And(go, turn, Not(bal)), part == z3.If(x > y, I(1), I(0)))),
            ("balanced: a packet that wraps is in class 1", Implies(And(go, turn, bal, z3.If(right, x > y, x < y)), part == 1)),
            ("balanced: a packet that crosses the middle and does not wrap is in class 0", Implies(And(go, turn, bal, z3.If(right, And(x <= m, y > m), And(x > m, y <= m))), part == 0))]


def torus_post(c):
    return torus_goals(c, c.arg(0), c.arg(1), c.arg(2), c.post.store["arg:out"], c.post.store["arg:part"], z3.Int("part0"), c.arg(5))



# -- highest dimension first (two dimensions)
def two_setup(eng, st, c):
    eng.root(st, "g:gN")
    st.store["g:gN"] = I(2)
    sh_setup(eng, st, c)
    k, N = c.g("gK", st), c.g("gNodes", st)
    for x in (c.arg(0), c.arg(1)):
        r = REM(x, k)
        st.assume(Implies(And(x >= 0, k >= 1, N == k * k), And(QUO(x * k, N) == QUO(x, k), REM(x * k, N) == r * k, QUO(REM(x * k, N) * k, N) == r)))
    st.assume(And(MK2(c.arg(0), I(0)) == 0, MK2(c.arg(1), I(0)) == 0, SH(c.arg(0), 0) == c.arg(0), SH(c.arg(1), 0) == c.arg(1)))


def two_facts(pr):
    a, k = z3.Ints("a k")
    b, q_, r_ = z3.Ints("b q r")
    m, div = lambda x, y: x % y, lambda x, y: x / y
    out = [(l, z3.substitute(g, (QUO(b, k), b / k))) for l, g in quorem_facts(div, m, lambda q0, r0, y: q0 * y + r0)]
    N, x, s_ = z3.Ints("N x s")
    w = And(a >= 0, k >= 1, a == q_ * k + r_, 0 <= r_, r_ < k)
    return out + [("quotient and remainder are unique", Implies(And(N >= 1, x == q_ * N + s_, 0 <= s_, s_ < N), And(x / N == q_, x % N == s_))), ("a multiple of the radix", Implies(w, And(a * k == q_ * (k * k) + r_ * k, 0 <= r_ * k, r_ * k < k * k))),
                  ("a multiple of a multiple", And((r_ * k) * k == r_ * (k * k) + 0, Implies(k >= 1, 0 < k * k)))]


def two(c): return [("two dimensions", And(c.g("gN") == 2, c.g("gNodes") == c.g("gK") * c.g("gK"))), ("highest dimension first", c.arg(2))]


def yx_goals(c, cur, dest, r):
    k, N = c.g("gK"), c.g("gN")
    dim = r / 2
    return [("ejected exactly at the destination", (r == 2 * N) == (cur == dest)),
            ("otherwise one of the router's network outputs", Implies(cur != dest, And(0 <= r, r < 2 * N))),
            ("in the highest dimension still to be corrected", Implies(cur != dest, And(digit(cur, dim, k) != digit(dest, dim, k), z3.ForAll([j], Implies(And(dim < j, j < N), digit(cur, j, k) == digit(dest, j, k)))))),
            ("to the right exactly when the destination lies right", Implies(cur != dest, (r % 2 == 0) == (digit(cur, dim, k) < digit(dest, dim, k))))]


def yx_post(c): return yx_goals(c, c.arg(0), c.arg(1), c.ret)


NEXT_YX = Contract("dor_next_mesh", lambda c: nodes(c, c.arg(0), c.arg(1)) + two(c), yx_post)
# both orders, by the argument: what callers see
BOTH = Contract("dor_next_mesh", lambda c: nodes(c, c.arg(0), c.arg(1)) + [("two dimensions, or lowest dimension first", Or(Not(c.arg(2)), two(c)[0][1]))],
                lambda c: [(l, Implies(Not(c.arg(2)), g)) for l, g in mesh_post(c)] + [(l, Implies(c.arg(2), g)) for l, g in yx_post(c)])


# -- the routing functions
CLASSES = (("READ_REQUEST", "ReadReq"), ("WRITE_REQUEST", "WriteReq"), ("WRITE_DATA", "WriteData"), ("READ_REPLY", "ReadReply"), ("WRITE_REPLY", "WriteReply"))


def vcs(c, f):
    """the VCs of the flit's class"""
    b, e = I(0), c.g("gNumVCs", c.pre) - 1
    for k_, (_, g) in enumerate(CLASSES):
        b = z3.If(f.type == k_, c.g("g%sBeginVC" % g, c.pre), b)
        e = z3.If(f.type == k_, c.g("g%sEndVC" % g, c.pre), e)
    return b, e


def rf_setup(eng, st, c):
    sh_setup(eng, st, c)
    ghost(st, "clear", [])
    ghost(st, "range", [Z] * 3)
    for k_ in range(3): pass


def out_clear(eng, st, fr, n, obj, args):
    st.store["ev:clear"] = Rec("ev", {"n": add(st.store["ev:clear"].f["n"], I(1))})
    st.store["ev:range"] = Rec("ev", dict(st.store["ev:range"].f, n=I(0)))


def flit(c, st=None): return c.obj("Flit", c.arg(1), st or c.pre)


def rid(c): return c.obj("Router", c.arg(0), c.pre)._id


def rf_pre(extra=None):
    def f(c):
        k, N = c.g("gK"), c.g("gN")
        fl = flit(c)
        b, e = vcs(c, fl)
        inj = c.arg(4)
        out = [("router and flit", And(c.arg(0) >= 1, c.arg(1) >= 1)), ("class of the flit", And(fl.type >= 0, fl.type <= 5)), ("its VCs", And(0 <= b, b <= e, Or(inj, And(fl.vc >= b, fl.vc <= e)), Implies(inj, fl.vc < 0))), ("input port", And(c.arg(2) >= 0, c.arg(2) <= 2 * N))]
        out += nodes(c, rid(c), fl.dest)
        return out + (extra(c, b, e) if extra else [])
    return f


def one_range(c):
    r = ev(c, "range")
    return [("exactly one choice of output", And(ev(c, "clear").n >= 1, r.n == 1))]


def chosen(c): return ev(c, "range").a0, ev(c, "range").a1, ev(c, "range").a2


class As:
    """a context with other arguments"""

    def __init__(self, c, args, ret=None): self.c, self.a, self.ret = c, args, ret

    def arg(self, i): return self.a[i]

    def g(self, n, st=None): return self.c.g(n, st)


def dom_post(c):
    b, e = vcs(c, flit(c))
    o, lo, hi = chosen(c)
    at = [("%s (through the network)" % l, Implies(Not(c.arg(4)), g)) for l, g in mesh_post(As(c, [rid(c), flit(c).dest], o))]
    return one_range(c) + at + [("an injected flit names no output", Implies(c.arg(4), o == -1)), ("every VC of the flit's class, no other", And(lo == b, hi == e))]


def dot_post(c):
    f0, f1 = flit(c), flit(c, c.post)
    b, e = vcs(c, f0)
    o, lo, hi = chosen(c)
    av = (e - b + 1) / 2
    at = [("%s (through the network)" % l, Implies(Not(c.arg(4)), g)) for l, g in torus_goals(c, rid(c), f0.dest, c.arg(2), o, f1.ph, f0.ph, FALSE)]
    go = And(Not(c.arg(4)), rid(c) != f0.dest)
    return one_range(c) + at + [("an injected flit names no output", Implies(c.arg(4), o == -1)), ("at the destination: every VC of the flit's class", Implies(Not(go), And(lo == b, hi == e))),
            ("on the way: the half of its class that its ring class owns", Implies(go, z3.If(f1.ph == 0, And(lo == b, hi == b + av - 1), And(lo == b + av, hi == e)))), ("the two halves are disjoint and not empty", Implies(go, And(lo <= hi, z3.If(f1.ph == 0, hi < b + av, lo >= b + av)))) ]


def xy_post(c):
    f0 = flit(c)
    b, e = vcs(c, f0)
    o, lo, hi = chosen(c)
    av = (e - b + 1) / 2
    N = c.g("gN")
    go = And(Not(c.arg(4)), rid(c) != f0.dest)
    low = And(lo == b, hi == b + av - 1)
    high = And(lo == b + av, hi == e)
    x = [("lower half: %s" % l, Implies(And(go, low), g)) for l, g in mesh_post(As(c, [rid(c), f0.dest], o))]
    y = [("upper half: %s" % l, Implies(And(go, high), g)) for l, g in yx_goals(c, rid(c), f0.dest, o)]
    return one_range(c) + x + y + [("on the way: one half of the class", Implies(go, Or(low, high))), ("the halves are disjoint and not empty", And(Implies(go, lo <= hi), Implies(And(go, low), hi < b + av), Implies(And(go, high), lo >= b + av))), ("ejected at the destination", Implies(And(Not(c.arg(4)), Not(go)), And(o == 2 * N, lo == b, hi == e))), ("an injected flit names no output", Implies(c.arg(4), And(o == -1, lo == b, hi == e))),
            ("in the network a packet stays in its half", Implies(And(go, c.arg(2) < 2 * N), z3.If(f0.vc < b + av, low, high)))]


def halves(c, b, e): return [("two VCs per class", e - b + 1 >= 2)]


def xy_extra(c, b, e):
    return halves(c, b, e) + [("two dimensions", And(c.g("gN") == 2, c.g("gNodes") == c.g("gK") * c.g("gK")))]


RFM = dict(MODELS, **{"OutputSet::Clear": out_clear, "OutputSet::AddRange": event("range"), "GetSimTime": lambda *a: z3.Int(fname("now"))})
TOR = Contract("dor_next_torus", lambda c: nodes(c, c.arg(0), c.arg(1)) + [("input port", c.arg(2) >= 0)], lambda c: tor_call(c), modifies=lambda c: [c.argpath(3), c.argpath(4)])


def tor_call(c):
    rd = lambda k_, st: c.eng.read(st, c.argpath(k_))
    return torus_goals(c, c.arg(0), c.arg(1), c.arg(2), rd(3, c.post), rd(4, c.post), rd(4, c.pre), c.arg(5))


NEXT = [
    Unit("dor_next_mesh", "dor_next_mesh", setup=sh_setup, requires=lambda c: nodes(c, c.arg(0), c.arg(1)) + [("lowest dimension first", Not(c.arg(2)))], ensures=mesh_post, invs=walk_inv, models=MODELS, engine=OPQ),
    Unit("dor_next_mesh (highest dimension first)", "dor_next_mesh", setup=two_setup, requires=lambda c: nodes(c, c.arg(0), c.arg(1)) + two(c), ensures=yx_post, models=MODELS, engine=OPQ, paths=16),
    Unit("dor_next_torus", "dor_next_torus", setup=outs, requires=lambda c: nodes(c, c.arg(0), c.arg(1)) + [("input port", c.arg(2) >= 0)], ensures=torus_post, invs=walk_inv, models=MODELS, engine=OPQ),
    Unit("dim_order_mesh", "dim_order_mesh", setup=rf_setup, requires=rf_pre(), ensures=dom_post, models=RFM, contracts=[MESH], engine=OPQ),
    Unit("dim_order_torus", "dim_order_torus", setup=rf_setup, requires=rf_pre(halves), ensures=dot_post, models=RFM, contracts=[TOR], engine=OPQ),
    Unit("xy_yx_mesh", "xy_yx_mesh", setup=rf_setup, requires=rf_pre(xy_extra), ensures=xy_post, models=RFM, contracts=[BOTH], engine=OPQ),
    Lemma("quotients and remainders", two_facts),
]

# -- the links of a mesh or torus
POW = z3.Function("power", Z, Z, Z)
x_ = z3.Int("x")


def pow_def(): return And(z3.ForAll([x_], POW(x_, 0) == 1, patterns=[POW(x_, 0)]), z3.ForAll([x_, i], And(MK2(x_, i) == 0, Implies(i >= 0, POW(x_, i + 1) == POW(x_, i) * x_)), patterns=[MK2(x_, i)]))


def pow_setup(eng, st, c): st.assume(pow_def())


def pow_inv(L):
    out = []
    x = list(L.params().values())[0]
    for nm, e, v in L.counters():
        out.append(("counter", And(v >= 0, MK2(x, v) == 0)))
        for n2, v2 in L.ints(): out += [("%s: power so far" % n2, v2 == POW(x, v)), ("%s: power positive" % n2, Implies(x >= 1, v2 >= 1))]
        out.append(("bound %s" % nm, v <= list(L.params().values())[1]))
    return out


POWC = Contract("powi", lambda c: [("exponent", c.arg(1) >= 0)], lambda c: [("the power", And(c.ret == POW(c.arg(0), c.arg(1)), Implies(c.arg(0) >= 1, c.ret >= 1)))])
H, X, L_, P_ = z3.Ints("H X L P")


def nd_pre(c):
    t = c.this
    return [("size", And(t._k >= 1, t._n >= 1)), ("a node: digits above, the digit, digits below", And(c.arg(0) == (H * t._k + X) * P_ + L_, H >= 0, 0 <= X, X < t._k, 0 <= L_, L_ < P_, P_ == POW(t._k, c.arg(1)), P_ >= 1)), ("dimension", And(0 <= c.arg(1), c.arg(1) < t._n))]


def nd_setup(eng, st, c):
    k = c.this._k
    st.assume(Implies(And(H >= 0, 0 <= X, X < k, 0 <= L_, L_ < P_), And(QUO((H * k + X) * P_ + L_, P_) == H * k + X, REM(H * k + X, k) == X)))   # uniqueness, see the lemma
    for a in quorem_axioms(): st.assume(a)
    st.assume(Implies(P_ == POW(k, c.arg(1)), And(QUO(c.arg(0), POW(k, c.arg(1))) == QUO(c.arg(0), P_))))
    st.assume(Implies(c.arg(0) == (H * k + X) * P_ + L_, QUO(c.arg(0), P_) == QUO((H * k + X) * P_ + L_, P_)))


def nd_post(right):
    def f(c):
        k = c.this._k
        y = z3.If(X == k - 1, I(0), X + 1) if right else z3.If(X == 0, k - 1, X - 1)
        return [("the neighbour: this digit one %s (round the ring), all others as before" % ("up" if right else "down"), c.ret == (H * k + y) * P_ + L_)]
    return f


ROUT, NUM = z3.Function("router_of", Z, Z), z3.Function("node_of", Z, Z)
RN, LN = z3.Function("right_node", Z, Z, Z), z3.Function("left_node", Z, Z, Z)
A2 = z3.ArraySort(Z, z3.ArraySort(Z, Z))
W4 = ("in_flit", "in_credit", "out_flit", "out_credit")


def bn_setup(eng, st, c):
    st.store["ev:wire"] = Rec("ev", dict({w: z3.Const("wire_" + w, A2) for w in W4}, nin=z3.K(Z, I(0)), nout=z3.K(Z, I(0))))
    st.assume(z3.ForAll([a_], And(NUM(ROUT(a_)) == a_, ROUT(a_) >= 1), patterns=[ROUT(a_)]))


def m_new(eng, st, fr, n, obj, args): return ROUT(eng.toint(eng.rv(args[3], st, fr)))


def m_wire(w):
    def f(eng, st, fr, n, obj, args):
        o = eng.rv(obj, st, fr)
        r = NUM(o if isz(o) else o.path.steps[0][1])
        d = dict(st.store["ev:wire"].f)
        cnt = "n" + w
        for k_, s_ in ((0, "_flit"), (1, "_credit")):
            a = d[w + s_]
            d[w + s_] = z3.Store(a, r, z3.Store(z3.Select(a, r), z3.Select(d[cnt], r), eng.toint(eng.rv(args[k_], st, fr))))
        d[cnt] = z3.Store(d[cnt], r, z3.Select(d[cnt], r) + 1)
        st.store["ev:wire"] = Rec("ev", d)
    return f


def left_ch(t, node, dim): return 2 * t._n * node + 2 * dim + 1


def right_ch(t, node, dim): return 2 * t._n * node + 2 * dim


def wired(w, t, r, upto):
    """the first 2*upto links of router r"""
    f = w.val.f
    at = lambda nm, sl: z3.Select(z3.Select(f[nm], r), sl)
    o, e = 2 * j, 2 * j + 1
    rows = [at("out_flit", o) == t._chan[right_ch(t, r, j)], at("out_credit", o) == t._chan_cred[right_ch(t, r, j)], at("out_flit", e) == t._chan[left_ch(t, r, j)], at("out_credit", e) == t._chan_cred[left_ch(t, r, j)],
            at("in_flit", o) == t._chan[left_ch(t, RN(r, j), j)], at("in_credit", o) == t._chan_cred[left_ch(t, RN(r, j), j)], at("in_flit", e) == t._chan[right_ch(t, LN(r, j), j)], at("in_credit", e) == t._chan_cred[right_ch(t, LN(r, j), j)]]
    return And(0 <= j, j < upto), rows


ROWS = ("output 2d: flits to the right neighbour's side", "its credits", "output 2d+1: flits to the left", "its credits", "input 2d: what the right neighbour sends left", "its credits", "input 2d+1: what the left neighbour sends right", "its credits")


def all_wired(w, t, below):
    f = w.val.f
    out = []
    cnd, rows = wired(w, t, i, t._n)
    for l, g in zip(ROWS, rows): out.append((l, z3.ForAll([i, j], Implies(And(0 <= i, i < below, cnd), g))))
    at = lambda nm: z3.Select(z3.Select(f[nm], i), 2 * t._n)
    out.append(("last port: injection and ejection of this node", z3.ForAll([i], Implies(And(0 <= i, i < below), And(at("in_flit") == t._inject[i], at("in_credit") == t._inject_cred[i], at("out_flit") == t._eject[i], at("out_credit") == t._eject_cred[i])))))
    out.append(("ports per router", z3.ForAll([i], Implies(And(0 <= i, i < below), And(z3.Select(f["nin"], i) == 2 * t._n + 1, z3.Select(f["nout"], i) == 2 * t._n + 1)))))
    return out


def bn_inv(L):
    out = []
    t = L.this()
    w = View(L.eng, L.st, None, L.st.store["ev:wire"])
    f = w.val.f
    mod = {nm for nm, e, v in L.counters()}
    cs = [(nm, e, v) for nm, e, v in L.counters() if z3.is_int_value(z3.simplify(e)) and z3.simplify(e).as_long() == 0]
    for nm, e, v in cs:
        if any(n2 not in mod for n2, _ in L.ints()): continue
        for l, g in all_wired(w, t, v): out.append(("below %s: %s" % (nm, l), g))
        out.append(("routers below %s" % nm, z3.ForAll([i], Implies(And(0 <= i, i < v), t._routers[i] == ROUT(i)))))
        out.append(("no ports from %s on" % nm, z3.ForAll([i], Implies(i >= v, And(z3.Select(f["nin"], i) == 0, z3.Select(f["nout"], i) == 0)))))
        out.append(("%s in range" % nm, And(0 <= v, v <= t._size)))
    for nm, v in L.ints():
        for n2, e2, d in cs:
            if nm in mod: continue
            out.append(("%s dims %s: count" % (nm, n2), And(0 <= d, d <= t._n, z3.Select(f["nin"], v) == 2 * d, z3.Select(f["nout"], v) == 2 * d)))
            cnd, rows = wired(w, t, v, d)
            for l, g in zip(ROWS, rows): out.append(("%s dims %s: %s" % (nm, n2, l), z3.ForAll([j], Implies(cnd, g))))
            for l, g in all_wired(w, t, v): out.append(("dims %s, below %s: %s" % (n2, nm, l), g))
            out.append(("dims %s: router %s" % (n2, nm), And(t._routers[v] == ROUT(v), z3.ForAll([i], Implies(And(0 <= i, i < v), t._routers[i] == ROUT(i))))))
            out.append(("dims %s: none after %s" % (n2, nm), z3.ForAll([i], Implies(i > v, And(z3.Select(f["nin"], i) == 0, z3.Select(f["nout"], i) == 0)))))
    return out


def bn_pre(c):
    t = c.this
    ch = And(t._chan.len == 2 * t._n * t._size, t._chan_cred.len == 2 * t._n * t._size, t._inject.len == t._size, t._eject.len == t._size, t._inject_cred.len == t._size, t._eject_cred.len == t._size, t._routers.len == t._size)
    per = lambda v: v.all(lambda x, a: x >= 1)
    return [("sizes", And(t._k >= 1, t._n >= 1, t._size >= 1)), ("tables", ch), ("channels", And(*[per(v) for v in (t._chan, t._chan_cred, t._inject, t._eject, t._inject_cred, t._eject_cred)]))]


def nbr(nm, fn): return Contract("KNCube::" + nm, lambda c: [("node", And(0 <= c.arg(0), c.arg(0) < c.this._size, 0 <= c.arg(1), c.arg(1) < c.this._n))], lambda c: [("the neighbour", And(c.ret == fn(c.arg(0), c.arg(1)), 0 <= c.ret, c.ret < c.this._size))])


def chn(nm, fn):
    # in range: 2*n*node + 2*dim + 1 < 2*n*size, stated as a fact of the product (see the lemma)
    return Contract("KNCube::" + nm, lambda c: [("node", And(0 <= c.arg(0), c.arg(0) < c.this._size, 0 <= c.arg(1), c.arg(1) < c.this._n))], lambda c: [("the channel", c.ret == fn(c.this, c.arg(0), c.arg(1))), ("in range", And(0 <= c.ret, c.ret < 2 * c.this._n * c.this._size))])


def chn_post(fn): return lambda c: [("the channel", c.ret == fn(c.this, c.arg(0), c.arg(1)))]


def link_goals(pr):
    k, n, s, a, b, d, e, h, x, l, p = z3.Ints("k n s a b d e h x l p")
    q0, M, s0, y0 = z3.Ints("q M s y")
    rng = And(n >= 1, 0 <= a, a < s, 0 <= d, d < n, 0 <= b, b < s, 0 <= e, e < n)
    N = z3.Int("twice_n")
    up = lambda z: z3.If(z == k - 1, I(0), z + 1)
    dn = lambda z: z3.If(z == 0, k - 1, z - 1)
    return [("channel numbers are in range", Implies(And(rng, N == 2 * n), And(N * a >= 0, N * a + N <= N * s, N * a + 2 * d + 1 < N * a + N))),
            ("each link has its own channel", Implies(And(rng, N == 2 * n, a < b), N * a + N <= N * b)),
            ("right of left", Implies(And(0 <= x, x < k), up(dn(x)) == x)), ("left of right", Implies(And(0 <= x, x < k), dn(up(x)) == x)),
            ("the digits of a number are unique", Implies(And(M >= 1, y0 == q0 * M + s0, 0 <= s0, s0 < M), And(y0 / M == q0, y0 % M == s0))),
            ("one digit more: from quotient by p to quotient by p*k", Implies(And(k >= 1, p >= 1, y0 == (h * k + x) * p + l, 0 <= x, x < k, 0 <= l, l < p), And(y0 == h * (p * k) + (x * p + l), 0 <= x * p + l, x * p + l < p * k))),
            ("a step right brings a destination on the right one closer, in a mesh and round a ring", Implies(And(0 <= x, x < k, 0 <= d, d < k), And(Implies(x < d, up(x) == x + 1), Implies(x != d, (d - up(x) + k) % k == (d - x + k) % k - 1)))),
            ("a step left brings a destination on the left one closer", Implies(And(0 <= x, x < k, 0 <= d, d < k), And(Implies(x > d, dn(x) == x - 1), Implies(x != d, (dn(x) - d + k) % k == (x - d + k) % k - 1))))]


NETM = dict(MODELS, **{"Router::NewRouter": m_new, "Router::AddInputChannel": m_wire("in"), "Router::AddOutputChannel": m_wire("out"), "Channel<Flit>::SetLatency": nop, "Channel<Credit>::SetLatency": nop, "FlitChannel::SetLatency": nop})
LINKS = [
    Unit("powi", "powi", setup=pow_setup, requires=lambda c: [("exponent", c.arg(1) >= 0)], ensures=lambda c: [("the power", And(c.ret == POW(c.arg(0), c.arg(1)), Implies(c.arg(0) >= 1, c.ret >= 1)))], invs=pow_inv, models=MODELS),
    Unit("KNCube::_LeftNode", "KNCube::_LeftNode", setup=nd_setup, requires=nd_pre, ensures=nd_post(False), models=MODELS, contracts=[POWC], engine=OPQ),
    Unit("KNCube::_RightNode", "KNCube::_RightNode", setup=nd_setup, requires=nd_pre, ensures=nd_post(True), models=MODELS, contracts=[POWC], engine=OPQ),
    Unit("KNCube::_LeftChannel", "KNCube::_LeftChannel", ensures=chn_post(left_ch), models=MODELS),
    Unit("KNCube::_RightChannel", "KNCube::_RightChannel", ensures=chn_post(right_ch), models=MODELS),
    Unit("KNCube::_BuildNet", "KNCube::_BuildNet", setup=bn_setup, requires=bn_pre, ensures=lambda c: all_wired(ev(c, "wire"), c.old, c.old._size) + [("a router per node", z3.ForAll([i], Implies(And(0 <= i, i < c.old._size), c.this._routers[i] == ROUT(i))))], invs=bn_inv,
         contracts=[nbr("_LeftNode", LN), nbr("_RightNode", RN), chn("_LeftChannel", left_ch), chn("_RightChannel", right_ch)], models=NETM, engine={"attrs": {"opaque_div": True, "auto_frames": False, "houdini_mbqi": False}}),
    Lemma("links, digits and distances", link_goals),
]
from axis import nocsys, HF, LIBS


def harness():
    d = {"SINGLE_RAD": 1}
    return Harness("routing", "routing.cpp", noc_sources, HF, LIBS, quick=15, thorough=120, sanitize=False, defs=d)


PROPS = {"P11": {"groups": lambda: [{"name": "next hop", "srcs": RF, "flags": FLAGS, "units": NEXT}, {"name": "links", "srcs": KN, "flags": FLAGS, "units": LINKS}], "harness": lambda: [harness()],
         "assumptions": ["node numbers and channel numbers fit the machine integers", "the random choice between equally long ways is any value", "quotients and remainders by the radix are opaque in the proofs of the routing functions, with facts proved of the real ones by a lemma; a class of torus or XY-YX routing has at least two virtual channels and XY-YX runs in two dimensions (the code asserts the first)",
                         "the output set keeps one range per priority (only one is ever added)", "router construction gives every node its own router", "channel latencies are set by other code", "routing functions other than dim_order (mesh, torus), dor (mesh, the same function) and xy_yx are out of scope"],
         "harness_note": "random meshes and tori built by the real classes, every route followed link by link; bounded, never counted as proved"}}
