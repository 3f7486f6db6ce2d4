"""BookSim flow control: buffer (credit) state and its policies, channels, VC queues and input buffers."""
from common import *
from sym import DeadPath
from check import Harness
from axis import eqview, fifo_same, fifo_kept, fifo_popped

FLAGS = SIM_INC
SRCS = [BOOK + "/buffer_state.cpp"]
CHSRCS = [BOOK + "/flitchannel.cpp", BOOK + "/credit.cpp", BOOK + "/vc.cpp", BOOK + "/buffer.cpp", BOOK + "/networks/network.cpp"]
BS = "BufferState"
P = BS + "::"
i, j, k, v = z3.Ints("i j k v")
NOW = z3.Int("now")
FLIT, CREDIT = "Flit", "Credit"


def m_error(eng, st, fr, n, obj, args):
    """Module::Error ends the simulation: it must not be reachable from states that satisfy the precondition"""
    eng.oblige(st, FALSE, "error", n, "no fatal simulator error raised", fr)
    raise DeadPath()


def m_now(eng, st, fr, n, obj, args): return NOW


MODELS = dict(BASE, **{"Module::Error": m_error, "GetSimTime": m_now, "Module::FullName": lambda *a: z3.Int(fname("name"))})


def policy_call(name):
    """a call of the (virtual) buffer policy: counted, with the VC or flit it was given and the credit state it saw"""
    def f(eng, st, fr, n, obj, args):
        r = "ev:" + name
        e = st.store[r]
        x = eng.toint(eng.rv(args[0], st, fr))
        t = eng.read(st, fr.this)
        vc = eng.read(st, Path("heap:" + FLIT, (("h", x), ("f", "vc")))) if name == "PSend" else x
        d = dict(e.f)
        d["n"] = add(d["n"], I(1))
        d["a"] = z3.Store(d["a"], x, z3.Select(d["a"], x) + 1)
        d["occ"] = z3.Store(d["occ"], vc, sel(t.f["_vc_occupancy"].elem, vc))
        d["use"] = z3.Store(d["use"], vc, sel(t.f["_in_use_by"].elem, vc))
        st.store[r] = Rec("ev", d)
        return None
    return f


POLICY = {BS + "::BufferPolicy::SendingFlit": policy_call("PSend"), BS + "::BufferPolicy::FreeSlotFor": policy_call("PFree"), BS + "::BufferPolicy::TakeBuffer": policy_call("PTake")}
ARR = z3.ArraySort(z3.IntSort(), z3.IntSort())


def pol_setup(eng, st, c):
    for nm in ("PSend", "PFree", "PTake"):
        st.store["ev:" + nm] = Rec("ev", {"n": I(0), "a": z3.K(z3.IntSort(), I(0)), "occ": z3.Const(nm + "_occ", ARR), "use": z3.Const(nm + "_use", ARR)})


def bs_inv(t):
    return [("table sizes", And(t._vcs >= 1, t._vc_occupancy.len == t._vcs, t._in_use_by.len == t._vcs, t._tail_sent.len == t._vcs, t._last_id.len == t._vcs, t._last_pid.len == t._vcs)),
            ("occupancies are counts", And(t._occupancy >= 0, q([i], Implies(z3.And(0 <= i, i < t._vcs), t._vc_occupancy[i] >= 0)))), ("policy", t._buffer_policy >= 1)]


def called(c, nm, x, times=1):
    g = ev(c, nm)
    return And(g.n == times, z3.Select(g.val.f["a"], x) == times)


def quiet(c, *names): return [("no other policy call", And(*[ev(c, nm).n == 0 for nm in ("PSend", "PFree", "PTake") if nm not in names]))]


def vcrange(t, x): return And(0 <= x, x < t._vcs)


def others(t, o, x, *fields):
    return [("%s of other VCs untouched" % f, q([i], Implies(z3.And(0 <= i, i < t._vcs, i != x), getattr(t, f)[i] == getattr(o, f)[i]))) for f in fields]


def same_cfg(t, o): return [("size and mode kept", And(t._size == o._size, t._vcs == o._vcs, t._wait_for_tail_credit == o._wait_for_tail_credit, t._buffer_policy == o._buffer_policy))]


# ---- BufferState
def send_pre(c):
    t, f = c.this, c.obj(FLIT, c.arg(0))
    return bs_inv(t) + [("flit on one of the VCs", And(c.arg(0) >= 1, vcrange(t, f.vc))), ("room", t._occupancy < t._size), ("the VC is owned", t._in_use_by[f.vc] >= 0)]


def send_post(c):
    t, o, f = c.this, c.old, c.oobj(FLIT, c.arg(0))
    x = f.vc
    g = ev(c, "PSend")
    rel = And(f.tail, Not(o._wait_for_tail_credit))
    return bs_inv(t) + same_cfg(t, o) + [("one more flit outstanding", And(t._occupancy == o._occupancy + 1, t._vc_occupancy[x] == o._vc_occupancy[x] + 1)),
        ("policy told once, after the count", And(called(c, "PSend", c.arg(0)), z3.Select(g.val.f["occ"], x) == o._vc_occupancy[x] + 1)),
        ("a tail closes the packet", t._tail_sent[x] == Or(f.tail, o._tail_sent[x])),
        ("the VC is released by the tail, or kept until the last credit", t._in_use_by[x] == If(rel, I(-1), o._in_use_by[x]))] + others(t, o, x, "_vc_occupancy", "_tail_sent", "_in_use_by") + quiet(c, "PSend")


def If(c, a, b): return z3.If(c, a, b)


def take_pre(c): return bs_inv(c.this) + [("a VC nobody uses", And(vcrange(c.this, c.arg(0)), c.this._in_use_by[c.arg(0)] < 0))]


def take_post(c):
    t, o, x = c.this, c.old, c.arg(0)
    return bs_inv(t) + same_cfg(t, o) + [("owned by the tag", And(t._in_use_by[x] == c.arg(1), Not(t._tail_sent[x]))), ("no flit counted", And(t._occupancy == o._occupancy, q([i], Implies(z3.And(0 <= i, i < t._vcs), t._vc_occupancy[i] == o._vc_occupancy[i])))),
                                        ("policy told once", called(c, "PTake", x))] + others(t, o, x, "_in_use_by", "_tail_sent") + quiet(c, "PTake")


def credit_pre(n):
    def f(c):
        t, cr = c.this, c.obj(CREDIT, c.arg(0))
        S = cr.vc
        r = bs_inv(t) + [("credit", c.arg(0) >= 1),
            ("credits only for outstanding flits of a VC in use", q([i], Implies(S.has(i), And(vcrange(t, i), t._vc_occupancy[i] >= 1, Implies(t._wait_for_tail_credit, t._in_use_by[i] >= 0)))))]
        if n: r.append(("outstanding", t._occupancy >= n))
        return r
    return f


def credit_effect(t, o, S, done, g):
    """state of VC i after (done) or before its credit was processed"""
    last = And(o._wait_for_tail_credit, o._vc_occupancy[i] == 1, o._tail_sent[i])
    return [("one flit fewer on each credited VC, others unchanged", q([i], Implies(z3.And(0 <= i, i < t._vcs), t._vc_occupancy[i] == o._vc_occupancy[i] - If(done(i), I(1), I(0))))),
            ("a VC is released by the last credit after its tail and not before", q([i], Implies(z3.And(0 <= i, i < t._vcs), t._in_use_by[i] == If(And(done(i), last), I(-1), o._in_use_by[i])))),
            ("tail marks kept", q([i], Implies(z3.And(0 <= i, i < t._vcs), t._tail_sent[i] == o._tail_sent[i]))),
            ("the policy frees one slot per credited VC", q([i], z3.Select(g.val.f["a"], i) == If(done(i), I(1), I(0)))),
            ("the policy sees the reduced count and the final owner", q([i], Implies(done(i), And(z3.Select(g.val.f["occ"], i) == o._vc_occupancy[i] - 1, z3.Select(g.val.f["use"], i) == If(last, I(-1), o._in_use_by[i])))))]


def credit_post(n):
    def f(c):
        t, o, S = c.this, c.old, c.oobj(CREDIT, c.arg(0)).vc
        r = bs_inv(t)[:1] + same_cfg(t, o) + credit_effect(t, o, S, lambda x: S.has(x), ev(c, "PFree")) + quiet(c, "PFree")
        if n: r += [("total occupancy", t._occupancy == o._occupancy - n)]
        return r
    return f


def credit_invs(L):
    out = []
    t, o = L.this(), L.old_this
    g = View(L.eng, L.st, None, L.st.store["ev:PFree"])
    c = Ctx(L.eng, L.entry, L.st, L.fr.this, [])
    ref = list(L.params().values())[0]
    S = c.obj(CREDIT, ref, L.entry).vc
    for it in L.mapiters():
        done = lambda x, it=it: z3.And(S.has(x), z3.Or(it.end, x < it.pos))
        out += credit_effect(t, o, S, done, g) + [("sizes", And(t._vcs == o._vcs, t._vc_occupancy.len == o._vc_occupancy.len, t._in_use_by.len == o._in_use_by.len)), ("cursor in the set", Or(it.end, S.has(it.pos)))]
    return out


def nset(n):
    def f(eng, st, c):
        pol_setup(eng, st, c)
        a = c.args[0]
        p = Path("heap:" + CREDIT, (("h", a), ("f", "vc")))
        m = eng.read(st, p)
        xs = [z3.Int("vc_%d" % x) for x in range(n)]
        for x, y in zip(xs, xs[1:]): st.assume(x < y)
        d = z3.K(z3.IntSort(), FALSE)
        for x in xs: d = z3.Store(d, x, TRUE)
        eng.write(st, p, MapV(d, None, m.kty, I(n)))
    return f


BM = dict(MODELS, **POLICY)
BSTATE = [
    Unit("BufferState::SendingFlit", P + "SendingFlit", setup=pol_setup, requires=send_pre, ensures=send_post, models=BM),
    Unit("BufferState::TakeBuffer", P + "TakeBuffer", setup=pol_setup, requires=take_pre, ensures=take_post, models=BM),
    Unit("BufferState::ProcessCredit(any set)", P + "ProcessCredit", setup=pol_setup, requires=credit_pre(0), ensures=credit_post(0), invs=credit_invs, models=dict(BM, **{"Module::Error": lambda *a: (_ for _ in ()).throw(DeadPath())})),
    Unit("BufferState::ProcessCredit(1 VC)", P + "ProcessCredit", setup=nset(1), requires=credit_pre(1), ensures=credit_post(1), models=BM, solver_unroll=True),
    Unit("BufferState::ProcessCredit(2 VCs)", P + "ProcessCredit", setup=nset(2), requires=credit_pre(2), ensures=credit_post(2), models=BM, solver_unroll=True),
]


# ---- buffer policies: the credit state they read is the heap object of _buffer_state
def bst(c, st=None): return c.obj(BS, c.this._buffer_state, st or c.pre)


def occ(c, x): return bst(c)._vc_occupancy[x]


def bs_ok(c, x): return [("credit state", And(c.this._buffer_state >= 1, bst(c)._vc_occupancy.len == bst(c)._vcs, bst(c)._in_use_by.len == bst(c)._vcs, 0 <= x, x < bst(c)._vcs, occ(c, x) >= 0))]


def fvc(c): return c.oobj(FLIT, c.arg(0)).vc


def pick(s, *n): return [x for x in s if x[0] in n]


PV = P + "PrivateBufferPolicy::"
def pv_req(c): return bs_ok(c, c.arg(0)) + [("size", c.this._vc_buf_size >= 1)]


PRIVATE = [
    Unit("private.SendingFlit", PV + "SendingFlit", requires=lambda c: bs_ok(c, fvc(c)) + [("flit", c.arg(0) >= 1), ("within the VC's buffer", occ(c, fvc(c)) <= c.this._vc_buf_size)], ensures=lambda c: [("limit kept", c.this._vc_buf_size == c.old._vc_buf_size)], models=MODELS),
    Unit("private.IsFullFor", PV + "IsFullFor", requires=pv_req, ensures=lambda c: [("full exactly when no slot is left", c.ret == (occ(c, c.arg(0)) >= c.this._vc_buf_size))], models=MODELS),
    Unit("private.AvailableFor", PV + "AvailableFor", requires=pv_req, ensures=lambda c: [("free slots", c.ret == c.this._vc_buf_size - occ(c, c.arg(0)))], models=MODELS),
    Unit("private.LimitFor", PV + "LimitFor", requires=pv_req, ensures=lambda c: [("limit", c.ret == c.this._vc_buf_size)], models=MODELS),
]
SH = P + "SharedBufferPolicy::"


def sh_inv(c, x, t=None):
    t = t or c.this
    n = t._private_buf_size.len
    m = t._private_buf_vc_map
    return [("tables", And(n >= 1, t._private_buf_occupancy.len == n, m.len == bst(c)._vcs, t._reserved_slots.len == bst(c)._vcs)),
            ("every VC has a private buffer", q([i], Implies(z3.And(0 <= i, i < m.len), z3.And(0 <= m[i], m[i] < n)))),
            ("counts", And(q([i], Implies(z3.And(0 <= i, i < n), And(t._private_buf_occupancy[i] >= 0, t._private_buf_size[i] >= 0))), q([i], Implies(z3.And(0 <= i, i < m.len), t._reserved_slots[i] >= 0)), 0 <= t._shared_buf_occupancy, t._shared_buf_occupancy <= t._shared_buf_size)),
            ("shared occupancy covers this private buffer's excess", excess(t, m[x]) <= t._shared_buf_occupancy)]


def excess(t, b):
    d = t._private_buf_occupancy[b] - t._private_buf_size[b]
    return z3.If(d > 0, d, I(0))


def sh_cons(c, x, sent):
    """accounting of one operation on VC x (private buffer b): nothing but b, x and the shared pool change"""
    t, o = c.this, c.old
    b = o._private_buf_vc_map[x]
    n, m = o._private_buf_size.len, o._private_buf_vc_map
    return [("maps and sizes kept", And(t._shared_buf_size == o._shared_buf_size, t._buf_size == o._buf_size, eqview(t._private_buf_size, o._private_buf_size), eqview(m, t._private_buf_vc_map), t._private_buf_occupancy.len == n, t._reserved_slots.len == m.len)),
            ("slots held = flits buffered + slots reserved", t._private_buf_occupancy[b] - o._private_buf_occupancy[b] == sent + t._reserved_slots[x] - o._reserved_slots[x]),
            ("shared pool holds exactly the excess", t._shared_buf_occupancy - o._shared_buf_occupancy == excess(t, b) - excess(o, b)),
            ("other private buffers untouched", q([i], Implies(z3.And(0 <= i, i < n, i != b), t._private_buf_occupancy[i] == o._private_buf_occupancy[i]))),
            ("other reservations untouched", q([i], Implies(z3.And(0 <= i, i < m.len, i != x), t._reserved_slots[i] == o._reserved_slots[i]))),
            ("counts stay counts", And(t._private_buf_occupancy[b] >= 0, t._reserved_slots[x] >= 0, t._shared_buf_occupancy >= 0, t._shared_buf_occupancy <= t._shared_buf_size))]


def sh_full(c, x, t=None):
    t = t or c.old
    b = t._private_buf_vc_map[x]
    return And(t._reserved_slots[x] == 0, t._private_buf_occupancy[b] >= t._private_buf_size[b], t._shared_buf_occupancy >= t._shared_buf_size)


def sh_avail(c, x, t=None):
    t = t or c.old
    b = t._private_buf_vc_map[x]
    d = t._private_buf_size[b] - t._private_buf_occupancy[b]
    return t._reserved_slots[x] + z3.If(d > 0, d, I(0)) + t._shared_buf_size - t._shared_buf_occupancy


def sh_send_pre(c):
    x = fvc(c)
    t = c.this
    return bs_ok(c, x) + sh_inv(c, x) + [("flit", c.arg(0) >= 1), ("not full", Not(sh_full(c, x, t))), ("slots held cover the reservations", t._private_buf_occupancy[t._private_buf_vc_map[x]] >= t._reserved_slots[x]), ("at most one slot is reserved, for an empty VC", t._reserved_slots[x] <= 1)]


def sh_send_post(c):
    x = fvc(c)
    f = c.oobj(FLIT, c.arg(0))
    return sh_cons(c, x, 1) + [("a reserved slot is used first", Implies(Not(f.tail), c.this._reserved_slots[x] == c.old._reserved_slots[x] - z3.If(c.old._reserved_slots[x] > 0, I(1), I(0)))), ("a tail returns every reserved slot", Implies(f.tail, c.this._reserved_slots[x] == 0)), ("no reservation while flits are buffered", c.this._reserved_slots[x] == 0)]


def sh_send_invs(L):
    t, o = L.this(), L.old_this
    ps = L.params()
    c = Ctx(L.eng, L.entry, L.st, L.fr.this, list(ps.values()))
    x = c.oobj(FLIT, c.arg(0)).vc
    # relative to the state at loop entry
    return [(l, g) for l, g in sh_cons(c, x, 0)] + [("fewer reservations", t._reserved_slots[x] <= o._reserved_slots[x]), ("held slots cover reservations", t._private_buf_occupancy[o._private_buf_vc_map[x]] >= t._reserved_slots[x]),
            ("shared covers excess", excess(t, o._private_buf_vc_map[x]) <= t._shared_buf_occupancy)]


def sh_free_pre(c):
    x = c.arg(0)
    t = c.this
    return bs_ok(c, x) + sh_inv(c, x) + [("a slot is held", t._private_buf_occupancy[t._private_buf_vc_map[x]] >= 1), ("no reservation while flits were buffered", t._reserved_slots[x] == 0)]


def sh_free_post(c):
    x = c.arg(0)
    keep = And(bst(c)._in_use_by[x] >= 0, occ(c, x) == 0)
    return sh_cons(c, x, -1) + [("the last slot of a VC in use is reserved, any other is returned", c.this._reserved_slots[x] == c.old._reserved_slots[x] + z3.If(keep, I(1), I(0)))]


def shq(fn, ens, name="shared", cls=SH, extra=None):
    return Unit("%s.%s" % (name, fn), cls + fn, requires=lambda c: bs_ok(c, c.arg(0)) + sh_inv(c, c.arg(0)) + (extra(c) if extra else []), ensures=ens, models=MODELS)


SHARED = [
    Unit("shared.SendingFlit", SH + "SendingFlit", requires=sh_send_pre, ensures=sh_send_post, invs=sh_send_invs, models=MODELS),
    Unit("shared.FreeSlotFor", SH + "FreeSlotFor", requires=sh_free_pre, ensures=sh_free_post, models=MODELS),
    shq("IsFullFor", lambda c: [("full exactly when neither reserved, private nor shared slots are left", c.ret == sh_full(c, c.arg(0))), ("full exactly when nothing is available", c.ret == (sh_avail(c, c.arg(0)) <= 0))]),
    shq("AvailableFor", lambda c: [("reserved + private + shared slots", c.ret == sh_avail(c, c.arg(0)))]),
    shq("LimitFor", lambda c: [("private + shared size", c.ret == c.old._private_buf_size[c.old._private_buf_vc_map[c.arg(0)]] + c.old._shared_buf_size)]),
]
LI, DY = P + "LimitedSharedBufferPolicy::", P + "DynamicLimitedSharedBufferPolicy::"


def held(c): return [("held slots limit", c.this._max_held_slots >= 1)]


def li_full(c, x): return Or(sh_full(c, x), occ(c, x) >= c.old._max_held_slots)


def mn(a, b): return z3.If(a < b, a, b)


def li_send(c): return sh_send_post(c) + [("active VCs", c.this._active_vcs == c.old._active_vcs - z3.If(c.oobj(FLIT, c.arg(0)).tail, I(1), I(0))), ("limit kept", c.this._max_held_slots == c.old._max_held_slots)]


def act(c): return [("active VCs", And(1 <= c.this._active_vcs, c.this._active_vcs <= c.this._vcs))]


def dy_send(c):
    f = c.oobj(FLIT, c.arg(0))
    t, o = c.this, c.old
    return sh_send_post(c) + [("active VCs", t._active_vcs == o._active_vcs - z3.If(f.tail, I(1), I(0))), ("equal share of the buffer for every active VC", z3.If(And(f.tail, t._active_vcs > 0), t._max_held_slots == o._buf_size / t._active_vcs, t._max_held_slots == o._max_held_slots))]


def enough(c): return [("a slot for every VC", And(c.this._vcs >= 1, c.this._buf_size >= c.this._vcs))]


def take_act(c): return [("a free VC", And(0 <= c.this._active_vcs, c.this._active_vcs < c.this._vcs))]


LIMITED = [
    Unit("limited.TakeBuffer", LI + "TakeBuffer", requires=take_act, ensures=lambda c: [("one more active VC", c.this._active_vcs == c.old._active_vcs + 1), ("limit kept", c.this._max_held_slots == c.old._max_held_slots)], models=MODELS),
    Unit("limited.SendingFlit", LI + "SendingFlit", requires=lambda c: sh_send_pre(c) + act(c), ensures=li_send, invs=sh_send_invs, models=MODELS),
    shq("IsFullFor", lambda c: [("full when the shared policy is or the VC holds its limit", c.ret == li_full(c, c.arg(0)))], "limited", LI, held),
    shq("AvailableFor", lambda c: [("the smaller of shared availability and remaining limit", c.ret == mn(sh_avail(c, c.arg(0)), c.old._max_held_slots - occ(c, c.arg(0)))), ("nothing available exactly when full", (c.ret <= 0) == li_full(c, c.arg(0)))], "limited", LI, held),
    shq("LimitFor", lambda c: [("the smaller of shared limit and held-slots limit", c.ret == mn(c.old._private_buf_size[c.old._private_buf_vc_map[c.arg(0)]] + c.old._shared_buf_size, c.old._max_held_slots))], "limited", LI, held),
    Unit("dynamic.TakeBuffer", DY + "TakeBuffer", requires=lambda c: take_act(c) + enough(c), ensures=lambda c: [("one more active VC", c.this._active_vcs == c.old._active_vcs + 1), ("equal share of the buffer for every active VC", c.this._max_held_slots == c.old._buf_size / c.this._active_vcs)], models=MODELS),
    Unit("dynamic.SendingFlit", DY + "SendingFlit", requires=lambda c: sh_send_pre(c) + act(c) + enough(c) + held(c), ensures=dy_send, invs=sh_send_invs, models=MODELS),
]

FB = P + "FeedbackSharedBufferPolicy::"
MAXS = z3.Function("max_slots", z3.IntSort(), z3.IntSort())
POW2 = z3.Function("pow2", z3.IntSort(), z3.IntSort())


def RTT(t, x, last):
    """moving average of the round-trip time: (1 - 2^-s) * average + 2^-s * last, rounded down"""
    r, s = t._round_trip_time[x], POW2(t._aging_scale)
    return z3.If(r < 0, last, (r * s + last - r) / s)


MAXC = Contract(FB + "_ComputeMaxSlots", requires=lambda c: fb_req(c), modifies=lambda c: [], ensures=lambda c: [("slots allowed", c.ret == MAXS(c.arg(0)))])
RTTC = Contract(FB + "_ComputeRTT", requires=lambda c: fb_req(c), modifies=lambda c: [], ensures=lambda c: [("estimate", c.ret == RTT(c.old, c.arg(0), c.arg(1)))])


def fb_limit(t, rtt):
    x = 2 * t._min_latency - rtt + t._offset
    return z3.If(x > 1, x, I(1))


def fbq(fn, ens):
    return Unit("feedback.%s" % fn, FB + fn, requires=lambda c: bs_ok(c, c.arg(0)) + sh_inv(c, c.arg(0)) + fb_req(c), ensures=ens, models=MODELS, contracts=[MAXC])


def fb_max(c):
    t, x = c.old, c.arg(0)
    sent = t._flit_sent_time[x]
    lim = fb_limit(t, RTT(t, x, NOW - sent[0]))
    return [("the VC's limit, lowered while the oldest flit is late", c.ret == z3.If(sent.len > 0, mn(t._occupancy_limit[x], lim), t._occupancy_limit[x]))]


def fb_req(c):
    t, x = c.this, c.arg(0)
    return [("aging scale", And(t._aging_scale >= 0, t._aging_scale <= 31)), ("tables", And(0 <= x, x < t._occupancy_limit.len, t._flit_sent_time.len == t._occupancy_limit.len, t._round_trip_time.len == t._occupancy_limit.len, t._flit_sent_time[x].len >= 0, t._min_latency >= 0))]


def fb_free(c):
    t, o, x = c.this, c.old, c.arg(0)
    new = RTT(o, x, NOW - o._flit_sent_time[x][0])
    lim = fb_limit(o, new)
    n = o._occupancy_limit.len
    return sh_free_post(c) + [("the oldest send time is consumed", And(t._flit_sent_time[x].len == o._flit_sent_time[x].len - 1, t._flit_sent_time[x].lo == o._flit_sent_time[x].lo + 1)),
        ("round trip and limit follow the returned flit", And(t._round_trip_time[x] == new, t._occupancy_limit[x] == lim)),
        ("other VCs' limits untouched", q([i], Implies(z3.And(0 <= i, i < n, i != x), And(t._occupancy_limit[i] == o._occupancy_limit[i], t._round_trip_time[i] == o._round_trip_time[i]))))]


FEEDBACK = [
    fbq("IsFullFor", lambda c: [("full when the shared policy is or the VC holds its limit", c.ret == Or(sh_full(c, c.arg(0)), occ(c, c.arg(0)) >= MAXS(c.arg(0))))]),
    fbq("AvailableFor", lambda c: [("the smaller of shared availability and remaining limit", c.ret == mn(sh_avail(c, c.arg(0)), MAXS(c.arg(0)) - occ(c, c.arg(0))))]),
    Unit("feedback._ComputeLimit", FB + "_ComputeLimit", requires=lambda c: [("minimum latency set", c.this._min_latency >= 0)], ensures=lambda c: [("twice the minimum latency less the round trip, at least one", c.ret == fb_limit(c.old, c.arg(0)))], models=MODELS),
    Unit("feedback._ComputeRTT", FB + "_ComputeRTT", requires=lambda c: fb_req(c), ensures=lambda c: [("moving average", c.ret == RTT(c.old, c.arg(0), c.arg(1)))], models=MODELS),
    Unit("feedback._ComputeMaxSlots", FB + "_ComputeMaxSlots", requires=fb_req, ensures=fb_max, models=MODELS, contracts=[RTTC]),
    Unit("feedback.SendingFlit", FB + "SendingFlit", requires=lambda c: sh_send_pre(c) + [("tables", And(c.this._flit_sent_time.len == bst(c)._vcs, c.this._flit_sent_time[fvc(c)].len >= 0))], invs=sh_send_invs, models=MODELS,
         ensures=lambda c: sh_send_post(c) + [("send time recorded last", And(c.this._flit_sent_time[fvc(c)].len == c.old._flit_sent_time[fvc(c)].len + 1, c.this._flit_sent_time[fvc(c)][c.old._flit_sent_time[fvc(c)].len] == NOW))]),
    Unit("feedback.FreeSlotFor", FB + "FreeSlotFor", requires=lambda c: sh_free_pre(c) + fb_req(c) + [("an outstanding flit", c.this._flit_sent_time[c.arg(0)].len >= 1)], ensures=fb_free, models=MODELS, contracts=[RTTC]),
]


# ---- channels (links, credit links): delay and order
def ch(t): return t._wait_queue


def ch_inv(t, now, last):
    """pending items leave in strictly increasing cycles, none before now, the newest at most at last"""
    w = ch(t)
    a, b = z3.Ints("ca cb")
    hi = w.lo + w.len
    return [("delay positive", t._delay >= 1), ("queue", And(w.len >= 0)),
            ("due cycles strictly increase", q([a, b], Implies(z3.And(w.lo <= a, a < b, b < hi), w.abs(a).first < w.abs(b).first))),
            ("nothing is overdue and nothing later than its delay", q([a], Implies(z3.And(w.lo <= a, a < hi), And(w.abs(a).first >= now, w.abs(a).first <= last, w.abs(a).second != 0))))]


def chan_units(cls, direct):
    C = "Channel<%s>::" % cls if not direct else direct + "::"
    nm = direct or "Channel<%s>" % cls

    def read_post(c):
        t, o = c.this, c.old
        w, v_ = ch(t), ch(o)
        n = v_.len
        return ch_inv(t, NOW, NOW + t._delay - 1) + [("input taken", t._input == 0), ("an input is queued last, due delay-1 cycles from now", Implies(o._input != 0, And(w.len == n + 1, w[n].first == NOW + o._delay - 1, w[n].second == o._input))),
            ("nothing queued without input", Implies(o._input == 0, w.len == n)), ("queued items kept in order", And(w.lo == v_.lo, q([k], Implies(z3.And(v_.lo <= k, k < v_.lo + n), And(w.abs(k).first == v_.abs(k).first, w.abs(k).second == v_.abs(k).second))))),
            ("delay and output kept", And(t._delay == o._delay, t._output == o._output))]

    def write_post(c):
        t, o = c.this, c.old
        w, v_ = ch(t), ch(o)
        due = And(v_.len > 0, v_[0].first == NOW)
        return ch_inv(t, NOW + 1, NOW + t._delay - 1) + [("the item due in this cycle comes out", t._output == z3.If(due, v_[0].second, I(0))), ("exactly that item leaves the queue", And(w.len == v_.len - z3.If(due, I(1), I(0)), w.lo == v_.lo + z3.If(due, I(1), I(0)))),
            ("the rest kept in order", q([k], Implies(z3.And(w.lo <= k, k < w.lo + w.len), And(w.abs(k).first == v_.abs(k).first, w.abs(k).second == v_.abs(k).second)))), ("delay and input kept", And(t._delay == o._delay, t._input == o._input))]
    return [Unit(nm + "::ReadInputs", C + "ReadInputs", cls=None, requires=lambda c: ch_inv(c.this, NOW, NOW + c.this._delay - 2) + [("objects", c.this._input >= 0)], ensures=read_post, models=MODELS),
            Unit(nm + "::WriteOutputs", C + "WriteOutputs", requires=lambda c: ch_inv(c.this, NOW, NOW + c.this._delay - 1), ensures=write_post, models=MODELS),
            Unit(nm + "::Send", C + "Send", requires=lambda c: [("object", And(c.arg(0) >= 0, *([Implies(c.arg(0) != 0, And(0 <= c.obj(FLIT, c.arg(0)).cl, c.obj(FLIT, c.arg(0)).cl < c.this._active.len))] if direct else [])))], ensures=lambda c: [("input latched", c.this._input == c.arg(0)), ("queue untouched", eqview(ch(c.this), ch(c.old)))], models=MODELS)]


CHANNELS = chan_units("Flit", None) + chan_units("Credit", None) + chan_units("Flit", "FlitChannel") + [Unit("Channel<%s>::Receive" % x, "Channel<%s>::Receive" % x, ensures=lambda c: [("the output of this cycle", c.ret == c.this._output)], models=MODELS) for x in ("Flit", "Credit")]


# ---- virtual channel queues and input buffers
def upd(c): return []


UPD = Contract("VC::UpdatePriority", requires=lambda c: [("flits", c.this._buffer.all(lambda x, a: x >= 1))], modifies=lambda c: [c.thisp.fld("_pri")], ensures=lambda c: [])


def vc_add_pre(c):
    t, f = c.this, c.obj(FLIT, c.arg(0))
    return [("flits", t._buffer.all(lambda x, a: x >= 1)), ("flit", c.arg(0) >= 1), ("queue", t._buffer.len >= 0), ("flits of one packet arrive together", Implies(t._expected_pid >= 0, f.pid == t._expected_pid)), ("packet ids", And(f.pid >= 0, f.hops >= 0, NOW >= 0, NOW < 2 ** 31 - 1))]


def vc_add_post(c):
    t, o = c.this, c.old
    w, u = t._buffer, o._buffer
    f = c.oobj(FLIT, c.arg(0))
    g = c.obj(FLIT, c.arg(0))
    return [("the flit is queued last", And(w.len == u.len + 1, w[u.len] == c.arg(0))), ("queued flits kept in order", And(w.lo == u.lo, q([k], Implies(z3.And(u.lo <= k, k < u.lo + u.len), w.abs(k) == u.abs(k))))),
            ("an unfinished packet keeps the queue to itself", t._expected_pid == z3.If(f.tail, z3.If(o._expected_pid >= 0, I(-1), o._expected_pid), f.pid)), ("state kept", And(t._state == o._state, t._out_port == o._out_port, t._out_vc == o._out_vc)),
            ("only the priority of the flit may change", And(g.id == f.id, g.pid == f.pid, g.vc == f.vc, g.head == f.head, g.tail == f.tail, g.dest == f.dest, g.cl == f.cl, g.type == f.type, g.src == f.src, g.hops == f.hops, g.data == f.data))]


def vc_rm_post(c):
    t, o = c.this, c.old
    w, u = t._buffer, o._buffer
    return [("the oldest flit", c.ret == u[0]), ("exactly it leaves", And(w.len == u.len - 1, w.lo == u.lo + 1, q([k], Implies(z3.And(w.lo <= k, k < w.lo + w.len), w.abs(k) == u.abs(k))))), ("state kept", And(t._state == o._state, t._expected_pid == o._expected_pid, t._out_port == o._out_port, t._out_vc == o._out_vc))]


def pri_post(c):
    t, o = c.this, c.old
    return [("queue kept", eqview(t._buffer, o._buffer)), ("an empty queue keeps its priority", Implies(o._buffer.len == 0, t._pri == o._pri))]


VCQ = [
    Unit("VC::UpdatePriority", "VC::UpdatePriority", requires=lambda c: [("flits", c.this._buffer.all(lambda x, a: x >= 1))], ensures=lambda c: [], models=MODELS,
         invs=lambda L: [("donor and front are flits", And(*[x >= 1 for x in (L.local("df"), L.local("f")) if x is not None]))]),
    Unit("VC::AddFlit", "VC::AddFlit", requires=vc_add_pre, ensures=vc_add_post, models=MODELS, contracts=[UPD]),
    Unit("VC::RemoveFlit", "VC::RemoveFlit", requires=lambda c: [("not empty", c.this._buffer.len > 0), ("flits", c.this._buffer.all(lambda x, a: x >= 1))], ensures=vc_rm_post, models=MODELS, contracts=[UPD]),
    Unit("VC::FrontFlit", "VC::FrontFlit", requires=lambda c: [("queue", c.this._buffer.len >= 0)], ensures=lambda c: [("the oldest flit or none", c.ret == z3.If(c.this._buffer.len > 0, c.this._buffer[0], I(0)))], models=MODELS),
    Unit("VC::Empty", "VC::Empty", requires=lambda c: [("queue", c.this._buffer.len >= 0)], ensures=lambda c: [("empty", c.ret == (c.this._buffer.len == 0))], models=MODELS),
    Unit("VC::GetOccupancy", "VC::GetOccupancy", requires=lambda c: [("queue", c.this._buffer.len >= 0)], ensures=lambda c: [("queue length", c.ret == c.this._buffer.len)], models=MODELS),
    Unit("VC::SetRouteSet", "VC::SetRouteSet", ensures=lambda c: [("a new route has no output yet", And(c.this._out_port == -1, c.this._out_vc == -1))], models=MODELS),
    Unit("VC::SetOutput", "VC::SetOutput", ensures=lambda c: [("output stored", And(c.this._out_port == c.arg(0), c.this._out_vc == c.arg(1)))], models=MODELS),
]


def buf(t): return [("buffer", And(t._vc.len >= 1, t._size >= 1, t._occupancy >= 0))]


def vcobj(c, x, st=None): return c.obj("VC", c.this._vc[x], st)


BUFFER = [
    Unit("Buffer::AddFlit", "Buffer::AddFlit", requires=lambda c: buf(c.this) + [("room", c.this._occupancy < c.this._size), ("VC", And(0 <= c.arg(0), c.arg(0) < c.this._vc.len, c.this._vc[c.arg(0)] >= 1))], ensures=lambda c: [("one more flit counted", And(c.this._occupancy == c.old._occupancy + 1, c.this._size == c.old._size)), ("handed to its VC once", And(ev(c, "add").n == 1, ev(c, "add").vc == c.old._vc[c.arg(0)], ev(c, "add").f == c.arg(1)))],
         setup=lambda eng, st, c: st.store.__setitem__("ev:add", Rec("ev", {"n": I(0), "vc": I(0), "f": I(0)})), models=dict(MODELS, **{"VC::AddFlit": lambda eng, st, fr, n, obj, args: vcadd(eng, st, fr, n, obj, args)})),
    Unit("Buffer::RemoveFlit", "Buffer::RemoveFlit", requires=lambda c: buf(c.this) + [("a flit", c.this._occupancy >= 1), ("VC", And(0 <= c.arg(0), c.arg(0) < c.this._vc.len, c.this._vc[c.arg(0)] >= 1, vcobj(c, c.arg(0), c.pre)._buffer.len >= 1, vcobj(c, c.arg(0), c.pre)._buffer.all(lambda x, a: x >= 1)))],
         ensures=lambda c: [("one flit fewer counted", c.this._occupancy == c.old._occupancy - 1), ("the VC's oldest flit", c.ret == vcobj(c, c.arg(0), c.pre)._buffer[0]), ("it left the VC", vcobj(c, c.arg(0))._buffer.len == vcobj(c, c.arg(0), c.pre)._buffer.len - 1)], models=MODELS, contracts=[UPD]),
    Unit("Buffer::Full", "Buffer::Full", ensures=lambda c: [("full when every slot is used", c.ret == (c.this._occupancy >= c.this._size))], models=MODELS),
    Unit("Buffer::FrontFlit", "Buffer::FrontFlit", requires=lambda c: [("VC", And(0 <= c.arg(0), c.arg(0) < c.this._vc.len, c.this._vc[c.arg(0)] >= 1, vcobj(c, c.arg(0), c.pre)._buffer.len >= 0))],
         ensures=lambda c: [("the VC's oldest flit or none", c.ret == z3.If(vcobj(c, c.arg(0), c.pre)._buffer.len > 0, vcobj(c, c.arg(0), c.pre)._buffer[0], I(0)))], models=MODELS),
]


def vcadd(eng, st, fr, n, obj, args):
    e = st.store["ev:add"]
    st.store["ev:add"] = Rec("ev", {"n": e.f["n"] + 1, "vc": eng.rv(obj, st, fr), "f": eng.toint(eng.rv(args[0], st, fr))})


HS = [BOOK + "/" + x + ".cpp" for x in ("buffer_state", "credit", "flit", "flitchannel", "vc", "buffer", "module", "timed_module", "outputset", "booksim_config", "config_utils")] + [BOOK + "/y.tab.c", BOOK + "/lex.yy.c"]


def harness(name, arg, quick=12):
    return Harness("flow_" + name, "flow.cpp", [x for x in HS if os.path.exists(x)], SIM_INC + ["-fno-access-control"], [], quick=quick, args=[arg])


FLOWA = ["configuration values are uninterpreted", "class invariants over sums (total = sum of per-VC counts, shared pool = sum of excesses) are carried as conserved differences of every operation", "the logging branches for watched flits are opaque"]
HN = "random operation sequences on the compiled classes compared with an independent reference; bounded, never counted as proved"
PROPS = {
    "P10": {"groups": [{"name": "credit state", "srcs": SRCS, "flags": FLAGS, "units": BSTATE + PRIVATE + SHARED + LIMITED + FEEDBACK}], "harness": lambda: [harness("credits", "credits")], "assumptions": FLOWA + ["SimpleFeedback and Shifting policies and the constructors are exercised by the bounded harness only; the round-trip estimate is an uninterpreted function"], "harness_note": HN},
    "P12": {"groups": [{"name": "channels and buffers", "srcs": CHSRCS, "flags": FLAGS, "units": CHANNELS + VCQ + BUFFER}], "harness": lambda: [harness("channels", "channels")], "assumptions": FLOWA + ["every channel's ReadInputs and WriteOutputs run once per cycle (Network tick, P03)", "a channel's latency is set before traffic"], "harness_note": HN},
}

if __name__ == "__main__":
    if sys.argv[1:2] == ["ch"]: p = load(CHSRCS, FLAGS); us = CHANNELS + VCQ + BUFFER; del sys.argv[1]
    else:
        p = load(SRCS, FLAGS)
        us = BSTATE + PRIVATE + SHARED + LIMITED + FEEDBACK
    if len(sys.argv) > 1: us = [u for u in us if sys.argv[1] in u.name]
    for r in run_units(p, us, 8): show(r, len(sys.argv) > 2)
