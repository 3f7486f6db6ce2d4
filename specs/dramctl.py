"""DRAM controller: transactions, pending tables, and the one place commands are issued (P14, P15)."""
from dram import *

CT = NS + "Controller"
CA = alias(("channel_state_.config_", "config_"), ("cmd_queue_.config_", "config_"), ("cmd_queue_.channel_state_", "channel_state_"), ("refresh_.channel_state_", "channel_state_"), ("refresh_.config_", "config_"))
a_, i, x, y, i2 = z3.Ints("a i x y i2")
GQ = QMAP(GA)
AMF = {n: z3.Function("map_" + n, z3.IntSort(), z3.IntSort()) for n in ("channel", "rank", "bankgroup", "bank", "row", "column")}


def amap(h):
    class A: pass
    r_ = A()
    for n in AMF: setattr(r_, n, AMF[n](h))
    return r_


def am_is(ad, h): return And(*[getattr(ad, n) == AMF[n](h) for n in AMF])


AM = Contract(NS + "Config::AddressMapping", None, lambda c: [("the place of an address, which exists", And(am_is(c.ret, c.arg(0)), inr(c.this, c.ret.rank, c.ret.bankgroup, c.ret.bank)))])


# ---- UpdateTimingAndStates: the two updates of one issued command
def allbanks(g, f):
    """the claim for one arbitrary bank holds for every bank"""
    return q([r, j, k], Implies(inr(g, r, j, k), z3.substitute(f, (GR, r), (GJ, j), (GK, k))))


def uts_pre(c):
    t, g, m = c.this, cfg_(c), c.arg(0)
    us = [(l, f) for l, f in usc_pre(c) if l != "some bank"]
    return us + [("command", And(0 <= m.cmd_type, m.cmd_type < 10))] + win_inv(t, g) + [("window widths", And(g.tFAW >= 0, g.t32AW >= 0)), ("delay tables", And(Implies(isrank(m.cmd_type), tables_ok(c, True)), Implies(Not(isrank(m.cmd_type)), tables_ok(c, False)))), ("an activation fits its windows", Implies(m.cmd_type == ACT, aw_ok(t, g, m.addr.rank, c.arg(1)))), ("per-rank tables", banks_inv(t, g)[1][1])]


USC = Contract(CS + "::UpdateState", lambda c: [(l, f) for l, f in usc_pre(c) if l != "some bank"], lambda c: [(l, allbanks(c.old.config_, f) if l not in ("bank table", "per-rank tables") else f) for l, f in usc_post(c)],
               modifies=lambda c: [(c.thisp.fld("bank_states_"), s_) for s_ in (".state_", ".open_row_", ".row_hit_count_")][:0] + [c.thisp.fld("bank_states_"), c.thisp.fld("refresh_q_"), c.thisp.fld("rank_is_sref_")])
UTM = Contract(CS + "::UpdateTiming", lambda c: [(l, f) for l, f in utm_pre(c) if l != "some bank"], lambda c: [(l, f if l in [n for n, _ in win_inv(c.this, c.this.config_)] + ["per-rank tables stay"] else Implies(gin(c.old.config_), f)) for l, f in utm_post(c)],
               modifies=lambda c: [(c.thisp.fld("bank_states_"), ".cmd_timing_[]")] + [c.thisp.fld(n) for n in ("four_aw_", "thirty_two_aw_")])


def uts_states(c):
    t, o, m, g = c.this, c.old, c.arg(0), c.old.config_
    R = m.addr.rank
    isref = Or(m.cmd_type == REF, m.cmd_type == REFB)
    hit = lambda a, b, d_: If(isrank(m.cmd_type), a == R, And(a == R, b == m.addr.bankgroup, d_ == m.addr.bank))
    B_ = lambda s: s.bank_states_[r][j][k]
    return banks_inv(t, g) + win_inv(t, g) + [("addressed banks take the step, others keep their state", q([r, j, k], Implies(inr(g, r, j, k), If(hit(r, j, k), stepped_state(B_(t), B_(o), m), bank_same(B_(t), B_(o)))))),
        ("a refresh answers the oldest request", q_popped(t.refresh_q_, o.refresh_q_, If(isref, I(1), I(0)))),
        ("self-refresh follows entry and exit", q([r], Implies(z3.And(0 <= r, r < g.ranks), t.rank_is_sref_[r] == If(And(r == R, m.cmd_type == SRE), TRUE, If(And(r == R, m.cmd_type == SRX), FALSE, o.rank_is_sref_[r])))))]


def stepped_state(b, a, m): return b.state_ == step(a.state_, m.cmd_type)


def uts_post(c): return uts_states(c) + [(l, Implies(gin(c.old.config_), f)) for l, f in utm_post(c) if l not in [n for n, _ in win_inv(c.this, c.this.config_)]]


UTS = Contract(CS + "::UpdateTimingAndStates", uts_pre, uts_states, modifies=lambda c: [c.thisp.fld(n) for n in ("bank_states_", "refresh_q_", "rank_is_sref_", "four_aw_", "thirty_two_aw_")])


# ---- pending transactions
def nrd(t, h): return t.pending_rd_q_.at(h).len


def nwr(t, h): return t.pending_wr_q_.at(h).len


def each_entry(t, f):
    Q = t.cmd_queue_
    return q([i, x], Implies(z3.And(0 <= i, i < Q.num_queues_, 0 <= x, x < Q.queues_[i].len), f(Q.queues_[i][x])))


def lists(t): return [("read queue", t.read_queue_, False), ("write buffer", t.write_buffer_, True), ("unified queue", t.unified_queue_, None)]


def pend_inv(t):
    Q = t.cmd_queue_
    out = [("queued commands name the place of their address", each_entry(t, lambda m: And(isrw(m.cmd_type), am_is(m.addr, m.hex_addr), m.hex_addr >= 0))),
           ("a queued command is in the queue of its address", in_own_queue(Q)),
           ("a queued command has a pending transaction", each_entry(t, lambda m: If(isread(m), nrd(t, m.hex_addr) >= 1, nwr(t, m.hex_addr) >= 1))),
           ("no two queued commands serve the same transactions", serve_once(Q)),
           ("at most one pending write of an address", q([a_], And(nwr(t, a_) <= 1, nwr(t, a_) >= 0, nrd(t, a_) >= 0))),
           ("one kind of queue is used", If(t.is_unified_queue_, And(t.read_queue_.len == 0, t.write_buffer_.len == 0), t.unified_queue_.len == 0)),
           ("split queues: a write is queued only when no read of its address is pending", Implies(Not(t.is_unified_queue_), each_entry(t, lambda m: Implies(iswrite(m), nrd(t, m.hex_addr) == 0))))]
    for nm, Z, w in lists(t):
        kind = (lambda e_: e_.is_write) if w is None else (lambda e_, w=w: z3.BoolVal(w))
        out += [(nm + ": entries have a pending transaction", q([x], Implies(z3.And(0 <= x, x < Z.len), And(Z[x].addr >= 0, TRUE if w is None else Z[x].is_write == w, If(kind(Z[x]), nwr(t, Z[x].addr) >= 1, nrd(t, Z[x].addr) >= 1))))),
                (nm + ": entries are distinct", q([x, y], Implies(z3.And(0 <= x, x < y, y < Z.len), Not(And(Z[x].addr == Z[y].addr, TRUE if w is not None else Z[x].is_write == Z[y].is_write))))),
                (nm + ": entries are not queued as commands", q([i, x, y], Implies(z3.And(0 <= i, i < Q.num_queues_, 0 <= x, x < Q.queues_[i].len, 0 <= y, y < Z.len), Not(And(Q.queues_[i][x].hex_addr == Z[y].addr, isread(Q.queues_[i][x]) == Not(kind(Z[y])))))))]
    return out


def waits(t, w, goal):
    """a transaction to GA of this kind waits in some queue. As a hypothesis its position is a free constant; as a goal the position
    is one of the few it can have (where it was, one place nearer the front, the end of a queue)"""
    def somewhere(nm, Z, f):
        sk = z3.Int("position_%s_%s" % (nm, "write" if w else "read"))
        if goal == "ex": return z3.Exists([x], z3.And(0 <= x, x < Z.len, f(Z[x])))
        return Or(*[And(0 <= x_, x_ < Z.len, f(Z[x_])) for x_ in ([sk, sk - 1, Z.len - 1] if goal else [sk])])
    C_ = t.cmd_queue_.queues_[GQ]
    out = [somewhere("command queue", C_, lambda m: And(m.hex_addr == GA, (iswrite if w else isread)(m)))]
    for nm, Z, wz in lists(t):
        if wz in (w, None): out.append(somewhere(nm, Z, lambda e_: And(e_.addr == GA, e_.is_write == w)))
    return Or(*out)


def never_lost(t, goal=True): return [("every pending %s waits in some queue" % n, Implies(cnt(t, GA) >= 1, waits(t, w, goal))) for n, w, cnt in (("read", False, nrd), ("write", True, nwr))]


def ghost_queue(t):
    """QMAP names the queue of an address (a definition); that GQ, the queue of the arbitrary address GA, is one of the queues is the
    lemma queue index"""
    Q = t.cmd_queue_
    return [qmap_def(t), ("the queue of that address", And(Q.queues_[GQ].len >= 0, 0 <= GQ, GQ < Q.num_queues_, inr(t.config_, AMF["rank"](GA), AMF["bankgroup"](GA), AMF["bank"](GA))))]


def never_lost_pre(t): return never_lost(t, False) + ghost_queue(t)


def ctl_cq(t):
    Q = t.cmd_queue_
    return cq_inv(Q) + geo(Q) + [("queue size", Q.queue_size_ >= 0)]


def ctl_cs(t): return banks_inv(t.channel_state_, t.config_) + win_inv(t.channel_state_, t.config_) + sref_inv(t.channel_state_, t.config_)


def refq_inv(t):
    cs, g = t.channel_state_, t.config_
    R = cs.refresh_q_
    return [("refresh requests name places that are awake", q([x], Implies(z3.And(0 <= x, x < R.len), And(ref_ok(t.cmd_queue_, R[x]), Not(cs.rank_is_sref_[R[x].addr.rank]))))), ("held queues", And(fr_inv(t.cmd_queue_)[0][1], Implies(t.cmd_queue_.is_in_ref_, R.len >= 1)))]


def timing_pre(t):
    tm = t.channel_state_.timing_
    names = ["same_rank", "same_bank", "other_banks_same_bankgroup", "other_bankgroups_same_rank", "other_ranks"]
    return [("delay tables", And(t.config_.tFAW >= 0, t.config_.t32AW >= 0, *[And(getattr(tm, n).len == 10, q([d], Implies(z3.And(0 <= d, d < 10), list_ok(getattr(tm, n)[d])))) for n in names]))]


def ctl_inv(t): return ctl_cs(t) + ctl_cq(t) + refq_inv(t) + pend_inv(t)


# ---- IssueCommand
def ic_step(t, m):
    """the command may be issued now: right bank states, earliest times reached, windows open"""
    return issuable(t.channel_state_, t.config_, m, t.clk_)


def ic_pre(c):
    t, m = c.this, c.arg(0)
    cs = t.channel_state_
    R0 = cs.refresh_q_[0]
    return ctl_cs(t) + timing_pre(t) + [("delays", And(t.config_.read_delay >= 0, t.config_.write_delay >= 0)), ("the command may be issued now", ic_step(t, m)), ("a refresh was asked for", Implies(Or(m.cmd_type == REF, m.cmd_type == REFB), And(cs.refresh_q_.len >= 1, R0.addr.rank == m.addr.rank, Implies(m.cmd_type == REFB, And(R0.addr.bankgroup == m.addr.bankgroup, R0.addr.bank == m.addr.bank))))),
        ("a read or write has a pending transaction", And(Implies(isread(m), nrd(t, m.hex_addr) >= 1), Implies(iswrite(m), nwr(t, m.hex_addr) >= 1)))]


def trans_is(e_, f_, done=None): return And(e_.addr == f_.addr, e_.added_cycle == f_.added_cycle, e_.is_write == f_.is_write, e_.complete_cycle == (f_.complete_cycle if done is None else done))


def kept_trans(new, old, n=None):
    n = old.len if n is None else n
    return And(new.lo == old.lo, q([x], Implies(z3.And(old.lo <= x, x < old.lo + n), trans_is(new.abs(x), old.abs(x)))))


def ic_post(c):
    t, o, m, g = c.this, c.old, c.arg(0), c.old.config_
    R_, P_ = t.return_queue_, o.return_queue_
    pd = o.pending_rd_q_.at(m.hex_addr)
    n = If(isread(m), nrd(o, m.hex_addr), I(0))
    moved = q([x], Implies(z3.And(P_.lo + P_.len <= x, x < R_.lo + R_.len), trans_is(R_.abs(x), pd.abs(x - (P_.lo + P_.len) + pd.lo), o.clk_ + g.read_delay)))
    return [("a read completes every pending read of its address, each once, after the read delay", Implies(isread(m), moved)), ("as many complete as were pending", Implies(isread(m), R_.len == P_.len + nrd(o, m.hex_addr))), ("only reads complete", Implies(Not(isread(m)), R_.len == P_.len)), ("earlier completions stay", Implies(isread(m), kept_trans(R_, P_))), ("earlier completions stay (no read)", Implies(Not(isread(m)), kept_trans(R_, P_))),
            ("those reads and only those leave the table", q([a_], nrd(t, a_) == If(And(isread(m), a_ == m.hex_addr), I(0), nrd(o, a_)))), ("other reads stay as they are", Implies(isread(m), reads_stay(t, o, m.hex_addr))), ("all reads stay as they are (no read)", Implies(Not(isread(m)), reads_stay(t, o, None))),
            ("a write leaves the table, once", q([a_], nwr(t, a_) == nwr(o, a_) - If(And(iswrite(m), a_ == m.hex_addr), I(1), I(0))))]


def ic_channel(c):
    """the channel takes the step of the command"""
    t, o, m, g = c.this, c.old, c.arg(0), c.old.config_
    T, O = t.channel_state_, o.channel_state_
    class C2: pass
    c2 = C2()
    c2.this, c2.old, c2.arg = T, O, c.arg
    return [("channel: " + l, f) for l, f in uts_states(c2)]


def ic_invs(L):
    """reads moved so far"""
    t, o = L.this(), L.old_this
    m = [View(L.eng, L.entry, None, v) for v in L.params().values() if isinstance(v, Rec)][0]
    h = m.hex_addr
    R_, P_, pd, pn = t.return_queue_, o.return_queue_, o.pending_rd_q_.at(h), t.pending_rd_q_.at(h)
    out = []
    for nm, v in L.ints():
        n = nrd(o, h) - v
        out += [("as many left as still to move", And(v == nrd(t, h), v <= nrd(o, h))), ("moved reads complete after the read delay", And(R_.len == P_.len + n, R_.lo == P_.lo)), ("moved reads are those of the table, in order", q([x], Implies(z3.And(P_.lo + P_.len <= x, x < R_.lo + R_.len), trans_is(R_.abs(x), pd.abs(x - (P_.lo + P_.len) + pd.lo), o.clk_ + o.config_.read_delay)))),
                ("reads still to move stay in order", And(pn.lo == pd.lo + n, q([x], Implies(z3.And(pn.lo <= x, x < pd.lo + nrd(o, h)), trans_is(pn.abs(x), pd.abs(x))))))]
    return out + [("earlier completions stay", q([x], Implies(z3.And(P_.lo <= x, x < P_.lo + P_.len), trans_is(R_.abs(x), P_.abs(x))))), ("other addresses stay", q([a_], Implies(a_ != h, nrd(t, a_) == nrd(o, a_)))), ("other reads stay", q([a_], Implies(a_ != h, t.pending_rd_q_.at(a_).lo == o.pending_rd_q_.at(a_).lo))), ("their contents stay", q([a_, x], Implies(a_ != h, trans_is(t.pending_rd_q_.at(a_).abs(x), o.pending_rd_q_.at(a_).abs(x)))))]


def reads_stay(t, o, h):
    """pending reads (but those of h) are the same transactions in the same order"""
    but = TRUE if h is None else a_ != h
    T, O = (lambda a: t.pending_rd_q_.at(a)), (lambda a: o.pending_rd_q_.at(a))
    return And(q([a_], Implies(but, And(T(a_).lo == O(a_).lo, T(a_).len == O(a_).len))), q([a_, x], Implies(And(but, T(a_).lo <= x, x < T(a_).lo + T(a_).len), trans_is(T(a_).abs(x), O(a_).abs(x)))))


ICM = lambda c: [c.thisp.fld(n) for n in ("pending_rd_q_", "pending_wr_q_", "return_queue_")] + [c.thisp.fld("channel_state_").fld(n) for n in ("bank_states_", "refresh_q_", "rank_is_sref_", "four_aw_", "thirty_two_aw_")]
IC = Contract(CT + "::IssueCommand", ic_pre, lambda c: ic_post(c) + ic_channel(c), modifies=ICM)

UTSU = [Unit("ChannelState::UpdateTimingAndStates", CS + "::UpdateTimingAndStates", requires=uts_pre, ensures=uts_post, models=MODELS, contracts=[USC, UTM])]
ISSUE = [Unit("Controller::IssueCommand", CT + "::IssueCommand", setup=CA, requires=ic_pre, ensures=lambda c: ic_post(c) + ic_channel(c), invs=ic_invs, models=MODELS, contracts=[UTS])]


# ---- AddTransaction
def at_pre(c):
    t, tr = c.this, c.arg(0)
    return pend_inv(t) + [("an address", tr.addr >= 0), ("queues", ctl_cq(t)[0][1])]


def at_post(c):
    t, o, tr = c.this, c.old, c.arg(0)
    R_, P_ = t.return_queue_, o.return_queue_
    h = tr.addr
    w = tr.is_write
    fwd = And(Not(w), nwr(o, h) > 0)
    new = lambda e_, done=None: And(e_.addr == h, e_.is_write == w, e_.added_cycle == o.clk_, TRUE if done is None else e_.complete_cycle == done)
    pd = t.pending_rd_q_.at(h)
    return [("always accepted", c.ret), ("a write, or a read of an address about to be written, completes in the next cycle, once", If(Or(w, fwd), And(R_.len == P_.len + 1, new(R_[P_.len], o.clk_ + 1), kept_trans(R_, P_)), And(R_.len == P_.len, kept_trans(R_, P_)))),
            ("any other read becomes pending, behind earlier reads of its address", Implies(And(Not(w), Not(fwd)), And(nrd(t, h) == nrd(o, h) + 1, new(pd[nrd(o, h)])))), ("no other read becomes pending", q([a_], Implies(Or(a_ != h, w, fwd), nrd(t, a_) == nrd(o, a_)))), ("pending reads stay", q([a_, x], Implies(And(0 <= x, x < nrd(o, a_)), trans_is(t.pending_rd_q_.at(a_)[x], o.pending_rd_q_.at(a_)[x])))),
            ("a write is pending at its address", q([a_], nwr(t, a_) == If(And(w, a_ == h), I(1), nwr(o, a_))))]


def with_inv(pre, inv): return lambda c: pre(c) + inv(c.this)


def full(f): return lambda c: f(c) + pend_inv(c.this) + never_lost(c.this)


ATM = lambda c: [c.thisp.fld(n) for n in ("pending_rd_q_", "pending_wr_q_", "return_queue_", "read_queue_", "write_buffer_", "unified_queue_", "last_trans_clk_")]
AT = Contract(CT + "::AddTransaction", at_pre, at_post, modifies=ATM)


# ---- ReturnDoneTrans
def rd_post(c):
    t, o, clk = c.this, c.old, c.arg(0)
    R_, P_ = t.return_queue_, o.return_queue_
    due = lambda e_: e_.complete_cycle <= clk
    first = lambda y_: And(0 <= y_, y_ < P_.len, due(P_[y_]), q([x], Implies(z3.And(0 <= x, x < y_), Not(due(P_[x])))))
    gone = lambda y_: And(R_.len == P_.len - 1, q([x], Implies(z3.And(0 <= x, x < y_), trans_is(R_[x], P_[x]))), q([x], Implies(z3.And(y_ <= x, x < R_.len), trans_is(R_[x], P_[x + 1]))))
    none = q([x], Implies(z3.And(0 <= x, x < P_.len), Not(due(P_[x]))))
    return [("the first finished transaction is returned and removed, once", Or(none, z3.Exists([y], z3.And(first(y), gone(y), c.ret.first == P_[y].addr, c.ret.second == If(P_[y].is_write, I(1), I(0)))))),
            ("none finished: none is returned", Implies(none, And(c.ret.second == -1, R_.len == P_.len, kept_trans(R_, P_)))), ("an unfinished transaction is never returned", Implies(c.ret.second != -1, Not(none)))]


def rd_invs(L):
    t = L.this()
    R_ = t.return_queue_
    out = []
    clk = [v for v in L.params().values() if isz(v)][0]
    for p in L.fr.env.values():
        it = L.st.store.get(p.root) if not p.steps else None
        if isinstance(it, It) and it.kind == "seq": out.append(("none of the passed is finished", q([x], Implies(z3.And(0 <= x, x < it.pos), R_[x].complete_cycle > clk))))
    return out


RDT = Contract(CT + "::ReturnDoneTrans", None, rd_post, modifies=lambda c: [c.thisp.fld("return_queue_")])
import models as M_


def room(c, n): return getattr(c.old, n).len < M_.capacity_of(c.thisp.fld(n))


def wa_post(c):
    t = c.this
    return [("room exactly when the queue the transaction would join is not full", c.ret == If(t.is_unified_queue_, room(c, "unified_queue_"), If(c.arg(1), room(c, "write_buffer_"), room(c, "read_queue_"))))]


def tc_post(c):
    t, tr, m = c.this, c.arg(0), c.ret
    w, cp = tr.is_write, t.row_buf_policy_ == 1
    return [("the queue of the command is that of the address", qidx(t.cmd_queue_, m.addr) == QMAP(tr.addr)), ("the command of a transaction at the place of its address", And(m.hex_addr == tr.addr, am_is(m.addr, tr.addr), inr(t.config_, m.addr.rank, m.addr.bankgroup, m.addr.bank))), ("a write for a write, a read for a read", And(iswrite(m) == w, isread(m) == Not(w)))]


def qmap_def(t): return ("the queue of an address", q([a_], QMAP(a_) == qidx(t.cmd_queue_, amap(a_))))


TC = Contract(CT + "::TransToCommand", lambda c: [qmap_def(c.this)], tc_post)
TRANS = [
    Unit("Controller::AddTransaction", CT + "::AddTransaction", setup=CA, requires=with_inv(at_pre, never_lost_pre), ensures=full(at_post), models=MODELS),
    Unit("Controller::ReturnDoneTrans", CT + "::ReturnDoneTrans", setup=CA, ensures=rd_post, invs=rd_invs, models=MODELS),
    Unit("Controller::WillAcceptTransaction", CT + "::WillAcceptTransaction", setup=CA, ensures=wa_post, models=MODELS),
    Unit("Controller::TransToCommand", CT + "::TransToCommand", setup=CA, requires=lambda c: [qmap_def(c.this)], ensures=tc_post, models=MODELS, contracts=[AM]),
]



# ---- ScheduleTransaction: at most one transaction (and, in the read-before-write case, only a read) becomes a command
def sc_pre(c): return [(l, f) for l, f in ctl_cq(c.this)] + pend_inv(c.this)


def same_list(a, b): return And(a.len == b.len, a.lo == b.lo, q([x], Implies(z3.And(b.lo <= x, x < b.lo + b.len), trans_is(a.abs(x), b.abs(x)))))


def sc_lists_same(t, o): return [("%s as before" % nm, same_list(Z, Y)) for (nm, Z, _), (_, Y, _) in zip(lists(t), lists(o))]


def qe_post(c): return [("empty exactly when no queue holds a command", c.ret == q([i], Implies(z3.And(0 <= i, i < c.this.queues_.len), c.this.queues_[i].len == 0)))]


def qe_invs(L):
    t = L.this()
    out = []
    for nm, e, v in L.counters(): out.append(("queues looked at are empty %s" % nm, q([i], Implies(z3.And(0 <= i, i < v), t.queues_[i].len == 0))))
    for p in L.fr.env.values():
        it = L.st.store.get(p.root) if not p.steps else None
        if isinstance(it, It) and it.kind == "seq": out.append(("queues passed are empty", q([i], Implies(z3.And(0 <= i, i < it.pos), t.queues_[i].len == 0))))
    return out


qe_pre = lambda c: [("queue table", cq_shape(c.this))]
QE = Contract(CQ + "::QueueEmpty", qe_pre, qe_post)


def sc_invs(L):
    if not L.fn.endswith("ScheduleTransaction"): return []
    t, o = L.this(), L.old_this
    out = sc_lists_same(t, o) + [("no command queued yet", queues_kept(t.cmd_queue_, o.cmd_queue_, I(-1))), ("queue table", t.cmd_queue_.queues_.len == o.cmd_queue_.queues_.len), ("work flags", And(t.cmd_queue_.rank_q_empty.len == o.cmd_queue_.rank_q_empty.len, q([x], t.cmd_queue_.rank_q_empty.abs(x) == o.cmd_queue_.rank_q_empty.abs(x)))), ("draining", t.write_draining_ == o.write_draining_)]
    return out


def sc_post(c): return [("the pending tables stay", TRUE)]


def st_keeps(c):
    """what waited still waits: the unit proves it from an arbitrary position to one of the positions it can have, which is this
    implication between the two existential statements"""
    return [(l, Implies(g, f)) for (l, f), (_, g) in zip(never_lost(c.this, "ex"), never_lost(c.old, "ex"))]


ST = Contract(CT + "::ScheduleTransaction", sc_pre, lambda c: pend_inv(c.this) + ctl_cq(c.this) + st_keeps(c), modifies=lambda c: [c.thisp.fld(n) for n in ("write_draining_", "read_queue_", "write_buffer_", "unified_queue_")] + [c.thisp.fld("cmd_queue_").fld(n) for n in ("queues_", "rank_q_empty")])
SCHED = [Unit("Controller::ScheduleTransaction", CT + "::ScheduleTransaction", setup=CA, requires=with_inv(sc_pre, never_lost_pre), ensures=lambda c: pend_inv(c.this) + never_lost(c.this) + ctl_cq(c.this), invs=sc_invs, models=MODELS, contracts=[TC, WILL, ADDC, QE], paths=24),
         Unit("CommandQueue::QueueEmpty", CQ + "::QueueEmpty", requires=qe_pre, ensures=qe_post, invs=qe_invs, models=MODELS)]


# ---- one cycle of the controller
AIR = Contract(CS + "::IsAllBankIdleInRank", lambda c: air_pre(c), lambda c: air_post(c))


def air_pre(c): return banks_inv(c.this, cfg_(c)) + [("rank", And(0 <= c.arg(0), c.arg(0) < cfg_(c).ranks))]


def air_post(c):
    t, g = c.this, c.this.config_
    return [("idle exactly when no bank of the rank is open", c.ret == q([j, k], Implies(inr(g, c.arg(0), j, k), t.bank_states_[c.arg(0)][j][k].state_ != 0)))]


def air_invs(L):
    t = L.this()
    g = t.config_
    R = [v for v in L.params().values() if isz(v)][0]
    shut = lambda a, b: t.bank_states_[R][a][b].state_ != 0
    cs_ = L.ints()
    out = []
    for _, a in cs_: out.append(("groups passed are idle", q([j, k], Implies(And(inr(g, R, j, k), j < a), shut(j, k)))))
    for n1, a in cs_:
        for n2, b in cs_:
            if n1 != n2: out.append(("banks passed are idle", q([k], Implies(And(inr(g, R, a, k), k < b), shut(a, k)))))
    return out


def tick_pre(c):
    t = c.this
    f = t.refresh_
    return ctl_inv(t) + timing_pre(t) + [("delays", And(t.config_.read_delay >= 0, t.config_.write_delay >= 0)), qmap_def(t), ("clocks agree", t.cmd_queue_.clk_ == t.clk_), ("per-rank counters", t.channel_state_.rank_idle_cycles.len == t.config_.ranks),
        ("refresh policy", And(0 <= f.refresh_policy_, f.refresh_policy_ <= 2, f.refresh_interval_ >= 1, inr(t.config_, f.next_rank_, f.next_bg_, f.next_bank_))), ("some rank", And(0 <= GR, GR < t.config_.ranks)), ("geometry", And(t.config_.ranks >= 1, t.config_.bankgroups >= 1, t.config_.banks_per_group >= 1))] + never_lost_pre(t)


def tick_post(c):
    t, o = c.this, c.old
    return ctl_inv(t) + [("time passes", And(t.clk_ == o.clk_ + 1, t.cmd_queue_.clk_ == t.clk_))] + [(l, Implies(Not(o.config_.enable_hbm_dual_cmd), f)) for l, f in never_lost(t, "ex")]


def tick_invs(L):
    t, o = L.this(), L.old_this
    return [("per-rank counters", t.channel_state_.rank_idle_cycles.len == t.config_.ranks)]


def tick_unit(dual, sref):
    def setup(eng, st, c):
        r_ = CA(eng, st, c)
        for n, v in (("enable_hbm_dual_cmd", dual), ("enable_self_refresh", sref)): eng.write(st, c.thisp.fld("config_").fld(n), z3.BoolVal(v))
        return r_
    return Unit("Controller::ClockTick (%s, %s)" % ("two commands a cycle" if dual else "one command a cycle", "self-refresh" if sref else "no self-refresh"), CT + "::ClockTick", setup=setup, requires=tick_pre, ensures=tick_post, invs=tick_invs, models=MODELS,
                contracts=[CLK, FINR, GCI, IC, CGRC, ST, AIR], unit_budget=600, timeout=60000, scope=opaque_held)


TICK = [
    Unit("ChannelState::IsAllBankIdleInRank", CS + "::IsAllBankIdleInRank", requires=air_pre, ensures=air_post, invs=air_invs, models=MODELS),
] + [tick_unit(d_, s_) for d_ in (False, True) for s_ in (False, True)]
SRCS = [SRC + x_ for x_ in ("bankstate.cc", "channel_state.cc", "timing.cc", "refresh.cc", "command_queue.cc", "controller.cc", "configuration.cc")]
HS = [SRC + x_ for x_ in ("bankstate.cc", "channel_state.cc", "command_queue.cc", "common.cc", "configuration.cc", "controller.cc", "dram_system.cc", "refresh.cc", "simple_stats.cc", "timing.cc")]


def harness(mode, quick=20):
    from check import Harness
    return Harness("dram_" + mode, "dram.cpp", [x_ for x_ in HS if os.path.exists(x_)], DRAM_INC + ["-DCMD_TRACE", "-fno-access-control", "-DFMT_HEADER_ONLY"], [], quick=quick, args=[mode])


DA = ["configuration values are uninterpreted apart from non-negative delays and a consistent geometry (banks = groups * banks per group)", "statistics, power counters and trace output are no-ops",
      "the state a controller starts in is the constructors' (ChannelState proved; queues, counters and Controller covered by the bounded harness)", "addresses decode to places inside the channel (proved by P13)", "arbitrary-element ghost constants stand for every rank, bank, delay entry and transaction"]
HN = "random configurations and traffic on the compiled DRAM model; an independent monitor checks the command stream and the transactions; bounded, never counted as proved"


def gr(*names): return [{"name": n, "srcs": SRCS, "flags": FLAGS, "units": u} for n, u in names]


PROPS = {
    "P14": {"groups": lambda: gr(("one command per cycle", TICK), ("command timing and states", BANK + CHAN + UPD + WIN + WHOLE + TABLE + REFR + CMDQ + UTSU + ISSUE)), "harness": lambda: [harness("timing")], "assumptions": DA, "harness_note": HN},
    "P15": {"groups": lambda: gr(("one command per cycle", TICK), ("transactions and command queues", SCHED + TRANS + CMDQ + ISSUE + REFR + UTSU + WIN + WHOLE)), "harness": lambda: [harness("trans")], "assumptions": DA + ["with two commands a cycle no loss of transactions is claimed from the proof (bounded harness only)"], "harness_note": HN},
}
if __name__ == "__main__":
    f = sys.argv[1] if len(sys.argv) > 1 else ""
    pr = load(SRCS, FLAGS)
    for u in UTSU + ISSUE + TRANS + SCHED + TICK:
        if f in u.name: show(run_unit(pr, u), len(sys.argv) > 2)
