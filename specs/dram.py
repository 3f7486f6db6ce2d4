"""DRAMsim3: bank state machine, command timing, activation windows and the inter-command timing table."""
from common import *
from sym import DeadPath
from check import Harness

FLAGS = DRAM_INC
SRC = DRAM + "/src/"
NS = "dramsim3::"
B, CS, CMD, CFG, TM = NS + "BankState", NS + "ChannelState", NS + "Command", NS + "Config", NS + "Timing"
RD, RDP, WR, WRP, ACT, PRE, REFB, REF, SRE, SRX, NONE = range(11)
OPEN, CLOSED, SREF = 0, 1, 2
i, j, k, d, r = z3.Ints("i j k d r")


def m_abort(eng, st, fr, n, obj, args):
    """AbruptExit / exit end the simulation: unreachable from legal states"""
    eng.oblige(st, FALSE, "error", n, "no fatal simulator error raised", fr)
    raise DeadPath()


MODELS = {"dramsim3::AbruptExit": m_abort, "exit": m_abort, "std::exit": m_abort}
for _f in ("Increment", "IncrementVec", "AddValue", "AddVecValue"): MODELS["dramsim3::SimpleStats::" + _f] = lambda eng, st, fr, n, obj, args: None  # statistics are not part of any property


def isrw(c): return Or(c == RD, c == RDP, c == WR, c == WRP)
def isrank(c): return Or(c == REF, c == SRE, c == SRX)
def If(*a): return z3.If(*a)


def legal(s, ty): return Or(And(Or(s == OPEN, s == CLOSED), Or(isrw(ty), ty == REF, ty == REFB, ty == SRE)), And(s == SREF, Or(isrw(ty), ty == SRX)))


def required(s, ty, row, openrow):
    """the command a bank in state s must see next on the way to serving a command of type ty"""
    return If(s == SREF, I(SRX), If(s == CLOSED, If(isrw(ty), I(ACT), ty), If(And(isrw(ty), row == openrow), ty, I(PRE))))


def bank_inv(b): return And(b.cmd_timing_.len == 10, b.state_ >= 0, b.state_ <= 2)


def sameaddr(a, b): return And(*[a.val.f[x] == b.val.f[x] for x in ("channel", "rank", "bankgroup", "bank", "row", "column")])


def grc_pre(c):
    t, m = c.this, c.arg(0)
    return [("bank state", bank_inv(t)), ("a command the state can serve", legal(t.state_, m.cmd_type))]


def grc_post(c):
    t, m, x = c.old, c.arg(0), c.ret
    q_ = required(t.state_, m.cmd_type, m.addr.row, t.open_row_)
    ready = c.arg(1) >= t.cmd_timing_[q_]
    return [("a command is ready exactly when its earliest time has come", x.cmd_type == If(ready, q_, I(NONE))), ("the command keeps its address", Implies(ready, And(sameaddr(x.addr, m.addr), x.hex_addr == m.hex_addr)))]


def step_ok(s, ty): return Or(And(s == OPEN, Or(isrw(ty), ty == PRE)), And(s == CLOSED, Or(ty == ACT, ty == REF, ty == REFB, ty == SRE)), And(s == SREF, ty == SRX))


def step(s, ty): return If(s == SREF, I(CLOSED), If(s == OPEN, If(Or(ty == RD, ty == WR), I(OPEN), I(CLOSED)), If(ty == ACT, I(OPEN), If(ty == SRE, I(SREF), I(CLOSED)))))


def timing_kept(a, b): return q([d], Implies(z3.And(0 <= d, d < 10), a.cmd_timing_[d] == b.cmd_timing_[d]))


def stepped(t, o, m):
    op = And(o.state_ == CLOSED, m.cmd_type == ACT)
    return And(t.state_ == step(o.state_, m.cmd_type), Implies(t.state_ == OPEN, t.open_row_ == If(op, m.addr.row, o.open_row_)),
               Implies(t.state_ == OPEN, t.row_hit_count_ == If(op, o.row_hit_count_, o.row_hit_count_ + 1)), Implies(And(o.state_ == OPEN, t.state_ == CLOSED), t.row_hit_count_ == 0))


def us_pre(c): return [("bank state", bank_inv(c.this)), ("a legal step", step_ok(c.this.state_, c.arg(0).cmd_type))]


def us_post(c):
    return [("bank state", bank_inv(c.this)), ("the bank takes the step", stepped(c.this, c.old, c.arg(0))), ("timing kept", And(c.this.cmd_timing_.len == c.old.cmd_timing_.len, timing_kept(c.this, c.old)))]


def ut_pre(c): return [("bank state", bank_inv(c.this)), ("a command", And(0 <= c.arg(0), c.arg(0) < 10))]


def ut_post(c):
    t, o, x, tm = c.this, c.old, c.arg(0), c.arg(1)
    return [("the earliest time moves forward to the given time", And(t.cmd_timing_.len == 10, q([d], Implies(z3.And(0 <= d, d < 10), t.cmd_timing_[d] == If(And(d == x, tm > o.cmd_timing_[d]), tm, o.cmd_timing_[d]))))),
            ("state kept", And(t.state_ == o.state_, t.open_row_ == o.open_row_, t.row_hit_count_ == o.row_hit_count_))]


BANK = [
    Unit("BankState::GetReadyCommand", B + "::GetReadyCommand", requires=grc_pre, ensures=grc_post, models=MODELS),
    Unit("BankState::UpdateState", B + "::UpdateState", requires=us_pre, ensures=us_post, models=MODELS),
    Unit("BankState::UpdateTiming", B + "::UpdateTiming", requires=ut_pre, ensures=ut_post, models=MODELS),
]


FAST = {"attrs": {"houdini_mbqi": False}}


# ---- ChannelState: banks[rank][group][bank]
def cfg_(c): return c.this.config_


def banks_inv(t, g):
    bs = t.bank_states_
    return [("bank table", And(g.ranks >= 1, g.bankgroups >= 1, g.banks_per_group >= 1, g.banks == g.bankgroups * g.banks_per_group, bs.len == g.ranks, q([r], Implies(z3.And(0 <= r, r < g.ranks), bs[r].len == g.bankgroups)),
                 q([r, j], Implies(z3.And(0 <= r, r < g.ranks, 0 <= j, j < g.bankgroups), bs[r][j].len == g.banks_per_group)), q([r, j, k], Implies(inr(g, r, j, k), bank_inv(bs[r][j][k]))))),
            ("per-rank tables", And(*[q([r], Implies(z3.And(0 <= r, r < g.ranks), v[r].len >= 0)) for v in (t.four_aw_, t.thirty_two_aw_)], t.rank_is_sref_.len == g.ranks, t.four_aw_.len == g.ranks, t.thirty_two_aw_.len == g.ranks))]


def inr(g, a, b, c_): return z3.And(0 <= a, a < g.ranks, 0 <= b, b < g.bankgroups, 0 <= c_, c_ < g.banks_per_group)


def at(t, m):
    return t.bank_states_[m.addr.rank][m.addr.bankgroup][m.addr.bank]


def gddr(g): return Or(*[g.protocol == e for e in PROTO("GDDR5", "GDDR5X", "GDDR6")])


def PROTO(*ns): return [I(DP[n]) for n in ns]


DP = {n: x for x, n in enumerate(["DDR3", "DDR4", "GDDR5", "GDDR5X", "GDDR6", "LPDDR", "LPDDR3", "LPDDR4", "HBM", "HBM2", "HMC", "SIZE"])}


def aw_ok(t, g, rk, clk):
    f, h = t.four_aw_[rk], t.thirty_two_aw_[rk]
    return And(Not(And(f.len >= 4, clk < f[0])), Implies(gddr(g), Not(And(h.len >= 32, clk < h[0]))))


def cgrc_pre(c):
    t, g, m = c.this, cfg_(c), c.arg(0)
    rk = And(0 <= m.addr.rank, m.addr.rank < g.ranks)
    R = m.addr.rank
    return banks_inv(t, g) + [("rank", rk), ("a command", And(0 <= m.cmd_type, m.cmd_type < 10)), ("bank", Or(isrank(m.cmd_type), And(0 <= m.addr.bankgroup, m.addr.bankgroup < g.bankgroups, 0 <= m.addr.bank, m.addr.bank < g.banks_per_group))),
        ("a command its banks can serve", If(isrank(m.cmd_type), q([j, k], Implies(inr(g, R, j, k), legal(t.bank_states_[R][j][k].state_, m.cmd_type))), legal(at(t, m).state_, m.cmd_type)))]


def cgrc_post(c):
    t, g, m, x, clk = c.old, cfg_(c), c.arg(0), c.ret, c.arg(1)
    R = m.addr.rank
    b = at(t, m)
    need = required(b.state_, m.cmd_type, m.addr.row, b.open_row_)
    ready = And(clk >= b.cmd_timing_[need], Implies(need == ACT, aw_ok(t, g, R, clk)))
    rb = lambda a, e: t.bank_states_[R][a][e]
    rq = lambda a, e: required(rb(a, e).state_, m.cmd_type, m.addr.row, rb(a, e).open_row_)
    rr = lambda a, e: clk >= rb(a, e).cmd_timing_[rq(a, e)]
    xb, xk = x.addr.bankgroup, x.addr.bank
    return [("a bank command is what its bank needs, at its earliest time, within the activation windows", Implies(Not(isrank(m.cmd_type)), And(x.cmd_type == If(ready, need, I(NONE)), Implies(ready, And(sameaddr(x.addr, m.addr), x.hex_addr == m.hex_addr))))),
            ("a rank command waits until every bank of the rank is ready for it", Implies(And(isrank(m.cmd_type), x.cmd_type == m.cmd_type), And(x.addr.rank == R, q([j, k], Implies(inr(g, R, j, k), And(rq(j, k) == m.cmd_type, rr(j, k))))))),
            ("until then only an open bank of that rank is precharged, at its earliest time", Implies(And(isrank(m.cmd_type), x.cmd_type != m.cmd_type, x.cmd_type != NONE), And(x.cmd_type == PRE, x.addr.rank == R, inr(g, R, xb, xk), rb(xb, xk).state_ == OPEN, rr(xb, xk)))),
            ("a rank command whose banks are all ready is issued", Implies(And(isrank(m.cmd_type), q([j, k], Implies(inr(g, R, j, k), And(rq(j, k) == m.cmd_type, rr(j, k))))), x.cmd_type == m.cmd_type))]


def cgrc_invs(L):
    """banks visited so far: (j, k) in row-major order; cnt of them ready"""
    out = []
    t = L.this()
    g = t.config_
    m = list(L.params().values())
    m, clk = View(L.eng, L.entry, None, [x for x in m if isinstance(x, Rec)][0]), [x for x in m if isz(x)][0]
    R = m.addr.rank
    rb = lambda a, e: t.bank_states_[R][a][e]
    good = lambda a, e: And(required(rb(a, e).state_, m.cmd_type, m.addr.row, rb(a, e).open_row_) == m.cmd_type, clk >= rb(a, e).cmd_timing_[m.cmd_type])
    opn = lambda a, e: And(rb(a, e).state_ == OPEN, clk >= rb(a, e).cmd_timing_[PRE])
    ints = [v for nm, v in L.ints() if not any(isz(x) and v.eq(x) for x in L.params().values())]
    recs = [View(L.eng, L.st, None, L.st.store[p.root]) for p in L.fr.env.values() if not p.steps and p.root in L.mods and isinstance(L.st.store.get(p.root), Rec) and "cmd_type" in L.st.store[p.root].f]
    mod = [v for v in ints if any(v.eq(x) for _, _, x in L.counters())]
    fix = [v for v in ints if not any(v.eq(x) for x in mod)]
    import itertools
    for n in (2, 3):
        for c_ in [(a, f_, b) for a, b in itertools.permutations(mod, 2) for f_ in fix] if n == 3 else [(a, b, I(0)) for a, b in itertools.permutations(mod, 2)]:
            cnt, jj, kk = c_
            vis = lambda a, e: z3.And(0 <= a, a < g.bankgroups, 0 <= e, e < g.banks_per_group, z3.Or(a < jj, z3.And(a == jj, e < kk)))
            done = jj * g.banks_per_group + kk
            out += [("counted at most the visited banks %d" % n, And(0 <= cnt, cnt <= done, jj <= g.bankgroups)), ("all visited banks ready when all were counted %d" % n, Implies(cnt == done, q([j, k], Implies(vis(j, k), good(j, k))))),
                    ("no visited bank needed a ready precharge %d" % n, q([j, k], Implies(vis(j, k), Not(opn(j, k))))), ("all counted when all visited banks are ready %d" % n, Implies(q([j, k], Implies(vis(j, k), good(j, k))), cnt == done))]
            for x in recs: out.append(("the last ready command %d" % n, Implies(And(done > 0, cnt == done), And(x.cmd_type == m.cmd_type, x.addr.rank == R))))
    return out


CHAN = [
    Unit("ChannelState::GetReadyCommand", CS + "::GetReadyCommand", requires=cgrc_pre, ensures=cgrc_post, invs=cgrc_invs, models=MODELS, engine=FAST, contracts=[Contract(B + "::GetReadyCommand", grc_pre, grc_post)]),
]

# ---- timing updates: a list of (command, delay) applied to a set of banks
e = z3.Int("e")


# the claims are made for one arbitrary bank (GR, GJ, GK), command GD, list entry GE and delay bound GM; the constants are
# unconstrained, so the claims hold for all of them
GR, GJ, GK, GD, GE, GM = z3.Ints("some_rank some_group some_bank some_command some_entry some_bound")


def list_ok(L_): return And(L_.len >= 0, q([e], Implies(z3.And(0 <= e, e < L_.len), And(0 <= L_[e].first, L_[e].first < 10, L_[e].second >= 0))))


def gt(t): return t.bank_states_[GR][GJ][GK].cmd_timing_[GD]


def gin(g): return And(inr(g, GR, GJ, GK), 0 <= GD, GD < 10)


def bounded_by(L_): return q([e], Implies(And(0 <= e, e < L_.len, L_[e].first == GD), L_[e].second <= GM))


def listed(L_, n): return And(0 <= GE, GE < n, L_[GE].first == GD)


def upd(t, o, inside, L_, n, clk):
    return [("a bank in the scope respects every listed delay", Implies(And(inside, listed(L_, n)), gt(t) >= clk + L_[GE].second)),
            ("no earliest time moves back", gt(t) >= gt(o)),
            ("no earliest time moves beyond the listed delays", Implies(bounded_by(L_), gt(t) <= If(gt(o) > clk + GM, gt(o), clk + GM))),
            ("banks outside the scope keep their times", Implies(Not(inside), gt(t) == gt(o)))]


def in_range(g, ad, full=True): return inr(g, ad.rank, ad.bankgroup, ad.bank) if full else And(0 <= ad.rank, ad.rank < g.ranks)


SCOPES = {
    "UpdateSameBankTiming": (0, lambda ad: And(GR == ad.rank, GJ == ad.bankgroup, GK == ad.bank)),
    "UpdateOtherBanksSameBankgroupTiming": (1, lambda ad: And(GR == ad.rank, GJ == ad.bankgroup, GK != ad.bank)),
    "UpdateOtherBankgroupsSameRankTiming": (2, lambda ad: And(GR == ad.rank, GJ != ad.bankgroup)),
    "UpdateOtherRanksTiming": (3, lambda ad: GR != ad.rank),
    "UpdateSameRankTiming": (2, lambda ad: GR == ad.rank),
}


def up_pre(fn):
    def f(c):
        t, g = c.this, cfg_(c)
        return banks_inv(t, g)[:1] + [("bank address", in_range(g, c.arg(0), fn != "UpdateSameRankTiming")), ("delay list", list_ok(c.arg(1)))]
    return f


def up_ghost(fn): return lambda c: up_pre(fn)(c) + [("some bank", gin(cfg_(c)))]


def up_post(fn):
    dims, sc = SCOPES[fn]

    def f(c):
        L_ = c.arg(1)
        return upd(c.this, c.old, sc(c.arg(0)), L_, L_.len, c.arg(2))
    return f


def up_invs(fn):
    dims, sc = SCOPES[fn]

    def f(L):
        t, o = L.this(), L.old_this
        out = []
        fr = L.fr
        ps = [L.eng.read(L.entry, fr.env[p["id"]]) for p in fr.fn["ps"]]
        V = lambda x: x if isz(x) else View(L.eng, L.entry, None, x)
        if len(ps) != 3 or not isz(ps[2]): return []
        ad, L_, clk = V(ps[0]), V(ps[1]), ps[2]
        ins = sc(ad)
        ints = [v for nm, v in L.ints() if not any(isz(x) and v.eq(x) for x in ps)]
        its = [v for v in [L.st.store.get(p.root) for p in fr.env.values() if not p.steps] if isinstance(v, It) and v.kind == "seq"]
        out += [(l, x) for l, x in upd(t, o, FALSE, L_, I(0), clk) if "scope" not in l]
        for m in range(0, min(dims, len(ints)) + 1):
            idx = ints[:m]
            cur = [GR, GJ, GK][3 - dims:][:m]
            if fn == "UpdateOtherBankgroupsSameRankTiming" or fn == "UpdateSameRankTiming": cur = [GJ, GK][:m]
            vis = z3.BoolVal(False)
            for x, y in reversed(list(zip(cur, idx))): vis = z3.Or(x < y, z3.And(x == y, vis))
            nm = "banks before this one, %d" % m
            g = Implies(And(ins, vis, listed(L_, L_.len)), gt(t) >= clk + L_[GE].second)
            out.append(("listed delays respected (%s)" % nm, g))
            out.append(("banks not visited keep their times (%s)" % nm, Implies(Not(And(ins, vis)), gt(t) == gt(o))))
            if m == dims:
                at_ = z3.And([x == y for x, y in zip(cur, idx)]) if idx else z3.BoolVal(True)
                for it in its + [None]:
                    for pos in [it.pos - L_.lo] if it is not None else [v for nm2, _, v in L.counters()]:
                        out.append(("listed delays respected up to here", Implies(And(ins, at_, listed(L_, pos)), gt(t) >= clk + L_[GE].second)))
                        out.append(("all but this bank keep their times", Implies(Not(And(ins, at_)), gt(t) == gt(o))))
                        out.append(("position in the list", And(0 <= pos, pos <= L_.len)))
        return out
    return f


UPD = [Unit("ChannelState::%s" % f, CS + "::" + f, requires=up_ghost(f), ensures=up_post(f), invs=up_invs(f), models=MODELS, engine=FAST) for f in SCOPES]


# ---- activation windows
def win_step(new, old, clk, width):
    """one activation recorded: the oldest is dropped only when its window has passed"""
    drop = And(old.len >= 1, clk >= old[0])
    x = z3.Int("x")
    return And(new.len == old.len + 1 - If(drop, I(1), I(0)), q([x], Implies(z3.And(0 <= x, x < new.len - 1), new[x] == old[x + If(drop, I(1), I(0))])), new[new.len - 1] == clk + width)


def same_list(a, b):
    x = z3.Int("x")
    return And(a.len == b.len, q([x], Implies(z3.And(0 <= x, x < b.len), a[x] == b[x])))


def win_inv(t, g): return [("at most 4 activations recorded per rank, 32 for GDDR", And(*[q([r], Implies(z3.And(0 <= r, r < g.ranks), And(0 <= v[r].len, v[r].len <= n_))) for v, n_ in ((t.four_aw_, 4), (t.thirty_two_aw_, 32))]))]


def tables(t, g): return [("per-rank tables", And(g.ranks >= 1, t.rank_is_sref_.len == g.ranks, t.four_aw_.len == g.ranks, t.thirty_two_aw_.len == g.ranks))]


def ua_pre(c):
    t, g, rk, clk = c.this, cfg_(c), c.arg(0), c.arg(1)
    return tables(t, g) + win_inv(t, g) + [("rank", And(0 <= rk, rk < g.ranks)), ("the windows admit the activation", aw_ok(t, g, rk, clk)), ("window widths", And(g.tFAW >= 0, g.t32AW >= 0))]


def ua_post(c):
    t, o, g, rk, clk = c.this, c.old, c.old.config_, c.arg(0), c.arg(1)
    other = lambda f: q([r], Implies(z3.And(0 <= r, r < g.ranks, r != rk), same_list(f(t)[r], f(o)[r])))
    return tables(t, t.config_) + win_inv(t, t.config_) + [("the activation opens a window; only an expired one is dropped", win_step(t.four_aw_[rk], o.four_aw_[rk], clk, g.tFAW)),
        ("GDDR also counts 32 activations", If(gddr(g), win_step(t.thirty_two_aw_[rk], o.thirty_two_aw_[rk], clk, g.t32AW), same_list(t.thirty_two_aw_[rk], o.thirty_two_aw_[rk]))),
        ("other ranks untouched", And(other(lambda v: v.four_aw_), other(lambda v: v.thirty_two_aw_)))]


def awk_pre(c): return tables(c.this, cfg_(c)) + win_inv(c.this, cfg_(c)) + [("rank", And(0 <= c.arg(0), c.arg(0) < cfg_(c).ranks))]


def awk_post(c): return [("an activation is admitted unless 4 (GDDR: or 32) windows are open", c.ret == aw_ok(c.this, cfg_(c), c.arg(0), c.arg(1)))]


UA = Contract(CS + "::UpdateActivationTimes", ua_pre, ua_post, modifies=lambda c: [c.thisp.fld("four_aw_"), c.thisp.fld("thirty_two_aw_")])
WIN = [Unit("ChannelState::UpdateActivationTimes", CS + "::UpdateActivationTimes", requires=ua_pre, ensures=ua_post, models=MODELS),
       Unit("ChannelState::ActivationWindowOk", CS + "::ActivationWindowOk", requires=awk_pre, ensures=awk_post, models=MODELS)]


# ---- a command's effect on the whole channel
def tables_ok(c, rank):
    tm, ty = c.this.timing_, c.arg(0).cmd_type
    names = ["same_rank"] if rank else ["same_bank", "other_banks_same_bankgroup", "other_bankgroups_same_rank", "other_ranks"]
    return And(*[And(getattr(tm, n).len == 10, list_ok(getattr(tm, n)[ty])) for n in names])


def utm_pre(c):
    t, g, m = c.this, cfg_(c), c.arg(0)
    rk = isrank(m.cmd_type)
    return banks_inv(t, g) + win_inv(t, g) + [("some bank", gin(g)), ("window widths", And(g.tFAW >= 0, g.t32AW >= 0)), ("command", And(0 <= m.cmd_type, m.cmd_type < 10)), ("address", And(0 <= m.addr.rank, m.addr.rank < g.ranks, Implies(Not(rk), in_range(g, m.addr)))),
        ("delay tables", And(Implies(rk, tables_ok(c, True)), Implies(Not(rk), tables_ok(c, False)))), ("an activation fits its windows", Implies(m.cmd_type == ACT, aw_ok(t, g, m.addr.rank, c.arg(1))))]


def utm_post(c):
    t, o, m, clk = c.this, c.old, c.arg(0), c.arg(1)
    ad, ty, tm, g = m.addr, m.cmd_type, c.old.timing_, c.old.config_
    L_ = lambda n: getattr(tm, n)[ty]
    S = {n: sc(ad) for n, (_, sc) in SCOPES.items()}
    out = []
    for rk, scope, nm in ((False, "UpdateSameBankTiming", "same_bank"), (False, "UpdateOtherBanksSameBankgroupTiming", "other_banks_same_bankgroup"), (False, "UpdateOtherBankgroupsSameRankTiming", "other_bankgroups_same_rank"), (False, "UpdateOtherRanksTiming", "other_ranks"), (True, "UpdateSameRankTiming", "same_rank")):
        pre = And(isrank(ty) if rk else Not(isrank(ty)), S[scope])
        out += [("%s: %s" % (nm, l), Implies(pre, x)) for l, x in upd(t, o, S[scope], L_(nm), L_(nm).len, clk)]
    out.append(("a rank command leaves other ranks alone", Implies(And(isrank(ty), Not(S["UpdateSameRankTiming"])), gt(t) == gt(o))))
    out += win_inv(t, t.config_) + [("per-rank tables stay", And(t.four_aw_.len == o.four_aw_.len, t.thirty_two_aw_.len == o.thirty_two_aw_.len))]
    out.append(("an activation is recorded in its windows, other commands are not", If(ty == ACT, win_step(t.four_aw_[ad.rank], o.four_aw_[ad.rank], clk, g.tFAW), same_list(t.four_aw_[ad.rank], o.four_aw_[ad.rank]))))
    return out


UPC = [Contract(CS + "::" + f, up_ghost(f), up_post(f), modifies=lambda c: [(c.thisp.fld("bank_states_"), ".cmd_timing_[]")]) for f in SCOPES]


def bank_same(b, a): return And(b.state_ == a.state_, b.open_row_ == a.open_row_, b.row_hit_count_ == a.row_hit_count_)


def bk(t, a, b, c_): return t.bank_states_[a][b][c_]


def usc_pre(c):
    t, g, m = c.this, cfg_(c), c.arg(0)
    R = m.addr.rank
    rk = isrank(m.cmd_type)
    return banks_inv(t, g) + [("command", And(0 <= m.cmd_type, m.cmd_type < 10)), ("address", And(0 <= R, R < g.ranks, Implies(Not(rk), in_range(g, m.addr)))), ("some bank", inr(g, GR, GJ, GK)),
        ("every bank it addresses may take the step", If(rk, q([j, k], Implies(inr(g, R, j, k), step_ok(bk(t, R, j, k).state_, m.cmd_type))), step_ok(at(t, m).state_, m.cmd_type))),
        ("a refresh was asked for", Implies(Or(m.cmd_type == REF, m.cmd_type == REFB), And(t.refresh_q_.len >= 1, t.refresh_q_[0].addr.rank == R, Implies(m.cmd_type == REFB, And(t.refresh_q_[0].addr.bankgroup == m.addr.bankgroup, t.refresh_q_[0].addr.bank == m.addr.bank)))))]


def q_popped(new, old, n):
    x = z3.Int("x")
    return And(new.len == old.len - n, q([x], Implies(z3.And(0 <= x, x < new.len), And(new[x].cmd_type == old[x + n].cmd_type, sameaddr(new[x].addr, old[x + n].addr)))))


def usc_post(c):
    t, o, m, g = c.this, c.old, c.arg(0), c.old.config_
    ins = If(isrank(m.cmd_type), GR == m.addr.rank, And(GR == m.addr.rank, GJ == m.addr.bankgroup, GK == m.addr.bank))
    b, a = bk(t, GR, GJ, GK), bk(o, GR, GJ, GK)
    isref = Or(m.cmd_type == REF, m.cmd_type == REFB)
    R = m.addr.rank
    return banks_inv(t, t.config_) + [("the addressed bank takes the step", Implies(And(ins, Not(isrank(m.cmd_type))), stepped(b, a, m))), ("every bank of the addressed rank takes the step", Implies(And(isrank(m.cmd_type), ins), stepped(b, a, m))), ("other banks keep their state", Implies(Not(ins), bank_same(b, a))), ("times kept", timing_kept(b, a)),
        ("a refresh answers the oldest request", q_popped(t.refresh_q_, o.refresh_q_, If(isref, I(1), I(0)))),
        ("self-refresh follows entry and exit", q([r], Implies(z3.And(0 <= r, r < g.ranks), t.rank_is_sref_[r] == If(And(r == R, m.cmd_type == SRE), TRUE, If(And(r == R, m.cmd_type == SRX), FALSE, o.rank_is_sref_[r])))))]


def usc_invs(L):
    t, o = L.this(), L.old_this
    g = o.config_
    out = []
    ps = [L.eng.read(L.entry, L.fr.env[p["id"]]) for p in L.fr.fn["ps"]]
    if L.fr.fn["q"].endswith("NeedRefresh"):
        its = [v for v in [L.st.store.get(p.root) for p in L.fr.env.values() if not p.steps] if isinstance(v, It) and v.kind == "seq"]
        return []
    if len(ps) != 1: return []
    m = View(L.eng, L.entry, None, ps[0])
    R = m.addr.rank
    ints = [v for nm, v in L.ints()]
    same = lambda a, b, c_: bank_same(bk(t, a, b, c_), bk(o, a, b, c_))
    if len(ints) >= 2:  # within one bank group, relative to the entry of the inner loop
        a, b = ints[:2]
        out += [("visited banks of this group stepped", Implies(And(GR == R, GJ == a, GK < b), stepped(bk(t, GR, GJ, GK), bk(o, GR, GJ, GK), m))),
                ("other groups keep their state", q([j, k], Implies(And(inr(g, R, j, k), j != a), same(R, j, k)))), ("the rest of this group keeps its state", q([k], Implies(And(inr(g, R, a, k), k >= b), same(R, a, k))))]
    for n in (1, 2):
        if len(ints) < n: continue
        idx = ints[:n]
        seen = lambda a, b: z3.Or(a < idx[0], z3.And(a == idx[0], b < idx[1])) if n == 2 else a < idx[0]
        out += [("visited banks stepped %d" % n, Implies(And(GR == R, seen(GJ, GK)), stepped(bk(t, GR, GJ, GK), bk(o, GR, GJ, GK), m))),
                ("states stay states %d" % n, q([j, k], Implies(inr(g, R, j, k), And(bk(t, R, j, k).state_ >= 0, bk(t, R, j, k).state_ <= 2)))),
                ("unvisited banks of the rank keep their state %d" % n, q([j, k], Implies(z3.And(inr(g, R, j, k), z3.Not(seen(j, k))), same(R, j, k)))),
                ("other ranks keep their state %d" % n, q([r, j, k], Implies(z3.And(inr(g, r, j, k), r != R), same(r, j, k))))]
    return out


WHOLE = [
    Unit("ChannelState::UpdateTiming", CS + "::UpdateTiming", requires=utm_pre, ensures=utm_post, models=MODELS, contracts=UPC + [UA]),
    Unit("ChannelState::UpdateState", CS + "::UpdateState", requires=usc_pre, ensures=usc_post, invs=usc_invs, models=MODELS, engine=FAST, contracts=[Contract(B + "::UpdateState", us_pre, us_post, modifies=lambda c: [c.thisp.fld(x) for x in ("state_", "open_row_", "row_hit_count_")])]),
]

# ---- the table of delays between commands
def entry(tbl, a, b, ds):
    """some entry of tbl[a] delays b by at least every delay in ds"""
    L_ = tbl[a]
    return And(*[Or(*[And(I(x) < L_.len, L_[I(x)].first == b, L_[I(x)].second >= dl) for x in range(7)]) for dl in ds])


def jedec(g):
    """(scope, earlier command, later command, least delays); L and S: same and different bank group"""
    one = g.bankgroups == 1
    ccdl, wtrl, rrdl = If(one, g.tCCD_S, g.tCCD_L), If(one, g.tWTR_S, g.tWTR_L), If(one, g.tRRD_S, g.tRRD_L)
    hbm = Or(*[g.protocol == e_ for e_ in PROTO("HBM", "HBM2")])
    own = Or(gddr(g), hbm)
    rcdr, rcdw = If(own, g.tRCDRD, g.tRCD - g.AL), If(own, g.tRCDWR, g.tRCD - g.AL)
    bc = g.burst_cycle
    rw = g.RL + bc - g.WL + g.tRTRS
    R_, W_ = (RD, RDP), (WR, WRP)
    out = []

    def add(sc, as_, bs, *ds): out.extend((sc, a, b, ds) for a in as_ for b in bs)
    for sc, ccd, wtr, rrd in (("same_bank", ccdl, wtrl, None), ("other_banks_same_bankgroup", ccdl, wtrl, rrdl), ("other_bankgroups_same_rank", g.tCCD_S, g.tWTR_S, g.tRRD_S)):
        sb = sc == "same_bank"
        add(sc, (RD,) if sb else R_, R_, bc, ccd)
        add(sc, (RD,) if sb else R_, W_, rw)
        add(sc, (WR,) if sb else W_, R_, g.WL + bc + wtr)
        add(sc, (WR,) if sb else W_, W_, bc, ccd)
        if rrd is not None: add(sc, (ACT,), (ACT,), rrd)
    add("same_bank", (RD,), (PRE,), g.AL + g.tRTP)
    add("same_bank", (WR,), (PRE,), g.WL + bc + g.tWR)
    shut = (ACT, REF, REFB, SRE)
    add("same_bank", (RDP,), shut, g.AL + g.tRTP + g.tRP)
    add("same_bank", (WRP,), shut, g.WL + bc + g.tWR + g.tRP)
    add("same_bank", (PRE,), shut, g.tRP)
    add("same_bank", (ACT,), (ACT,), g.tRC)
    add("same_bank", (ACT,), R_, rcdr)
    add("same_bank", (ACT,), W_, rcdw)
    add("same_bank", (ACT,), (PRE,), g.tRAS)
    add("same_bank", (REFB,), shut, g.tRFCb)
    add("other_ranks", R_, R_, bc + g.tRTRS)
    add("other_ranks", R_, W_, rw)
    add("other_ranks", W_, R_, g.WL + bc + g.tRTRS - g.RL)
    add("other_ranks", W_, W_, bc)
    add("same_rank", (REF,), (ACT, REF, SRE), g.tRFC)
    add("same_rank", (SRE,), (SRX,), g.tCKESR)
    add("same_rank", (SRX,), shut, g.tXS)
    return out


CN = ["READ", "READ_PRECHARGE", "WRITE", "WRITE_PRECHARGE", "ACTIVATE", "PRECHARGE", "REFRESH_BANK", "REFRESH", "SREF_ENTER", "SREF_EXIT"]
SCN = {"same_bank": "the same bank", "other_banks_same_bankgroup": "another bank of the group", "other_bankgroups_same_rank": "another bank group", "other_ranks": "another rank", "same_rank": "the same rank"}


def tm_pre(c):
    g = c.arg(0)
    return [("read and write delays end the burst", And(g.read_delay == g.RL + g.burst_cycle, g.write_delay == g.WL + g.burst_cycle, g.burst_cycle >= 0))]


def tm_post(c):
    t, g = c.this, c.arg(0)
    out = [("one list per command in every scope", And(*[getattr(t, n).len == 10 for n in SCN]))]
    for sc, a, b, ds in jedec(g): out.append(("%s to %s, %s: minimum delay" % (CN[a], CN[b], SCN[sc]), entry(getattr(t, sc), I(a), b, ds)))
    lp = Or(gddr(g), g.protocol == DP["LPDDR4"])
    for sc in ("other_banks_same_bankgroup", "other_bankgroups_same_rank"): out.append(("PRECHARGE to PRECHARGE, %s: tPPD for GDDR and LPDDR4" % SCN[sc], Implies(lp, entry(getattr(t, sc), I(PRE), PRE, [g.tPPD]))))
    return out


TABLE = [Unit("Timing::Timing", TM + "::Timing", requires=tm_pre, ensures=tm_post, models=MODELS)]


# ---- refresh requests
def x_rank(m, ty, rank, bg=-1, ba=-1): return And(m.cmd_type == ty, m.addr.rank == rank, m.addr.bankgroup == bg, m.addr.bank == ba)


def appended(new, old, n):
    x = z3.Int("x")
    return And(new.len == old.len + n, q([x], Implies(z3.And(0 <= x, x < old.len), And(new[x].cmd_type == old[x].cmd_type, sameaddr(new[x].addr, old[x].addr)))))


def need_post(rank):
    def f(c):
        t, o = c.this, c.old
        R = c.arg(0)
        n_ = o.refresh_q_.len
        last = t.refresh_q_[n_]
        return [("the request joins the end of the queue", And(appended(t.refresh_q_, o.refresh_q_, I(1)), x_rank(last, REF, R) if rank else x_rank(last, REFB, R, c.arg(1), c.arg(2))))]
    return f


NEEDR = Contract(CS + "::RankNeedRefresh", lambda c: [("asking", c.arg(1))], need_post(True), modifies=lambda c: [c.thisp.fld("refresh_q_")])
NEEDB = Contract(CS + "::BankNeedRefresh", lambda c: [("asking", c.arg(3))], need_post(False), modifies=lambda c: [c.thisp.fld("refresh_q_")])
SIMUL, RSTAG, BSTAG = 0, 1, 2


def ins_pre(c):
    t, g = c.this, cfg_(c)
    return [("geometry", And(g.ranks >= 1, g.bankgroups >= 1, g.banks_per_group >= 1, t.channel_state_.rank_is_sref_.len == g.ranks)), ("policy", And(0 <= t.refresh_policy_, t.refresh_policy_ <= 2)),
        ("next place", inr(g, t.next_rank_, t.next_bg_, t.next_bank_)), ("some rank", And(0 <= GR, GR < g.ranks))]


def asked(t, o, ty, *at_):
    """a request of this kind was added behind the old ones"""
    x = z3.Int("x")
    n, p = t.channel_state_.refresh_q_, o.channel_state_.refresh_q_
    return z3.Exists([x], z3.And(p.len <= x, x < n.len, x_rank(n[x], ty, *at_)))


def only_asked(t, o):
    x = z3.Int("x")
    n, p = t.channel_state_.refresh_q_, o.channel_state_.refresh_q_
    return q([x], Implies(z3.And(p.len <= x, x < n.len), And(Or(n[x].cmd_type == REF, n[x].cmd_type == REFB), n[x].addr.rank >= 0, n[x].addr.rank < o.config_.ranks, Implies(n[x].cmd_type == REFB, in_range(o.config_, n[x].addr)), Not(o.channel_state_.rank_is_sref_[n[x].addr.rank]))))


def next_ok(t, o, g):
    """the next place to refresh: groups vary fastest, then banks, then ranks, and every place comes around"""
    bg = If(o.next_bg_ + 1 == g.bankgroups, I(0), o.next_bg_ + 1)
    ba = If(bg == 0, If(o.next_bank_ + 1 == g.banks_per_group, I(0), o.next_bank_ + 1), o.next_bank_)
    nr = If(o.next_rank_ + 1 == g.ranks, I(0), o.next_rank_ + 1)
    return And(Implies(o.refresh_policy_ == RSTAG, t.next_rank_ == nr), Implies(o.refresh_policy_ == BSTAG, And(t.next_bg_ == bg, t.next_bank_ == ba, t.next_rank_ == If(And(bg == 0, ba == 0), nr, o.next_rank_))), inr(g, t.next_rank_, t.next_bg_, t.next_bank_))


def ins_post(c):
    t, o, g = c.this, c.old, c.old.config_
    pol, R = o.refresh_policy_, o.next_rank_
    awake = Not(o.channel_state_.rank_is_sref_[R])
    qn, qo = t.channel_state_.refresh_q_, o.channel_state_.refresh_q_
    return [("simultaneous refresh asks every rank that is not in self-refresh", Implies(And(pol == SIMUL, Not(o.channel_state_.rank_is_sref_[GR])), asked(t, o, REF, GR))),
            ("staggered refresh asks the next rank unless it is in self-refresh", Implies(pol == RSTAG, If(awake, And(qn.len == qo.len + 1, x_rank(qn[qo.len], REF, R)), qn.len == qo.len))),
            ("per-bank refresh asks the next bank unless its rank is in self-refresh", Implies(pol == BSTAG, If(awake, And(qn.len == qo.len + 1, x_rank(qn[qo.len], REFB, R, o.next_bg_, o.next_bank_)), qn.len == qo.len))),
            ("no rank in self-refresh is asked", only_asked(t, o)), ("earlier requests stay", And(qn.len >= qo.len, appended(qn, qo, qn.len - qo.len))), ("the turn goes round", Implies(pol != SIMUL, next_ok(t, o, g))), ("the next place stays a place", inr(g, t.next_rank_, t.next_bg_, t.next_bank_))]


def ins_invs(L):
    t, o = L.this(), L.old_this
    out = [("earlier requests stay", And(t.channel_state_.refresh_q_.len >= o.channel_state_.refresh_q_.len, appended(t.channel_state_.refresh_q_, o.channel_state_.refresh_q_, t.channel_state_.refresh_q_.len - o.channel_state_.refresh_q_.len))), ("only ranks awake are asked", only_asked(t, o))]
    for nm, v in L.ints(): out.append(("ranks passed were asked", Implies(And(GR < v, Not(o.channel_state_.rank_is_sref_[GR])), asked(t, o, REF, GR))))
    return out


def clk_post(c):
    t, o = c.this, c.old
    qn, qo = t.channel_state_.refresh_q_, o.channel_state_.refresh_q_
    return [("time passes", t.clk_ == o.clk_ + 1), ("between the refresh times nothing is asked", Implies(Or(o.clk_ == 0, o.clk_ % o.refresh_interval_ != 0), And(qn.len == qo.len, t.next_rank_ == o.next_rank_))),
            ] + [(l, Implies(And(o.clk_ > 0, o.clk_ % o.refresh_interval_ == 0), x)) for l, x in ins_post(c)]


RF = NS + "Refresh"
INS = Contract(RF + "::InsertRefresh", ins_pre, ins_post, modifies=lambda c: [c.thisp.fld("channel_state_").fld("refresh_q_")] + [c.thisp.fld(x) for x in ("next_rank_", "next_bg_", "next_bank_")])
CLK = Contract(RF + "::ClockTick", lambda c: ins_pre(c) + [("interval", c.this.refresh_interval_ >= 1)], lambda c: clk_post(c) + [("no place in self-refresh is asked", Implies(TRUE, only_asked(c.this, c.old)))] + [("earlier requests stay", And(c.this.channel_state_.refresh_q_.len >= c.old.channel_state_.refresh_q_.len, appended(c.this.channel_state_.refresh_q_, c.old.channel_state_.refresh_q_, c.this.channel_state_.refresh_q_.len - c.old.channel_state_.refresh_q_.len))),
                ("the next place stays a place", inr(c.old.config_, c.this.next_rank_, c.this.next_bg_, c.this.next_bank_))],
               modifies=lambda c: [c.thisp.fld("channel_state_").fld("refresh_q_")] + [c.thisp.fld(x) for x in ("next_rank_", "next_bg_", "next_bank_", "clk_")])
REFR = [
    Unit("ChannelState::RankNeedRefresh", CS + "::RankNeedRefresh", requires=lambda c: [("asking", c.arg(1))], ensures=need_post(True), models=MODELS),
    Unit("ChannelState::BankNeedRefresh", CS + "::BankNeedRefresh", requires=lambda c: [("asking", c.arg(3))], ensures=need_post(False), models=MODELS),
    Unit("Refresh::InsertRefresh", RF + "::InsertRefresh", requires=ins_pre, ensures=ins_post, invs=ins_invs, models=MODELS, contracts=[NEEDR, NEEDB]),
    Unit("Refresh::ClockTick", RF + "::ClockTick", requires=CLK.requires, ensures=lambda c: CLK.ensures(c), models=MODELS, contracts=[INS]),
    Unit("BankState::BankState", B + "::BankState", ensures=lambda c: [("a new bank is closed and free", And(c.this.state_ == CLOSED, c.this.row_hit_count_ == 0, c.this.cmd_timing_.len == 10, q([d], Implies(z3.And(0 <= d, d < 10), c.this.cmd_timing_[d] == 0))))], models=MODELS),
]


def cc_post(c):
    t, g = c.this, c.arg(0)
    bs = t.bank_states_
    return [("every rank, group and bank exists", And(bs.len == g.ranks, q([r], Implies(z3.And(0 <= r, r < g.ranks), bs[r].len == g.bankgroups)), q([r, j], Implies(z3.And(0 <= r, r < g.ranks, 0 <= j, j < g.bankgroups), bs[r][j].len == g.banks_per_group)))),
            ("every bank is closed and free", q([r, j, k], Implies(inr(g, r, j, k), And(bs[r][j][k].state_ == CLOSED, bs[r][j][k].row_hit_count_ == 0, bs[r][j][k].cmd_timing_.len == 10)))),
            ("every command is allowed at once", q([r, j, k, d], Implies(z3.And(inr(g, r, j, k), 0 <= d, d < 10), bs[r][j][k].cmd_timing_[d] == 0))),
            ("no window open, no rank in self-refresh, no request", And(t.four_aw_.len == g.ranks, t.thirty_two_aw_.len == g.ranks, t.rank_is_sref_.len == g.ranks, t.refresh_q_.len == 0, q([r], Implies(z3.And(0 <= r, r < g.ranks), And(t.four_aw_[r].len == 0, t.thirty_two_aw_[r].len == 0, Not(t.rank_is_sref_[r]))))))]


def cc_invs(L):
    t = L.this()
    g = [x for x in L.params().values() if isinstance(x, Rec) and "bankgroups" in x.f]
    if not g: return []
    g = View(L.eng, L.entry, None, g[0])
    out = []
    def okbank(b): return And(b.state_ == CLOSED, b.row_hit_count_ == 0, b.cmd_timing_.len == 10)
    def okt(b): return And(*[b.cmd_timing_[I(x)] == 0 for x in range(10)])
    ints = [v for nm, v in L.ints()]
    for v in ints:
        bs = t.bank_states_
        out += [("ranks made so far", And(bs.len == v, v <= g.ranks)), ("their groups", q([r], Implies(z3.And(0 <= r, r < v), bs[r].len == g.bankgroups))), ("their banks", q([r, j], Implies(z3.And(0 <= r, r < v, 0 <= j, j < g.bankgroups), bs[r][j].len == g.banks_per_group))),
                ("closed and free", q([r, j, k], Implies(z3.And(0 <= r, r < v, 0 <= j, j < g.bankgroups, 0 <= k, k < g.banks_per_group), And(okbank(bs[r][j][k]), okt(bs[r][j][k])))))]
        for p in L.fr.env.values():
            x = L.st.store.get(p.root) if not p.steps and p.root in L.entry.store else None
            if isinstance(x, Seq) and isinstance(x.elem, Seq):
                x = View(L.eng, L.st, None, x)
                out += [("groups made so far", And(x.len == v, v <= g.bankgroups)), ("their sizes", q([j], Implies(z3.And(0 <= j, j < v), x[j].len == g.banks_per_group))), ("closed and free (this rank)", q([j, k], Implies(z3.And(0 <= j, j < v, 0 <= k, k < g.banks_per_group), And(okbank(x[j][k]), okt(x[j][k])))))]
    return out


REFR.append(Unit("ChannelState::ChannelState", CS + "::ChannelState", requires=lambda c: [("geometry", And(c.arg(0).ranks >= 1, c.arg(0).bankgroups >= 1, c.arg(0).banks_per_group >= 1))], ensures=cc_post, invs=cc_invs, models=MODELS, engine=FAST))


# ---- the command queues of a channel
CQ = NS + "CommandQueue"


def alias(*pairs):
    """reference members of this that denote another part of this (their constructors bind them so)"""
    def f(eng, st, c):
        P = lambda x: __import__("functools").reduce(lambda p, n: p.fld(n), x.split("."), c.thisp)
        for a, b in pairs: eng.write(st, P(a), PtrTo(P(b)))
    return f


CQ_ALIAS = alias(("channel_state_.config_", "config_"))


def qidx(t, ad):
    g = t.config_
    return If(t.queue_structure_ == PER_RANK, ad.rank, ad.rank * g.banks + ad.bankgroup * g.banks_per_group + ad.bank)


PER_RANK, PER_BANK = 0, 1


def rwentry(t, m): return And(isrw(m.cmd_type), in_range(t.config_, m.addr))


def cq_shape(t):
    g = t.config_
    return And(Or(t.queue_structure_ == PER_RANK, t.queue_structure_ == PER_BANK), t.num_queues_ >= 1, t.queues_.len == t.num_queues_, t.num_queues_ == If(t.queue_structure_ == PER_RANK, g.ranks, g.ranks * g.banks), 0 <= t.queue_idx_, t.queue_idx_ < t.num_queues_, t.rank_q_empty.len == g.ranks)


def cq_inv(t, pre=""):
    x = z3.Int("x")
    return [(pre + "queue table", cq_shape(t)), (pre + "queues hold reads and writes of their banks", q([i, x], Implies(z3.And(0 <= i, i < t.num_queues_, 0 <= x, x < t.queues_[i].len), And(rwentry(t, t.queues_[i][x]), qidx(t, t.queues_[i][x].addr) == i))))]


def sref_inv(cs, g): return [("a rank's banks are in self-refresh together", q([r, j, k], Implies(inr(g, r, j, k), (cs.bank_states_[r][j][k].state_ == SREF) == cs.rank_is_sref_[r])))]


def issuable(cs, g, x, clk):
    """x may be issued at clk: its banks are in the right state and its earliest time has come"""
    R, ty = x.addr.rank, x.cmd_type
    b = at(cs, x)
    every = lambda st_: q([j, k], Implies(inr(g, R, j, k), st_(cs.bank_states_[R][j][k])))
    mine = in_range(g, x.addr)
    return And(0 <= ty, ty < 10, 0 <= R, R < g.ranks, Implies(Not(isrank(ty)), And(mine, step_ok(b.state_, ty), Implies(isrw(ty), b.open_row_ == x.addr.row), clk >= b.cmd_timing_[ty])), Implies(ty == ACT, aw_ok(cs, g, R, clk)),
               Implies(isrank(ty), every(lambda y: step_ok(y.state_, ty))), Implies(Or(ty == REF, ty == SRE), every(lambda y: clk >= y.cmd_timing_[ty])), Implies(ty == SRX, Or(And(mine, clk >= b.cmd_timing_[ty]), every(lambda y: clk >= y.cmd_timing_[ty]))))


def cs_ok(c):
    cs, g = c.this.channel_state_, c.this.config_
    return banks_inv(cs, g) + sref_inv(cs, g)


def gfr_pre(c):
    x = z3.Int("x")
    Q = c.arg(0)
    return cs_ok(c) + [("the queue holds reads and writes", q([x], Implies(z3.And(0 <= x, x < Q.len), rwentry(c.this, Q[x]))))]


def came_from(t, Q, x, y):
    """x serves the entry y of the queue"""
    return And(Q[y].addr.rank == x.addr.rank, sameaddr(Q[y].addr, x.addr), Q[y].hex_addr == x.hex_addr, Implies(isrw(x.cmd_type), Q[y].cmd_type == x.cmd_type))


def older_read(Q, y):
    x = z3.Int("x")
    same = lambda a, b: And(*[a.addr.val.f[n_] == b.addr.val.f[n_] for n_ in ("row", "column", "bank", "bankgroup")])
    return z3.Exists([x], z3.And(0 <= x, x < y, z3.Or(Q[x].cmd_type == RD, Q[x].cmd_type == RDP), same(Q[x], Q[y])))


def gfr_post(c):
    t, Q, x = c.this, c.arg(0), c.ret
    y = z3.Int("y")
    return [("the command found may be issued now", Implies(x.cmd_type != NONE, issuable(t.channel_state_, t.config_, x, t.clk_))), ("it is a bank command or wakes the rank", Implies(x.cmd_type != NONE, Or(isrw(x.cmd_type), x.cmd_type == ACT, x.cmd_type == PRE, x.cmd_type == SRX))),
            ("it serves an entry of the queue; a write never passes an older read of its place", Implies(x.cmd_type != NONE, z3.Exists([y], z3.And(0 <= y, y < Q.len, came_from(t, Q, x, y), Implies(Or(x.cmd_type == WR, x.cmd_type == WRP), Not(older_read(Q, y)))))))]


CGRC = Contract(CS + "::GetReadyCommand", cgrc_pre, cgrc_post)
def gfr_invs(L):
    if not L.fr.fn["q"].endswith("HasRWDependency"): return []
    x = z3.Int("x")
    its = [v for v in [L.eng.read(L.st, p) for p in L.fr.env.values()] if isinstance(v, It) and v.kind == "seq"]
    out = []
    for a in its:
        for b in its:
            if a is b: continue
            Q = View(L.eng, L.st, None, L.eng.read(L.st, a.path))
            same = lambda u, v: And(*[u.addr.val.f[n_] == v.addr.val.f[n_] for n_ in ("row", "column", "bank", "bankgroup")])
            out.append(("no read of that place so far", q([x], Implies(z3.And(0 <= x, x < a.pos), Not(And(Or(Q[x].cmd_type == RD, Q[x].cmd_type == RDP), same(Q[x], Q[b.pos])))))))
    return out


GFR = Contract(CQ + "::GetFirstReadyInQueue", gfr_pre, gfr_post)


def qmul(t, ad):
    """products of the queue index of a place in range (instances of multiplication facts, proved as a lemma)"""
    g = t.config_
    return [geom(g.ranks, g.bankgroups, g.banks_per_group, g.banks, ad.rank, ad.bankgroup, ad.bank)]


def geom(nr, ng, nb, n, r_, g_, b_):
    i_ = r_ * n + g_ * nb + b_
    return Implies(And(n == ng * nb, 0 <= r_, r_ < nr, 0 <= g_, g_ < ng, 0 <= b_, b_ < nb), And(0 <= i_, i_ < nr * n))


def geom_goals(pr):
    v = z3.Ints("nr ng nb n r g b")
    nr, ng, nb, n_, r_, g_, b_ = v
    h = And(n_ == ng * nb, 0 <= r_, r_ < nr, 0 <= g_, g_ < ng, 0 <= b_, b_ < nb)
    return [("a group's banks fit the rank", Implies(h, g_ * nb <= ng * nb - nb)), ("a rank's banks fit the channel", Implies(h, r_ * n_ <= nr * n_ - n_)),
            ("queue index in range", Implies(And(h, g_ * nb <= ng * nb - nb, r_ * n_ <= nr * n_ - n_, r_ * n_ >= 0, g_ * nb >= 0), And(0 <= r_ * n_ + g_ * nb + b_, r_ * n_ + g_ * nb + b_ < nr * n_)))]


def qi_pre(c):
    t, g = c.this, c.this.config_
    return [("queue table", cq_shape(t)), ("geometry", And(g.banks == g.bankgroups * g.banks_per_group, inr(g, c.arg(0), c.arg(1), c.arg(2))))]


class Ad:
    def __init__(self, r, g, b): self.rank, self.bankgroup, self.bank = r, g, b


def qi_post(c):
    t = c.this
    return [("the queue of a place", c.ret == qidx(t, Ad(c.arg(0), c.arg(1), c.arg(2)))), ("exists", And(0 <= c.ret, c.ret < t.num_queues_))]


def qi_setup(eng, st, c):
    CQ_ALIAS(eng, st, c)
    t, g = c.this, c.this.config_
    st.assume(geom(g.ranks, g.bankgroups, g.banks_per_group, g.banks, c.arg(0), c.arg(1), c.arg(2)))


QIX = Contract(CQ + "::GetQueueIndex", qi_pre, qi_post)


def same_entry(a, b): return And(a.cmd_type == b.cmd_type, a.hex_addr == b.hex_addr, sameaddr(a.addr, b.addr))


def same_entries(a, b):
    x = z3.Int("x")
    return And(a.len == b.len, q([x], Implies(z3.And(0 <= x, x < a.len), same_entry(a[x], b[x]))))


def erased(new, old, y):
    x = z3.Int("x")
    return And(new.len == old.len - 1, 0 <= y, y < old.len, q([x], Implies(z3.And(0 <= x, x < y), same_entry(new[x], old[x]))), q([x], Implies(z3.And(y <= x, x < new.len), same_entry(new[x], old[x + 1]))))


def queues_kept(t, o, but):
    i = z3.Int("i")
    return q([i], Implies(z3.And(0 <= i, i < o.num_queues_, i != but), same_entries(t.queues_[i], o.queues_[i])))


def geo(t): return [("geometry", t.config_.banks == t.config_.bankgroups * t.config_.banks_per_group)]


def er_pre(c):
    t, x = c.this, c.arg(0)
    y = z3.Int("y")
    return cq_inv(t) + geo(t) + [("a read or write", rwentry(t, x)), ("which is queued", z3.Exists([y], has_entry(t, x, y)))]


def has_entry(t, x, y):
    Q = t.queues_[qidx(t, x.addr)]
    return z3.And(0 <= y, y < Q.len, Q[y].hex_addr == x.hex_addr, Q[y].cmd_type == x.cmd_type)


# which queue an address belongs to (a definition given by the caller), an arbitrary address, and where a command to it waits
QMAP = z3.Function("queue_of_address", z3.IntSort(), z3.IntSort())
GA = z3.Int("some_address")
GPOS = {w: z3.Int("position_command queue_%s" % w) for w in ("read", "write")}


def isread(m): return Or(m.cmd_type == RD, m.cmd_type == RDP)


def iswrite(m): return Or(m.cmd_type == WR, m.cmd_type == WRP)


def in_own_queue(t):
    x = z3.Int("x")
    return q([i, x], Implies(z3.And(0 <= i, i < t.num_queues_, 0 <= x, x < t.queues_[i].len), QMAP(t.queues_[i][x].hex_addr) == i))


def serve_once(t):
    x, y = z3.Ints("x y")
    return q([i, x, y], Implies(z3.And(0 <= i, i < t.num_queues_, 0 <= x, x < y, y < t.queues_[i].len), Not(And(t.queues_[i][x].hex_addr == t.queues_[i][y].hex_addr, isread(t.queues_[i][x]) == isread(t.queues_[i][y])))))


def gci_map(c, m):
    t, o = c.this, c.old
    x = z3.Int("x")
    rw = And(m.cmd_type != NONE, isrw(m.cmd_type))
    out = [("when every command is in the queue of its address and none serves what another serves, nothing left serves what the command serves",
            Implies(And(rw, in_own_queue(o), serve_once(o)), q([i, x], Implies(z3.And(0 <= i, i < t.num_queues_, 0 <= x, x < t.queues_[i].len), Not(And(t.queues_[i][x].hex_addr == m.hex_addr, isread(t.queues_[i][x]) == isread(m)))))))]
    P, Q = o.queues_[QMAP(GA)], t.queues_[QMAP(GA)]
    for w, kind in (("read", isread), ("write", iswrite)):
        p = GPOS[w]
        was = And(0 <= QMAP(GA), QMAP(GA) < o.num_queues_, 0 <= p, p < P.len, P[p].hex_addr == GA, kind(P[p]))
        out.append(("a waiting %s that the command does not serve still waits" % w, Implies(And(was, Not(And(rw, m.hex_addr == GA, kind(m)))), Or(And(p < Q.len, same_entry(Q[p], P[p])), And(1 <= p, p - 1 < Q.len, same_entry(Q[p - 1], P[p]))))))
    return out


def er_post(c):
    t, o, x = c.this, c.old, c.arg(0)
    y = z3.Int("y")
    qi = qidx(o, x.addr)
    return [("exactly one entry of that address and kind leaves its queue", z3.Exists([y], z3.And(has_entry(o, x, y), erased(t.queues_[qi], o.queues_[qi], y)))), ("the other queues stay", And(t.queues_.len == o.queues_.len, queues_kept(t, o, qi)))] + cq_inv(t) + gci_map(c, x)


def er_invs(L):
    out = []
    t = L.old_this
    for p in L.fr.env.values():
        a = L.eng.read(L.st, p)
        if isinstance(a, It) and a.kind == "seq":
            Q = View(L.eng, L.st, None, L.eng.read(L.st, a.path))
            x = z3.Int("x")
            for nm, v in L.params().items():
                if isinstance(v, Rec) and "hex_addr" in v.f:
                    v = View(L.eng, L.st, None, v)
                    out.append(("not among the passed", q([x], Implies(z3.And(0 <= x, x < a.pos), Not(And(Q[x].hex_addr == v.hex_addr, Q[x].cmd_type == v.cmd_type))))))
    return out


ERASE = Contract(CQ + "::EraseRWCommand", er_pre, er_post, modifies=lambda c: [c.thisp.fld("queues_")])

# -- adding
def add_pre(c):
    t, x = c.this, c.arg(0)
    return cq_inv(t) + geo(t) + [("a read or write", rwentry(t, x)), ("queue size", t.queue_size_ >= 0), ("per-rank flags", t.rank_q_empty.len == t.config_.ranks)]


def add_post(c):
    t, o, x = c.this, c.old, c.arg(0)
    qi = qidx(o, x.addr)
    Q, P = t.queues_[qi], o.queues_[qi]
    y = z3.Int("y")
    return [("accepted exactly when its queue has room", c.ret == (P.len < o.queue_size_)), ("an accepted command joins the end of its queue", Implies(c.ret, And(Q.len == P.len + 1, same_entry(Q[P.len], x), q([y], Implies(z3.And(0 <= y, y < P.len), same_entry(Q[y], P[y])))))),
            ("a refused one changes nothing", Implies(Not(c.ret), same_entries(Q, P))), ("the other queues stay", And(t.queues_.len == o.queues_.len, queues_kept(t, o, qi))), ("the rank has work", Implies(c.ret, Not(t.rank_q_empty[x.addr.rank])))] + cq_inv(t)


def will_pre(c):
    t, g = c.this, c.this.config_
    return [("queue table", cq_shape(t)), ("queue size", t.queue_size_ >= 0), ("a place", inr(g, c.arg(0), c.arg(1), c.arg(2)))] + geo(t)


def will_post(c):
    t = c.this
    return [("room exactly when the queue is not full", c.ret == (t.queues_[qidx(t, Ad(c.arg(0), c.arg(1), c.arg(2)))].len < t.queue_size_))]


ADDC = Contract(CQ + "::AddCommand", add_pre, add_post, modifies=lambda c: [c.thisp.fld("queues_"), c.thisp.fld("rank_q_empty")])
WILL = Contract(CQ + "::WillAcceptCommand", will_pre, will_post)


# -- refreshing: the queues of the places being refreshed are held back
def refreshes(t, m, i):
    """queue i holds commands of the place that m refreshes"""
    g = t.config_
    return If(m.cmd_type == REF, If(t.queue_structure_ == PER_RANK, i == m.addr.rank, And(m.addr.rank * g.banks <= i, i < m.addr.rank * g.banks + g.banks)), i == qidx(t, m.addr))


def ref_ok(t, m, sref=None):
    g, cs = t.config_, t.channel_state_
    return And(Or(m.cmd_type == REF, m.cmd_type == REFB), 0 <= m.addr.rank, m.addr.rank < g.ranks, Implies(m.cmd_type == REFB, in_range(g, m.addr)))


OPAQUE = [False]  # inside a unit with this scope the two predicates below are symbols: what it proves holds for every meaning of them


def opaque_held(on): OPAQUE[0] = on


def held(t, m):
    i = z3.Int("i")
    if OPAQUE[0]:
        g = t.config_
        a = [m.cmd_type, m.addr.rank, m.addr.bankgroup, m.addr.bank, t.queue_structure_, t.num_queues_, g.banks, g.banks_per_group, t.ref_q_indices_.val.dom]
        return z3.Function("HELD_BACK", *([x_.sort() for x_ in a] + [z3.BoolSort()]))(*a)
    return q([i], Implies(z3.And(0 <= i, i < t.num_queues_), has(t.ref_q_indices_, i) == refreshes(t, m, i)))


def has(s, i): return z3.Select(s.val.dom, i)


def nothing_held(t):
    i = z3.Int("i")
    if OPAQUE[0]: return z3.Function("NONE_HELD_BACK", t.ref_q_indices_.val.dom.sort(), z3.BoolSort())(t.ref_q_indices_.val.dom)
    return q([i], Not(has(t.ref_q_indices_, i)))


def gri_pre(c):
    return [("queue table", cq_shape(c.this)), ("geometry", And(c.this.config_.banks == c.this.config_.bankgroups * c.this.config_.banks_per_group, c.this.config_.banks >= 1)), ("a refresh request", ref_ok(c.this, c.arg(0))), ("nothing held back", nothing_held(c.this))]


def gri_invs(L):
    t = L.this()
    i = z3.Int("i")
    out = []
    for nm, v in L.params().items():
        if isinstance(v, Rec) and "cmd_type" in v.f:
            v = View(L.eng, L.st, None, v)
            for n_, x in L.ints():
                out.append(("queues passed are held back as needed", q([i], has(t.ref_q_indices_, i) == And(0 <= i, i < x, refreshes(t, v, i)))))
    return out


def gri_setup(eng, st, c):
    CQ_ALIAS(eng, st, c)
    t, g = c.this, c.this.config_
    i = z3.Int("i")
    # quotients of queue numbers by the number of banks (an instance of division for every queue number)
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, g.banks >= 1), (i / g.banks == c.arg(0).addr.rank) == z3.And(c.arg(0).addr.rank * g.banks <= i, i < c.arg(0).addr.rank * g.banks + g.banks)), patterns=[i / g.banks]))


def div_goals(pr):
    i, n_, r_, k_ = z3.Ints("i n r k")
    return [("a queue's rank is its number divided by the banks of a rank", Implies(And(n_ >= 1, i >= 0, i / n_ == k_, i % n_ == i - n_ * k_, r_ * n_ <= i, i < r_ * n_ + n_), k_ == r_)), ("and only its rank", Implies(And(n_ >= 1, i >= 0, i / n_ == r_), And(r_ * n_ <= i, i < r_ * n_ + n_)))]


GRI = Contract(CQ + "::GetRefQIndices", gri_pre, lambda c: [("exactly the queues of the place to refresh are held back", held(c.this, c.arg(0)))], modifies=lambda c: [c.thisp.fld("ref_q_indices_")])


def front(t): return t.channel_state_.refresh_q_[0]


def fr_inv(t): return [("while a refresh is under way exactly its queues are held back", If(t.is_in_ref_, held(t, front(t)), nothing_held(t)))]


def fr_pre(c):
    t = c.this
    x = z3.Int("x")
    F = front(t)
    return cs_ok(c) + [("queue table", cq_shape(t)), ("a refresh waits", t.channel_state_.refresh_q_.len >= 1), ("refresh requests name places of this channel that are awake", And(ref_ok(t, F), Not(t.channel_state_.rank_is_sref_[F.addr.rank])))] + fr_inv(t)


def fr_post(c):
    t, o, x = c.this, c.old, c.ret
    F = front(o)
    return [("the command found may be issued now", Implies(x.cmd_type != NONE, issuable(o.channel_state_, o.config_, x, o.clk_))), ("it is the oldest refresh, or a precharge of a place to refresh", Implies(x.cmd_type != NONE, And(Or(x.cmd_type == F.cmd_type, x.cmd_type == PRE), x.addr.rank == F.addr.rank, Implies(F.cmd_type == REFB, sameaddr(x.addr, F.addr))))),
            ("the refresh is under way until it is found", t.is_in_ref_ == (x.cmd_type != F.cmd_type)), ("its queues are held back exactly until then", If(t.is_in_ref_, held(t, F), nothing_held(t)))]


FINR = Contract(CQ + "::FinishRefresh", fr_pre, fr_post, modifies=lambda c: [c.thisp.fld("ref_q_indices_"), c.thisp.fld("is_in_ref_")])


# -- choosing
def gci_pre(c):
    t = c.this
    return cs_ok(c) + cq_inv(t)


def gci_post(c):
    t, o, x = c.this, c.old, c.ret
    g = o.config_
    i, y = z3.Ints("i y")
    Q = lambda s: s.queues_[i]
    took = lambda: z3.Exists([i, y], z3.And(0 <= i, i < o.num_queues_, 0 <= y, y < o.queues_[i].len, Implies(o.is_in_ref_, Not(has(o.ref_q_indices_, i))), came_from(o, o.queues_[i], x, y), Implies(Or(x.cmd_type == WR, x.cmd_type == WRP), Not(older_read(o.queues_[i], y)))))
    qi = qidx(o, x.addr)
    return [("the command found may be issued now", Implies(x.cmd_type != NONE, issuable(o.channel_state_, g, x, o.clk_))), ("it is a bank command or wakes the rank", Implies(x.cmd_type != NONE, Or(isrw(x.cmd_type), x.cmd_type == ACT, x.cmd_type == PRE, x.cmd_type == SRX))),
            ("it serves a queue that is not held back for a refresh; a write never passes an older read of its place", Implies(x.cmd_type != NONE, took())),
            ("a read or write leaves its queue, exactly once", Implies(And(x.cmd_type != NONE, isrw(x.cmd_type)), And(rwentry(o, x), z3.Exists([y], z3.And(has_entry(o, x, y), erased(t.queues_[qi], o.queues_[qi], y))), queues_kept(t, o, qi)))),
            ("otherwise the queues stay", Implies(Or(x.cmd_type == NONE, Not(isrw(x.cmd_type))), queues_kept(t, o, I(-1))))] + [(l + s_, Implies(h, f)) for s_, h in (("", isrw(x.cmd_type)), (" (no read or write)", Not(isrw(x.cmd_type)))) for l, f in cq_inv(t)] + gci_map(c, x)


def gci_invs(L):
    t, o = L.this(), L.old_this
    return [("queues kept", And(t.queues_.len == o.queues_.len, queues_kept(t, o, I(-1))))] + cq_inv(t)


GCI = Contract(CQ + "::GetCommandToIssue", gci_pre, gci_post, modifies=lambda c: [c.thisp.fld("queues_"), c.thisp.fld("queue_idx_")])

CMDQ = [
    Lemma("queue index", geom_goals),
    Unit("CommandQueue::GetFirstReadyInQueue", CQ + "::GetFirstReadyInQueue", setup=CQ_ALIAS, requires=gfr_pre, ensures=gfr_post, invs=gfr_invs, models=MODELS, contracts=[CGRC]),
    Unit("CommandQueue::GetQueueIndex", CQ + "::GetQueueIndex", setup=qi_setup, requires=qi_pre, ensures=qi_post, models=MODELS),
    Unit("CommandQueue::EraseRWCommand", CQ + "::EraseRWCommand", setup=CQ_ALIAS, requires=er_pre, ensures=er_post, invs=er_invs, models=MODELS, contracts=[QIX]),
    Unit("CommandQueue::AddCommand", CQ + "::AddCommand", setup=CQ_ALIAS, requires=add_pre, ensures=add_post, models=MODELS, contracts=[QIX]),
    Unit("CommandQueue::WillAcceptCommand", CQ + "::WillAcceptCommand", setup=CQ_ALIAS, requires=will_pre, ensures=will_post, models=MODELS, contracts=[QIX]),
    Lemma("queue rank", div_goals),
    Unit("CommandQueue::GetRefQIndices", CQ + "::GetRefQIndices", setup=gri_setup, requires=gri_pre, ensures=GRI.ensures, invs=gri_invs, models=MODELS, contracts=[QIX]),
    Unit("CommandQueue::FinishRefresh", CQ + "::FinishRefresh", setup=CQ_ALIAS, requires=fr_pre, ensures=fr_post, models=MODELS, contracts=[GRI, CGRC]),
    Unit("CommandQueue::GetCommandToIssue", CQ + "::GetCommandToIssue", setup=CQ_ALIAS, requires=gci_pre, ensures=gci_post, invs=gci_invs, models=MODELS, contracts=[GFR, ERASE]),
]

if __name__ == "__main__":
    f = sys.argv[1] if len(sys.argv) > 1 else ""
    us = BANK + CHAN + UPD + WIN + WHOLE + TABLE + REFR + CMDQ
    pr = load([SRC + "bankstate.cc", SRC + "channel_state.cc", SRC + "timing.cc", SRC + "refresh.cc", SRC + "command_queue.cc", SRC + "controller.cc"], FLAGS)
    for u in us:
        if f in u.name: show(run_unit(pr, u), len(sys.argv) > 2)
