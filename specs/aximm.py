"""AXI memory-mapped adapters: request/response packetization, injection, ejection, depacketization, destinations."""
from axis import *

SRCS = [SIM + "/noc/aximm_slave_adapter.cpp", SIM + "/noc/aximm_master_adapter.cpp", SIM + "/noc/noc_utils.cpp", SIM + "/noc/sc_flit.cpp", BOOK + "/flit.cpp"]
SL, MA = "aximm_slave_adapter", "aximm_master_adapter"
AR, AW, WD, RR, BB = range(5)


class MWidths:
    """widths of the compiled headers, taken from the types of the extracted program"""

    def __init__(self, p):
        fl, s = Widths.fields(p, "sc_flit"), Widths.fields(p, SL)
        self.EJ = s["_ejected_flits"].to
        self.W = fl["_payload"].to.a[0]
        self.VC, self.DEST, self.DI, self.PID = (fl[x].a[0] for x in ("_vc_id", "_dest", "_dest_interface", "_packet_id"))
        sig = lambda n: s[n].a[0].a[0]
        self.ID, self.DATA, self.CTRL, self.USER, self.RESP = sig("_i_id"), sig("_i_payload"), sig("_i_ctrl"), sig("_i_user"), sig("_i_resp")
        po = Widths.fields(p, "aximm_slave_port")
        pw = lambda n: po[n].a[0].a[0]
        self.ADDR, self.LEN, self.SIZE, self.BURST = pw("araddr"), pw("arlen"), pw("arsize"), pw("arburst")
        assert self.BURST + self.SIZE + self.LEN == self.CTRL
        self.P = self.DATA + self.RESP + self.USER + 1
        self.REQ = self.ADDR + self.CTRL + self.RESP + self.USER + 1
        self.RSP = self.RESP + self.USER + 1
        self.n = -(-self.P // self.W)
        self.nreq, self.nrsp = -(-self.REQ // self.W), -(-self.RSP // self.W)
        self.node_w = None

    # packet layouts, from bit 0: [last | user | resp | data] and [last | user | resp | ctrl | address]
    def at(self, f):
        o = 1 + self.USER + self.RESP
        return {"last": (0, 1), "user": (1, self.USER), "resp": (1 + self.USER, self.RESP), "data": (o, self.DATA), "ctrl": (o, self.CTRL), "addr": (o + self.CTRL, self.ADDR)}[f]


def low(x, n): return z3.Extract(n - 1, 0, x) if x.size() > n else tobv(x, n)


def ready_slave_post(c):
    t, o = c.this, c.old
    p, po = t.aximm_interface, o.aximm_interface
    ar, aw, w = p.arready.nxt, p.awready.nxt, p.wready.nxt
    room = And(Not(o._injection_afifo_full.cur), o._packetization_cycle.cur == 0, Not(o.rst.cur))
    var, vaw, vw = po.arvalid.cur, po.awvalid.cur, And(po.wvalid.cur, o._got_aw.cur)
    pr = o._injection_priority_setting.cur
    first = lambda k, order: pr == k
    return [("at most one request channel is ready", And(Not(And(ar, aw)), Not(And(ar, w)), Not(And(aw, w)))),
            ("ready only for a valid channel while a whole packet fits", And(Implies(ar, And(var, room)), Implies(aw, And(vaw, room)), Implies(w, And(vw, room)))),
            ("write data only inside a burst whose address was accepted", Implies(w, o._got_aw.cur)),
            ("some valid channel is ready when there is room", Implies(And(room, Or(var, vaw, vw)), Or(ar, aw, w))),
            ("priority rotates AR, AW, W", Implies(room, And(Implies(And(pr == 0, var), ar), Implies(And(pr == 0, Not(var), vaw), aw), Implies(And(pr == 1, vaw), aw), Implies(And(pr == 1, Not(vaw), vw), w), Implies(And(pr == 2, vw), w))))]


def ready_master_post(c):
    t, o = c.this, c.old
    p, po = t.aximm_interface, o.aximm_interface
    r, b = p.rready.nxt, p.bready.nxt
    room = And(Not(o._injection_afifo_full.cur), o._packetization_cycle.cur == 0, Not(o.rst.cur))
    vr, vb = po.rvalid.cur, po.bvalid.cur
    pr = o._injection_priority_setting.cur
    return [("at most one response channel is ready", Not(And(r, b))),
            ("ready only for a valid channel while a whole packet fits", And(Implies(r, And(vr, room)), Implies(b, And(vb, room)))),
            ("some valid channel is ready when there is room", Implies(And(room, Or(vr, vb)), Or(r, b))),
            ("priority alternates", Implies(room, And(Implies(And(pr == 0, vr), r), Implies(And(pr != 0, vb), b))))]


def topbits(w, addr, nw): return z3.Extract(w.ADDR - 1, w.ADDR - nw, addr)


def dest_of(w, addr):
    """the destination a contract-conforming GetInputDestinationNode returns"""
    return z3.Function("dest_node", z3.BitVecSort(w.ADDR), z3.IntSort())(addr)


def dest_contract(w, cls):
    return Contract(cls + "::GetInputDestinationNode", modifies=lambda c: [], ensures=lambda c: [("destination of the address", And(c.ret == dest_of(w, c.arg(0)), c.ret >= 0))])


def capture(c, w, kind, kept):
    """the accepted transaction is latched for packetization"""
    t, o = c.this, c.old
    p = o.aximm_interface
    n = {AR: "ar", AW: "aw", WD: "w", RR: "r", BB: "b"}[kind]
    g = lambda f: getattr(p, n + f).cur
    out = [t._i_valid.nxt == TRUE, t._i_type.nxt == kind, t._i_id.nxt == g("id"), t._i_user.nxt == g("user")]
    if kind in (AR, AW):
        ctrl = z3.Concat(g("len"), g("size"), g("burst"))
        out += [t._i_ctrl.nxt == ctrl, low(t._i_payload.nxt, w.ADDR) == g("addr"), t._i_noc_dest.nxt == z3.Int2BV(dest_of(w, g("addr")), w.DEST)]
    if kind in (WD, RR): out += [t._i_payload.nxt == g("data"), t._i_last.nxt == tobv(g("last"), 1)]
    if kind == WD: out += [t._i_noc_dest.nxt == o._last_awdest.cur]
    if kind in (RR, BB): out += [t._i_resp.nxt == g("resp"), t._i_noc_dest.nxt == z3.Int2BV(dest_of(w, g("user")), w.DEST)]
    return And(*out)


def in_post(w, cls):
    def f(c):
        t, o = c.this, c.old
        p = o.aximm_interface
        hs = lambda n: And(getattr(p, n + "ready").cur, getattr(p, n + "valid").cur)
        if cls == SL:
            ar, aw = hs("ar"), hs("aw")
            wd = And(hs("w"), o._got_aw.cur)
            return [("an accepted read address is latched unchanged with its destination", Implies(ar, capture(c, w, AR, None))),
                    ("an accepted write address is latched unchanged with its destination", Implies(And(aw, Not(ar)), capture(c, w, AW, None))),
                    ("accepted write data is latched unchanged for the burst's destination", Implies(And(wd, Not(ar), Not(aw)), capture(c, w, WD, None))),
                    ("nothing is latched without a handshake", t._i_valid.nxt == Or(ar, aw, wd)),
                    ("a burst is open from its address to its last beat", t._got_aw.nxt == z3.If(ar, o._got_aw.cur, z3.If(aw, TRUE, z3.If(wd, Not(p.wlast.cur), o._got_aw.cur)))),
                    ("priority follows the accepted channel", t._injection_priority_setting.nxt == z3.If(ar, z3.BitVecVal(1, 2), z3.If(aw, z3.BitVecVal(2, 2), z3.If(wd, z3.BitVecVal(0, 2), o._injection_priority_setting.cur))))]
        r, b = hs("r"), hs("b")
        return [("an accepted read response is latched unchanged, addressed to its requester", Implies(r, capture(c, w, RR, None))),
                ("an accepted write response is latched unchanged, addressed to its requester", Implies(And(b, Not(r)), capture(c, w, BB, None))),
                ("nothing is latched without a handshake", t._i_valid.nxt == Or(r, b)),
                ("priority follows the accepted channel", t._injection_priority_setting.nxt == z3.If(r, z3.BitVecVal(1, 1), z3.If(b, z3.BitVecVal(0, 1), o._injection_priority_setting.cur)))]
    return f


def settled(*names):
    return lambda c: [("signals settled", And(*[getattr(c.this, n).nxt == getattr(c.this, n).cur for n in names]))]


# ---- packetization
def nflits(w, kind, dataw):
    """(number of flits, data width range) of the packets of one kind"""
    if kind in (AR, AW): return [(w.nreq, None)]
    if kind == BB: return [(w.nrsp, None)]
    out = []
    for n in range(1, w.n + 1):
        lo, hi = max(1, (n - 1) * w.W + 1 - w.RSP), min(w.DATA, n * w.W - w.RSP)
        if lo <= hi: out.append((n, (lo, hi)))
    return out


def pk_units(p, w, cls, kind):
    out = []
    E = lambda x: p.enum(x)
    ty = {AR: "READ_REQUEST", AW: "WRITE_REQUEST", WD: "WRITE_DATA", RR: "READ_REPLY", BB: "WRITE_REPLY"}[kind]
    nm = {AR: "AR", AW: "AW", WD: "W", RR: "R", BB: "B"}[kind]
    fields = {AR: ("user", "ctrl", "addr"), AW: ("user", "ctrl", "addr"), WD: ("user", "last", "data"), RR: ("user", "last", "resp", "data"), BB: ("user", "resp")}[kind]
    for n, rng in nflits(w, kind, None):
        def pre(c, n=n, rng=rng):
            t = c.this
            r = pool(c) + [("type", t._i_type.cur == kind), ("bound", And(t._max_flits_per_transaction >= n, t._freq_ratio >= 1, t._freq_ratio <= 255)),
                           ("settled", And(t._packetization_cycle.nxt == t._packetization_cycle.cur, t._num_packetization_flits.nxt == t._num_packetization_flits.cur, t._packetization_cycle.cur >= 0, t._packetization_cycle.cur <= 255, t._num_packetization_flits.cur <= 255, t._num_packetization_flits.cur >= 0)),
                           ("depth", t._injection_afifo_depth >= 1)]
            if cls == SL: r += [("settled dest", t._last_awdest.nxt == t._last_awdest.cur)]
            if rng: r += [("data width", And(t._interface_dataw >= rng[0], t._interface_dataw <= rng[1]))]
            return r

        def post(c, n=n, rng=rng):
            t, o = c.this, c.old
            F, G = t._injection_afifo, o._injection_afifo
            cy = o._packetization_cycle.cur
            go = And(o._i_valid.cur, cy == 0)
            val = {"user": o._i_user.cur, "ctrl": o._i_ctrl.cur, "addr": low(o._i_payload.cur, w.ADDR), "data": o._i_payload.cur, "last": o._i_last.cur, "resp": o._i_resp.cur}
            r = [("the whole packet is queued once, when a transaction is latched and the packetizer is idle", F.len == z3.If(go, G.len + n, G.len)),
                 ("queued flits untouched", fifo_kept(F, G))]
            for k in range(n):
                fl = F[G.len + k]
                pay = rawbv(c, fl._payload, w.W).val
                r += [("flit %d: head, tail and type" % k, Implies(go, And(fl._head == z3.BoolVal(k == 0), fl._tail == z3.BoolVal(k == n - 1), fl._type == E(ty)))),
                      ("flit %d: virtual channel of the type" % k, Implies(go, fl._vc_id == z3.Int2BV(vcof(E(ty), E), w.VC))),
                      ("flit %d: destination, channel and id are the transaction's" % k, Implies(go, And(fl._dest == o._i_noc_dest.cur, fl._dest_interface == tobv(o._i_type.cur, w.DI), fl._packet_id == tobv(o._i_id.cur, w.PID))))]
                for f in fields:
                    lo, wd = w.at(f)
                    a, b = max(lo, k * w.W), min(lo + wd, (k + 1) * w.W)   # packet bits [a, b) of this field in this flit
                    if f == "data":
                        # only the interface's own data bits are carried
                        b = min(b, w.P)
                    if a >= b: continue
                    r.append(("flit %d carries bits [%d, %d) of the %s" % (k, a - lo, b - lo, f), Implies(go, z3.Extract(b - 1 - k * w.W, a - k * w.W, pay) == z3.Extract(b - 1 - lo, a - lo, val[f]))))
            lim = z3.If(o._num_packetization_flits.cur >= o._freq_ratio, o._num_packetization_flits.cur, o._freq_ratio) - 1
            r += [("the packetizer counts the slots of its packet and becomes idle again", Implies(And(cy > 0, Not(go), lim <= 254, lim >= 0, cy <= lim), t._packetization_cycle.nxt == z3.If(cy == lim, I(0), cy + 1))),
                  ("the packetizer is busy after taking a transaction", Implies(go, And(t._packetization_cycle.nxt == 1, t._num_packetization_flits.nxt == n))),
                  ("idle without a transaction", Implies(And(cy == 0, Not(go)), t._packetization_cycle.nxt == 0)),
                  ("the FIFO reports full unless every packet fits", t._injection_afifo_full.nxt == (F.len + o._max_flits_per_transaction > o._injection_afifo_depth))]
            if cls == SL: r += [("write data follows the last write address", t._last_awdest.nxt == (z3.If(go, z3.Int2BV(dest_of(w, low(o._i_payload.cur, w.ADDR)), w.DEST), o._last_awdest.cur) if kind == AW else o._last_awdest.cur))]
            return r + [("inv: " + l, g) for l, g in pool(c)]
        def setup(eng, st, c):
            t = st.store["this"]
            ty_ = t.f["_i_type"]
            st.store["this"] = Rec(t.name, dict(t.f, _i_type=Rec(ty_.name, dict(ty_.f, cur=z3.BitVecVal(kind, ty_.f["cur"].size())))))
        out.append(Unit("%s.InputPacketization(%s, %d flits)" % (cls.split("_")[1], nm, n), cls + "::InputPacketization", kind="process", setup=setup, requires=pre, ensures=post, models=BASE, contracts=[slice_contract(w), dest_contract(w, cls)], solver_unroll=True))
    return out


# ---- injection
def minj_pre(w):
    def f(c):
        t = c.this
        small = lambda x: z3.Extract(w.PID - 1, w.PID - 1, x) == 0   # transaction ids are zero-extended by the packetizer
        return pool(c) + [("ids", And(small(t._to_be_injected_flit._packet_id), small(t._injection_afifo[0]._packet_id))), ("free flits", c.g("Flit::_free").len == 0), ("no lookahead", z3.Not(t._lookahead_routing)), ("pointers", And(t._noc >= 1, t._buffer_state >= 1)),
                          ("payload", And(t._to_be_injected_flit._payload >= 1, t._to_be_injected_flit._payload < c.pre.nextref)), ("payloads", q([i], z3.Implies(z3.And(0 <= i, i < t._injection_afifo.len), And(t._injection_afifo[i]._payload >= 1, t._injection_afifo[i]._payload < c.pre.nextref))))]
    return f


def minj_post(w):
    def f(c):
        t, o = c.this, c.old
        F, G = t._injection_afifo, o._injection_afifo
        had = o._injection_flit_ready
        pending = z3.Or(had, G.len > 0)
        cur = lambda g: z3.If(had, getattr(o._to_be_injected_flit, g), getattr(G[0], g))
        vc, head = bv2i(cur("_vc_id")), cur("_head")
        go = z3.And(pending, z3.Not(FULL(vc)), z3.Or(z3.Not(head), z3.Not(o._wait_for_tail_credit), AVAIL(vc)))
        wr, tk, sn, cr = ev(c, "WriteFlit"), ev(c, "TakeBuffer"), ev(c, "SendingFlit"), ev(c, "ProcessCredit")
        fl = c.obj("Flit", wr.a0)
        return [("a flit enters the network iff one is pending and the downstream buffer can take it", wr.n == z3.If(go, I(1), I(0))),
                ("it enters at this node", Implies(go, And(wr.a1 == o._node_id, fl.src == o._node_id))),
                ("a popped flit is either sent or kept for the next cycle", t._injection_flit_ready == z3.And(pending, z3.Not(go))),
                ("the FIFO loses its front only when the staging register is free", z3.If(z3.And(z3.Not(had), G.len > 0), fifo_popped(F, G), fifo_same(F, G))),
                ("a waiting flit is kept unchanged", Implies(And(pending, Not(go)), And(*[getattr(t._to_be_injected_flit, g) == cur(g) for g in ("_head", "_tail", "_type", "_vc_id", "_dest", "_dest_interface", "_packet_id")]))),
                ("head, tail, type and virtual channel are the flit's", Implies(go, And(fl.head == head, fl.tail == cur("_tail"), fl.type == cur("_type"), fl.vc == vc))),
                ("id kept", Implies(go, fl.pid == bv2i(cur("_packet_id")))), ("destination node kept", Implies(go, fl.dest == bv2i(cur("_dest")))),
                ("channel kept", Implies(go, And(fl.dest_interface == bv2i(cur("_dest_interface"))))),
                ("payload kept", Implies(go, c.eng.read(c.post, Path("heap:raw:sc_dt::sc_bv<%d>" % w.W, (("h", fl.data),))) == z3.If(had, rawbv(c, o._to_be_injected_flit._payload, w.W, c.pre).val, rawbv(c, G[0]._payload, w.W, c.pre).val))),
                ("the downstream buffer is taken with every head flit", And(tk.n == z3.If(z3.And(go, head), I(1), I(0)), Implies(And(go, head), tk.a0 == vc))),
                ("every flit is charged to the downstream buffer", And(sn.n == wr.n, Implies(go, sn.a0 == wr.a0))),
                ("a returned credit is processed once", And(cr.n == z3.If(c.post.store["rd:credit"] != 0, I(1), I(0)), Implies(cr.n == 1, cr.a0 == c.post.store["rd:credit"])))]
    return f


# ---- ejection
CL = {SL: (("read_reply", RR), ("write_reply", BB)), MA: (("read_request", AR), ("write_request", AW), ("write_data", WD))}


def in_class(v, n): return z3.And(v >= cfg(n + "_begin_vc"), v <= cfg(n + "_end_vc"))


def classes_ok(cls):
    """every class owns its own virtual channels"""
    ns = [n for n, _ in CL[cls]]
    return [("disjoint classes", And(*[z3.Not(z3.And(in_class(i, a), in_class(i, b))) if False else q([i], z3.Not(z3.And(in_class(i, a), in_class(i, b)))) for x, a in enumerate(ns) for b in ns[x + 1:]]))]


def slotof(cls, v):
    r = I(len(CL[cls]) - 1)
    for k, (n, _) in reversed(list(enumerate(CL[cls]))[:-1]): r = z3.If(in_class(v, n), I(k), r)
    return r


def inv_units(w, cls):
    def pre(c): return classes_ok(cls) + [("a channel of this side", z3.Or(*[in_class(c.arg(0), n) for n, _ in CL[cls]]))]

    def post(c): return [("channel %d belongs to %s" % (k, n), Implies(in_class(c.arg(0), n), c.ret == k)) for n, k in CL[cls]]
    return [Unit("%s.InverseVCMapping" % cls.split("_")[1], cls + "::InverseVCMapping", requires=pre, ensures=post, models=BASE)]


def mej_pre(w, cls):
    def f(c):
        t = c.this
        n = len(CL[cls])
        ok = lambda v: z3.Or(*[in_class(v, x) for x, _ in CL[cls]])
        return pool(c) + classes_ok(cls) + [("FIFOs", And(t._ejection_afifos.len == n, t._ejection_afifo_push_counter.len == n, t._ejection_afifo_pop_counter.len == n)),
                          ("pointers", t._noc >= 1), ("signals settled", q([i], t._ejection_afifo_push_counter[i].nxt == t._ejection_afifo_push_counter[i].cur)),
                          ("lens", q([i], t._ejection_afifos[i].len >= 0)),
                          ("flits of this network", q([i], z3.Implies(i >= 1, And(ok(c.obj("Flit", i).vc), c.obj("Flit", i).data >= 1, c.obj("Flit", i).data < c.pre.nextref))))]
    return f


def mej_post(w, cls):
    def f(c):
        t, o = c.this, c.old
        n = len(CL[cls])
        rd = c.post.store.get("rd:ejected", I(0))
        held = o._ejected_booksim_flit
        ref = z3.If(held != 0, held, rd)
        fl = c.oobj("Flit", ref)
        s = slotof(cls, fl.vc)
        G, F = o._ejection_afifos[s], t._ejection_afifos[s]
        go = z3.And(ref != 0, G.len < o._ejection_afifo_depth)
        x = F[G.len]
        return [("the flit is stored in the FIFO of its transaction type iff there is room", F.len == z3.If(go, G.len + 1, G.len)),
                ("stored flits untouched", Implies(ref != 0, fifo_kept(F, G))),
                ("other FIFOs untouched", q([j], z3.Implies(z3.And(0 <= j, j < n, z3.Or(j != s, z3.Not(go))), And(t._ejection_afifos[j].len == o._ejection_afifos[j].len, t._ejection_afifos[j].lo == o._ejection_afifos[j].lo)))),
                ("a flit that does not fit is kept for the next cycle", z3.If(go, t._ejected_booksim_flit == 0, t._ejected_booksim_flit == ref)),
                ("head, tail, type, virtual channel and id are the flit's", Implies(go, And(x._head == fl.head, x._tail == fl.tail, x._type == fl.type, x._vc_id == fitbv(fl.vc, w.VC), x._packet_id == fitbv(fl.pid, w.PID)))),
                ("channel kept", Implies(go, x._dest_interface == fitbv(fl.dest_interface, w.DI))),
                ("payload kept", Implies(go, rawbv(c, x._payload, w.W).val == rawbv(c, fl.data, w.W, c.pre).val)),
                ("complete packets counted", q([j], z3.Implies(z3.And(0 <= j, j < n), t._ejection_afifo_push_counter[j].nxt == o._ejection_afifo_push_counter[j].cur + z3.If(z3.And(go, fl.tail, j == s), I(1), I(0)))))]
    return f


# ---- depacketization
def mdp_pre(w, cls):
    n = len(CL[cls])

    def f(c):
        t = c.this
        E, P = t._ejection_afifos, t._ejection_afifo_priority
        push, pop = t._ejection_afifo_push_counter, t._ejection_afifo_pop_counter
        return pool(c) + [("FIFOs", And(E.len == n, push.len == n, pop.len == n)),
                          ("priority list", And(P.len == n, P.all(lambda x, a: z3.And(x >= 0, x < n)))),
                          ("settled", And(q([i], And(push[i].nxt == push[i].cur, pop[i].nxt == pop[i].cur)), t._ejection_afifo_is_depacketizing.nxt == t._ejection_afifo_is_depacketizing.cur)),
                          ("lens", And(q([i], E[i].len >= 0), t._constructed_packet._flits.len >= 0, t._output_afifo.len >= 0)),
                          ("complete packets are in the FIFO", q([i], z3.Implies(z3.And(0 <= i, i < n, push[i].cur > pop[i].cur), E[i].len > 0))),
                          ("a packet being assembled stays at the front", Implies(t._ejection_afifo_is_depacketizing.cur, push[P[0]].cur > pop[P[0]].cur)),
                          ("payloads", q([i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < E[i].len), And(E[i][j]._payload >= 1, E[i][j]._payload < c.pre.nextref)))),
                          ("credit queue", And(t._ejected_flits >= 1, c.oobj(w.EJ, t._ejected_flits).at(t._node_id).len >= 0))]
    return f


def mdp_invs(cls):
    n = len(CL[cls])

    def f(L):
        t = L.this()
        P = t._ejection_afifo_priority
        push, pop = t._ejection_afifo_push_counter, t._ejection_afifo_pop_counter
        out = [("priority list", And(P.len == n, P.all(lambda x, a: z3.And(x >= 0, x < n))))]
        for nm, v in L.ints():
            out += [("%s is the front" % nm, v == P[0]), ("%s range" % nm, And(v >= 0, v < n))]
            for nb, vb in L.bools(): out.append(("%s: %s has a complete packet" % (nb, nm), vb == (push[v].cur > pop[v].cur)))
        P0 = L.old_this._ejection_afifo_priority
        for nm, e, v in L.counters():
            out += [("%s counts the FIFOs passed over" % nm, And(P.lo == P0.lo + v, v <= n)), ("incomplete below %s" % nm, q([i], z3.Implies(z3.And(0 <= i, i < v), push[P0[i]].cur <= pop[P0[i]].cur))),
                    ("order kept, %s" % nm, q([i], z3.Implies(z3.And(P0.lo <= i, i < P0.lo + n), P.abs(i) == P0.abs(i))))]
        return out
    return f


def mdp_post(w, cls):
    n = len(CL[cls])

    def f(c):
        t, o = c.this, c.old
        E, E0, O, O0 = t._ejection_afifos, o._ejection_afifos, t._output_afifo, o._output_afifo
        push, pop = o._ejection_afifo_push_counter, o._ejection_afifo_pop_counter
        C, C0 = t._constructed_packet._flits, o._constructed_packet._flits
        took = lambda v: E[v].len != E0[v].len
        x = lambda v: E0[v][0]
        K, K0 = c.obj(w.EJ, o._ejected_flits).at(o._node_id), c.oobj(w.EJ, o._ejected_flits).at(o._node_id)
        depk, depk2 = o._ejection_afifo_is_depacketizing.cur, t._ejection_afifo_is_depacketizing.nxt
        flds = ("_head", "_tail", "_type", "_vc_id", "_dest", "_dest_interface", "_packet_id", "_sim_transaction_id")
        same = lambda a, b: And(*[getattr(a, g) == getattr(b, g) for g in flds], rawbv(c, a._payload, w.W).val == rawbv(c, b._payload, w.W, c.pre).val)
        r = []
        anyt = z3.Or(*[took(v) for v in range(n)])
        room = O0.len < 2
        front = o._ejection_afifo_priority[0]
        for v in range(n):
            y = x(v)
            r += [("FIFO %d: at most its front flit leaves" % v, Implies(took(v), And(E[v].len == E0[v].len - 1, E[v].lo == E0[v].lo + 1))),
                  ("FIFO %d: alone" % v, Implies(took(v), And(*[Not(took(u)) for u in range(n) if u != v]))),
                  ("FIFO %d: only complete packets are opened, and only with output room" % v, Implies(took(v), And(push[v].cur > pop[v].cur, room))),
                  ("FIFO %d: a packet being assembled is not interrupted" % v, Implies(And(depk, took(v)), front == v)),
                  ("FIFO %d: a body flit joins the packet under assembly" % v, Implies(And(took(v), Not(y._tail)), And(C.len == C0.len + 1, same(C[C0.len], y), depk2, t._ejection_afifo_priority[0] == v))),
                  ("FIFO %d: flits already assembled are kept" % v, Implies(And(took(v), Not(y._tail)), q([i], z3.Implies(z3.And(0 <= i, i < C0.len), eqview(C[i], C0[i]))))),
                  ("FIFO %d: a tail flit completes the packet in the output FIFO" % v, Implies(And(took(v), y._tail), And(O.len == O0.len + 1, O[O0.len]._flits.len == C0.len + 1, same(O[O0.len]._flits[C0.len], y), C.len == 0, Not(depk2)))),
                  ("FIFO %d: assembled flits are delivered unchanged" % v, Implies(And(took(v), y._tail), q([i], z3.Implies(z3.And(0 <= i, i < C0.len), eqview(O[O0.len]._flits[i], C0[i]))))),
                  ("FIFO %d: delivered packets counted" % v, t._ejection_afifo_pop_counter[v].nxt == pop[v].cur + z3.If(And(took(v), y._tail), I(1), I(0))),
                  ("FIFO %d: one credit for the virtual channel of the flit that leaves" % v, Implies(took(v), And(K.len == K0.len + 1, K[K0.len] == bv2i(y._vc_id))))]
        return r + [("a complete packet at the front of the priority list progresses when there is room", Implies(And(room, push[front].cur > pop[front].cur), took(front))),
                    ("nothing is delivered without a flit", Implies(Not(anyt), And(O.len == O0.len, C.len == C0.len, K.len == K0.len))),
                    ("some complete packet progresses when there is room", Implies(And(room, Not(depk), z3.Or(*[push[v].cur > pop[v].cur for v in range(n)]), distinct(o._ejection_afifo_priority, n)), anyt)),
                    ("credits already queued are kept, in order", q([i], z3.Implies(z3.And(0 <= i, i < K0.len), K[i] == K0[i]))),
                    ("credits of other nodes untouched", q([i], z3.Implies(i != o._node_id, And(c.obj(w.EJ, o._ejected_flits).at(i).len == c.oobj(w.EJ, o._ejected_flits).at(i).len, c.obj(w.EJ, o._ejected_flits).at(i).lo == c.oobj(w.EJ, o._ejected_flits).at(i).lo))))]
    return f


def distinct(P, n): return And(*[z3.Or(*[P[k] == v for k in range(n)]) for v in range(n)])


# ---- driving the output channels
def mo_units(p, w, cls):
    out = []
    for kind_n, kind in CL[cls]:
        pre_n = {AR: "ar", AW: "aw", WD: "w", RR: "r", BB: "b"}[kind]
        E = p.enum({AR: "READ_REQUEST", AW: "WRITE_REQUEST", WD: "WRITE_DATA", RR: "READ_REPLY", BB: "WRITE_REPLY"}[kind])
        chans = [{AR: "ar", AW: "aw", WD: "w", RR: "r", BB: "b"}[k] for _, k in CL[cls]]
        ns = sorted({n for n, _ in nflits(w, kind, None)})
        for nfl in ns:
            for staged in (True, False):
                def setup(eng, st, c, nfl=nfl, staged=staged):
                    this = st.store["this"]
                    if staged:
                        op = this.f["_output_packet"]
                        st.store["this"] = Rec(this.name, dict(this.f, _output_packet=Rec(op.name, dict(op.f, _flits=Seq(I(0), I(nfl), op.f["_flits"].elem)))))

                def req(c, nfl=nfl, staged=staged, E=E):
                    t = c.this
                    r = [("staged", t._output_packet_ready == z3.BoolVal(staged)), ("lens", t._output_afifo.len >= 0)]
                    pk = t._output_packet if staged else t._output_afifo[0]
                    if not staged: r += [("a packet is waiting", t._output_afifo.len > 0), ("flits", pk._flits.len == nfl), ("lo", pk._flits.lo >= 0)]
                    return r + [("kind", pk._flits[0]._type == E), ("payloads", And(*[pk._flits[k]._payload >= 1 for k in range(nfl)]))]

                def ens(c, nfl=nfl, staged=staged, kind=kind, pre_n=pre_n, chans=chans):
                    t, o = c.this, c.old
                    pk = o._output_packet if staged else o._output_afifo[0]
                    fl = pk._flits
                    bits = concat([rawbv(c, fl[k]._payload, w.W, c.pre).val for k in reversed(range(nfl))])
                    if bits.size() > w.P: bits = z3.Extract(w.P - 1, 0, bits)
                    have = bits.size()
                    q_ = t.aximm_interface
                    rdy = getattr(o.aximm_interface, pre_n + "ready").cur
                    r = [("only this channel is valid, and only when ready was shown", And(*[getattr(q_, ch + "valid").nxt == (rdy if ch == pre_n else FALSE) for ch in chans])),
                         ("the packet leaves with its transfer only", t._output_packet_ready == Not(rdy)),
                         ("id", Implies(rdy, getattr(q_, pre_n + "id").nxt == tobv(fl[0]._packet_id, w.ID)))]

                    def fld(name, sig, sub=None):
                        lo, wd = w.at(name)
                        if sub: lo, wd = lo + sub[0], sub[1]
                        hi = min(lo + wd, have)
                        if hi <= lo: return
                        x = getattr(q_, pre_n + sig).nxt
                        if z3.is_bool(x): x = tobv(x, 1)
                        r.append(("%s bits" % sig, Implies(rdy, z3.Extract(hi - lo - 1, 0, x) == z3.Extract(hi - 1, lo, bits))))
                    fld("user", "user")
                    if kind in (AR, AW):
                        fld("addr", "addr")
                        fld("ctrl", "burst", (0, w.BURST))
                        fld("ctrl", "size", (w.BURST, w.SIZE))
                        fld("ctrl", "len", (w.BURST + w.SIZE, w.LEN))
                    if kind in (WD, RR): fld("data", "data"); fld("last", "last")
                    if kind in (RR, BB): fld("resp", "resp")
                    O, O0 = t._output_afifo, o._output_afifo
                    r.append(("the output FIFO", And(O.len == O0.len, O.lo == O0.lo) if staged else And(O.len == O0.len - 1, O.lo == O0.lo + 1)))
                    if not staged: r.append(("a waiting packet is kept for the next cycle", Implies(Not(rdy), And(t._output_packet._flits.len == nfl, *[eqview(t._output_packet._flits[k], fl[k]) for k in range(nfl)]))))
                    return r
                out.append(Unit("%s.OutputInterface(%s, %d flits, %s)" % (cls.split("_")[1], pre_n.upper(), nfl, "staged" if staged else "from FIFO"), cls + "::OutputInterface", kind="process", setup=setup, requires=req, ensures=ens, models=BASE, solver_unroll=True))
    # nothing to send
    def idle_post(c):
        chans = [{AR: "ar", AW: "aw", WD: "w", RR: "r", BB: "b"}[k] for _, k in CL[cls]]
        return [("no channel is valid without a packet", And(*[Not(getattr(c.this.aximm_interface, ch + "valid").nxt) for ch in chans])), ("still nothing staged", Not(c.this._output_packet_ready))]
    def idle_setup(eng, st, c):
        t = st.store["this"]
        st.store["this"] = Rec(t.name, dict(t.f, _output_packet_ready=FALSE, _output_afifo=Seq(I(0), I(0), t.f["_output_afifo"].elem)))
    out.append(Unit("%s.OutputInterface(idle)" % cls.split("_")[1], cls + "::OutputInterface", kind="process", setup=idle_setup, requires=lambda c: [("nothing waits", And(Not(c.this._output_packet_ready), c.this._output_afifo.len == 0))], ensures=idle_post, models=BASE))
    return out


def units(p):
    w = MWidths(p)
    req, rsp, dst = [], [], []
    slices = slice_units(w, w.P, "aximm")
    S, M = SL + "::", MA + "::"
    req += slices
    rsp += slices
    req += [Unit("slave.InputReady", S + "InputReady", ensures=ready_slave_post, models=BASE, requires=lambda c: [("priority", z3.ULE(c.this._injection_priority_setting.cur, 2))]),
            Unit("slave.InputInterface", S + "InputInterface", kind="process", requires=settled("_got_aw", "_injection_priority_setting"), ensures=in_post(w, SL), models=BASE, contracts=[dest_contract(w, SL)])]
    rsp += [Unit("master.InputReady", M + "InputReady", ensures=ready_master_post, models=BASE),
            Unit("master.InputInterface", M + "InputInterface", kind="process", requires=settled("_injection_priority_setting"), ensures=in_post(w, MA), models=BASE, contracts=[dest_contract(w, MA)])]
    for k in (AR, AW, WD): req += pk_units(p, w, SL, k)
    for k in (RR, BB): rsp += pk_units(p, w, MA, k)
    for cls, l_in, l_out, a in ((SL, req, rsp, "slave"), (MA, rsp, req, "master")):
        l_in += [Unit(a + ".InputInjection", cls + "::InputInjection", kind="process", setup=inj_setup, requires=minj_pre(w), ensures=minj_post(w), models=dict(BASE, **NOC))]
        l_out += inv_units(w, cls)
        l_out += [Unit(a + ".OutputEjection", cls + "::OutputEjection", kind="process", setup=inj_setup, requires=mej_pre(w, cls), ensures=mej_post(w, cls), models=dict(BASE, **NOC)),
                  Unit(a + ".OutputDepacketization", cls + "::OutputDepacketization", kind="process", requires=mdp_pre(w, cls), ensures=mdp_post(w, cls), invs=mdp_invs(cls), models=BASE, timeout=12000)]
        l_out += mo_units(p, w, cls)
    return req, rsp



def roundtrip(w):
    """the slicing contract followed by the reading contract returns every field that was sent"""
    def goals(p):
        out = []
        for nm, width in (("request", w.REQ), ("write data / read data", w.P), ("write response", w.RSP)):
            full = z3.BitVec("packet", w.P)
            n = -(-width // w.W)
            got = concat([chunk(w, full, k) for k in reversed(range(n))])
            if got.size() > w.P: got = z3.Extract(w.P - 1, 0, got)
            out.append(("%s: the %d flits hold all of the packet's %d bits" % (nm, n, width), And(got.size() >= width, z3.Extract(width - 1, 0, got) == z3.Extract(width - 1, 0, full))))
        lay = sorted(w.at(f) + (f,) for f in ("last", "user", "resp", "ctrl", "addr"))
        out.append(("request fields tile the packet", z3.BoolVal(all(lay[k][0] + lay[k][1] == lay[k + 1][0] for k in range(len(lay) - 1)) and lay[0][0] == 0 and lay[-1][0] + lay[-1][1] == w.REQ)))
        lay = sorted(w.at(f) + (f,) for f in ("last", "user", "resp", "data"))
        out.append(("data fields tile the packet", z3.BoolVal(all(lay[k][0] + lay[k][1] == lay[k + 1][0] for k in range(len(lay) - 1)) and lay[0][0] == 0 and lay[-1][0] + lay[-1][1] == w.P)))
        return out
    return Lemma("packet round trip (%d-bit links)" % w.W, goals)


# ---- destinations
ADDR_SRCS = [SIM + "/design_context.cpp"]


def asint(x): return bv2i(x) if z3.is_bv(x) else x


def node_units(p, flags):
    w = MWidths(p)
    nw = macro("AXI4_NODE_ADDRW", flags)
    return [Unit("%s::GetInputDestinationNode" % c, c + "::GetInputDestinationNode",
                 ensures=lambda c: [("the node is the top %d address bits" % nw, asint(c.ret) == bv2i(topbits(w, c.arg(0), nw)))], models=BASE) for c in (SL, MA)]


def base_units(p, flags):
    out = []
    aw, nw = macro("AXI4_ADDRW", flags), macro("AXI4_NODE_ADDRW", flags)
    for n in range(1, 9):
        bits = (n - 1).bit_length()
        span = 2 ** (aw - nw - bits)
        def nocs(eng, st, fr, nn, obj, args, n=n): return I(n)
        def req(c, n=n): return [("placement in range", And(0 <= c.arg(0), c.arg(0) < n, 0 <= c.arg(1), c.arg(1) < 2 ** nw))]
        def ens(c, n=n, bits=bits, span=span):
            off = z3.Int("offset")
            a = c.ret + off
            inr = And(off >= 0, off < span)
            return [("every address of the range names the node in its top bits", Implies(inr, a / I(2 ** (aw - nw)) == c.arg(1))),
                    ("every address of the range names the NoC below the node", Implies(inr, (a / I(span)) % (2 ** bits) == c.arg(0))),
                    ("the address fits the address bus", Implies(inr, And(a >= 0, a < 2 ** aw)))]
        out.append(Unit("DetermineBaseAddress(%d NoCs)" % n, "DetermineBaseAddress", requires=req, ensures=ens, models=dict(BASE, **{"RADSimConfig::GetIntKnobPerRad": nocs})))
    return out


def addr_lemma(flags):
    def goals(p):
        aw, nw = macro("AXI4_ADDRW", flags), macro("AXI4_NODE_ADDRW", flags)
        a = z3.BitVec("a", aw)
        return [("top address bits of the bus are the quotient by the node range", z3.ZeroExt(aw - nw, z3.Extract(aw - 1, aw - nw, a)) == z3.LShR(a, z3.BitVecVal(aw - nw, aw))),
                ("the quotient is the shift", z3.LShR(a, z3.BitVecVal(aw - nw, aw)) == z3.UDiv(a, z3.BitVecVal(2 ** (aw - nw), aw)))]
    return Lemma("address bus round trip", goals)


ALT = dict(NOC_LINKS_PAYLOAD_WIDTH=166, NOC_LINKS_VCID_WIDTH=4)


def groups(name, pick):
    """the same units at the tracked widths and at a wider link"""
    def g():
        out = []
        for nm, d in (("", {}), (" (166-bit links, 16 VCs)", ALT)):
            f = (header(d) if d else []) + list(FLAGS)
            out.append({"name": name + nm, "srcs": SRCS, "flags": f, "units": lambda p, f=f: pick(p, f)})
        return out
    return g


MASSUME = ASSUME + ["integer ratio of at least two between NoC and adapter clocks; receivers accept the transaction presented in the cycle after they showed ready; one write burst at a time per master",
                    "transaction ids are compared modulo their 8-bit width"]


def p06(p, f):
    w = MWidths(p)
    return node_units(p, f) + [u for u in sum(units(p), []) if u.name.endswith("InputInterface")]


def p06_groups():
    out = groups("AXI-MM destinations", p06)()
    for nm, d in (("", {}), (" (4 node bits)", dict(AXI4_NODE_ADDRW=4))):
        f = (header(d) if d else []) + list(FLAGS)
        out.append({"name": "base addresses" + nm, "srcs": ADDR_SRCS, "flags": f, "units": lambda p, f=f: base_units(p, f) + [addr_lemma(f)]})
    return out


HN = "random systems of AXI-MM masters and slaves on one or two NoCs run end to end on the compiled code, every transaction compared with what was sent; bounded, never counted as proved"
PROPS = {
    "P04": {"groups": groups("AXI-MM requests", lambda p, f: units(p)[0] + [roundtrip(MWidths(p))]), "harness": lambda: [nocsys("mm", ["aximm"]), nocsys("mm166", ["aximm"], quick=12, **ALT)], "assumptions": MASSUME, "harness_note": HN},
    "P05": {"groups": groups("AXI-MM responses", lambda p, f: units(p)[1] + [roundtrip(MWidths(p))]), "harness": lambda: [nocsys("mm", ["aximm"]), nocsys("mm97", ["aximm"], quick=12, NOC_LINKS_PAYLOAD_WIDTH=97)], "assumptions": MASSUME, "harness_note": HN},
    "P06": {"groups": p06_groups, "harness": lambda: [nocsys("mm", ["aximm"], quick=12), nocsys("mmn4", ["aximm"], quick=12, AXI4_NODE_ADDRW=4)], "assumptions": MASSUME, "harness_note": HN},
}


if __name__ == "__main__":
    p = load(SRCS, FLAGS)
    us = sum(units(p), [])
    if len(sys.argv) > 1: us = [u for u in us if sys.argv[1] in u.name]
    for r in run_units(p, us, 8): show(r, len(sys.argv) > 2)
