"""AXI-streaming adapters: packetization, injection, ejection, depacketization."""
from common import *
from check import Harness

SRCS = [SIM + "/noc/axis_slave_adapter.cpp", SIM + "/noc/axis_master_adapter.cpp", SIM + "/noc/noc_utils.cpp", SIM + "/noc/sc_flit.cpp", BOOK + "/flit.cpp"]
FLAGS = SIM_INC
i, j = z3.Ints("i j")


def concat(l): return z3.Concat(*l) if len(l) > 1 else l[0]


class Widths:
    """widths of the compiled headers, taken from the types of the extracted program"""

    def __init__(self, p):
        fl = self.fields(p, "sc_flit")
        tr = self.fields(p, "axis_transaction")
        self.EJ = self.fields(p, "axis_master_adapter")["_ejected_flits"].to
        self.W = fl["_payload"].to.a[0]
        self.VC, self.DEST, self.DI, self.PID = (fl[x].a[0] for x in ("_vc_id", "_dest", "_dest_interface", "_packet_id"))
        self.data, self.user, self.tid = tr["tdata"].a[0], tr["tuser"].a[0], tr["tid"].a[0]
        self.P = self.data + self.user + 1
        self.F = self.DEST // 3
        self.n = -(-self.P // self.W)

    @staticmethod
    def fields(p, c):
        r = p.rec[c]
        return {f["n"]: r["tu"].ty(f["t"]) for f in r["fields"]}


def chunk(w, bv, k):
    """bits of flit k of a packet, zero-extended to the link width"""
    lo, hi = k * w.W, min((k + 1) * w.W, bv.size())
    return tobv(z3.Extract(hi - 1, lo, bv), w.W)


def chunk_sym(w, bv, k):
    """the same for a symbolic flit number"""
    n = -(-bv.size() // w.W)
    r = chunk(w, bv, n - 1)
    for x in range(n - 2, -1, -1): r = z3.If(k == x, chunk(w, bv, x), r)
    return r


def packet(w, t): return z3.Concat(t.tdata, t.tuser, tobv(t.tlast, 1))


def eqview(a, b): return eqv(a.val if isinstance(a, View) else a, b.val if isinstance(b, View) else b)


def fifo_same(a, b): return And(a.len == b.len, q([i], z3.Implies(z3.And(0 <= i, i < b.len), eqview(a[i], b[i]))))


def fifo_kept(a, b): return q([i], z3.Implies(z3.And(0 <= i, i < b.len), eqview(a[i], b[i])))


def fifo_popped(a, b): return And(a.len == b.len - 1, q([i], z3.Implies(z3.And(0 <= i, i < b.len - 1), eqview(a[i], b[i + 1]))))


def pool(c): return [("payload pool", c.g("sc_flit::_free").len == 0)]


def slave_inv(t):
    n = t._num_axis_interfaces
    return [("interfaces", And(n >= 1, t.axis_interfaces.len == n, t._tready_values.len == n, t._num_flits_per_packet.len == n, t._interface_types.len == n, t._interface_dataw.len == n)),
            ("flits per packet", q([i], z3.Implies(z3.And(0 <= i, i < n), t._num_flits_per_packet[i] >= 1)))]


def rr_inv(t):
    """the round-robin list holds every interface once, starting at interface 0"""
    n = t._num_axis_interfaces
    return [("round-robin list", And(t._axis_interface_priority.len == n, t._axis_interface_priority.all(lambda x, a: x == a - t._axis_interface_priority.lo)))]


# ---- slave: InputReady
def ready_invs(L):
    t = L.this()
    n = t._num_axis_interfaces
    pr = t._axis_interface_priority
    out = [("list length", pr.len == n), ("list entries", pr.all(lambda x, a: z3.And(x >= 0, x < n))),
           ("shape", t._tready_values.len == n)]
    blocked = lambda x: Or(t._injection_afifo_full.cur, Not(t.axis_interfaces[x].tvalid.cur))
    rot = lambda k: pr.all(lambda x, a: x == z3.If(a - pr.lo + k < n, a - pr.lo + k, a - pr.lo + k - n))
    out.append(("rotated by the front", And(0 <= pr[0], pr[0] < n, rot(pr[0]))))
    for nm, e, v in L.counters():
        out.append(("cleared below %s" % nm, q([i], z3.Implies(z3.And(0 <= i, i < v), z3.Not(t._tready_values[i])))))
        out.append(("written below %s" % nm, q([i], z3.Implies(z3.And(0 <= i, i < v), t.axis_interfaces[i].tready.nxt == z3.And(z3.Not(t._input_axis_transactions_afifo_full.cur), t._tready_values[i])))))
        out.append(("rotated by %s" % nm, And(v <= n, rot(v), Or(v == n, pr[0] == v))))
        out.append(("none valid below %s" % nm, q([i], z3.Implies(z3.And(0 <= i, i < v), blocked(i)))))
    out.append(("none ready", q([i], z3.Implies(z3.And(0 <= i, i < n), z3.Not(t._tready_values[i])))))
    out.append(("one ready, or none can be", z3.Or(z3.Exists([j], z3.And(0 <= j, j < n, t._tready_values[j])), q([i], z3.Implies(z3.And(0 <= i, i < n), blocked(i))))))
    return out


def ready_post(c):
    t, o = c.this, c.old
    n = o._num_axis_interfaces
    rdy = lambda x: t.axis_interfaces[x].tready.nxt
    val = lambda x: o.axis_interfaces[x].tvalid.cur
    inr = lambda x: z3.And(0 <= x, x < n)
    room = And(Not(o._input_axis_transactions_afifo_full.cur), Not(o._injection_afifo_full.cur))
    return [("ready only for a valid interface while both FIFOs have room", q([i], z3.Implies(z3.And(inr(i), rdy(i)), z3.And(val(i), room)))),
            ("at most one interface is ready", q([i, j], z3.Implies(z3.And(inr(i), inr(j), rdy(i), rdy(j)), i == j))),
            ("some valid interface is ready when there is room", q([i], z3.Implies(z3.And(inr(i), val(i), room), z3.Exists([j], z3.And(inr(j), rdy(j))))))]


# ---- slave: InputInterface
def accept_post(c):
    t, o = c.this, c.old
    n = o._num_axis_interfaces
    F, G = t._input_axis_transactions_afifo, o._input_axis_transactions_afifo
    hs = lambda x: z3.And(0 <= x, x < n, o.axis_interfaces[x].tready.cur, o.axis_interfaces[x].tvalid.cur)
    last = F[G.len]
    x = last.transaction_interface
    p = o.axis_interfaces[x]
    some = z3.Exists([i], hs(i))
    return [("one transaction is stored exactly when a handshake happens", And(Implies(F.len != G.len, F.len == G.len + 1), (F.len == G.len + 1) == some)),
            ("stored transactions untouched", fifo_kept(F, G)),
            ("the stored transaction is the handshaking interface's", Implies(F.len == G.len + 1, hs(x))),
            ("data, last, user, destination and id are stored unchanged", Implies(F.len == G.len + 1, And(last.tdata == p.tdata.cur, last.tlast == p.tlast.cur, last.tuser == p.tuser.cur, last.tdest == p.tdest.cur, last.tid == p.tid.cur))),
            ("type of the interface", Implies(F.len == G.len + 1, last.transaction_type == o._interface_types[x])),
            ("full flag", t._input_axis_transactions_afifo_full.nxt == (F.len >= o._input_axis_transactions_afifo_depth))]


def accept_invs(L):
    t = L.this()
    out = []
    for nm, e, v in L.counters():
        out.append(("no handshake below %s" % nm, q([i], z3.Implies(z3.And(0 <= i, i < v), Not(And(t.axis_interfaces[i].tready.cur, t.axis_interfaces[i].tvalid.cur))))))
    return out


# ---- slave: InputPacketization
def pk_pre(w):
    def f(c):
        t = c.this
        F = t._input_axis_transactions_afifo
        n = t._num_axis_interfaces
        N = t._num_flits_per_packet
        return slave_inv(t) + pool(c) + [
            ("transactions name an interface", q([i], z3.Implies(z3.And(0 <= i, i < F.len), And(F[i].transaction_interface >= 0, F[i].transaction_interface < n)))),
            ("packets fit", q([i], z3.Implies(z3.And(0 <= i, i < n), And(N[i] >= 1, N[i] <= w.n)))),
            ("cycle", And(0 <= t._packetization_cycle.cur, Implies(F.len > 0, t._packetization_cycle.cur < N[F[0].transaction_interface]))),
            ("signals settled", t._packetization_cycle.nxt == t._packetization_cycle.cur),
            ("depth", t._injection_afifo_depth >= 1)]
    return f


def vcof(ty, enum):
    r = cfg("write_reply_begin_vc")
    for k, s in (("READ_REPLY", "read_reply_begin_vc"), ("WRITE_DATA", "write_data_begin_vc"), ("WRITE_REQUEST", "write_request_begin_vc"), ("READ_REQUEST", "read_request_begin_vc")):
        r = z3.If(ty == enum(k), cfg(s), r)
    return r


def pk_post(w):
    def f(c):
        t, o = c.this, c.old
        F, G = t._injection_afifo, o._injection_afifo
        T, U = t._input_axis_transactions_afifo, o._input_axis_transactions_afifo
        go = z3.And(U.len > 0, G.len < o._injection_afifo_depth)
        tr = U[0]
        k = o._packetization_cycle.cur
        n = o._num_flits_per_packet[tr.transaction_interface]
        fl = F[G.len]
        pay = rawbv(c, fl._payload, w.W).val
        pk = packet(w, tr)
        # the reserved bits beyond the packet are never read back
        tail = k == n - 1
        E = lambda x: c.eng.prog.enum(x)
        return [("one flit is queued iff a transaction is pending and the FIFO has room", F.len == z3.If(go, G.len + 1, G.len)),
                ("queued flits untouched", fifo_kept(F, G)),
                ("first flit of a packet is the head", Implies(go, fl._head == (k == 0))),
                ("last flit of a packet is the tail", Implies(go, fl._tail == tail)),
                ("type, destination and destination interface are the transaction's", Implies(go, And(fl._type == tr.transaction_type, fl._dest == tr.tdest, fl._dest_interface == z3.Extract(w.DI - 1, 0, tr.tid)))),
                ("virtual channel of the transaction type", Implies(go, fl._vc_id == z3.Int2BV(vcof(tr.transaction_type, E), w.VC))),
                ("the flit carries its slice of the packet", Implies(go, pay == chunk_sym(w, pk, k))),
                ("next flit number", t._packetization_cycle.nxt == z3.If(go, z3.If(tail, I(0), k + 1), k)),
                ("the transaction leaves the FIFO with its tail flit only", z3.If(z3.And(go, tail), fifo_popped(T, U), fifo_same(T, U))),
                ("full flag", t._injection_afifo_full.nxt == (F.len >= o._injection_afifo_depth)),
                ] + [("inv: " + l, g) for l, g in pool(c)]
    return f


def slice_contract(w):
    def ens(c):
        f = c.arg(0, c.post)
        return [("slice", rawbv(c, f._payload, w.W).val == chunk_sym(w, c.arg(1), c.arg(2)))]
    def mod(c):
        f = c.arg(0)
        rawbv(c, f._payload, w.W)
        return [Path("heap:raw:sc_dt::sc_bv<%d>" % w.W, (("h", f._payload),))]
    return Contract("set_flit_payload", requires=lambda c: [("flit number within the packet", And(0 <= c.arg(2), c.arg(2) < -(-c.arg(1).size() // w.W))), ("payload", c.arg(0)._payload >= 1)], ensures=ens, modifies=mod)


def slice_units(w, width, name):
    out = []
    params = ("sc_flit&", "sc_dt::sc_bv<%d>&" % width, "int")
    for k in range(-(-width // w.W)):
        def setup(eng, st, c, k=k):
            a = list(c.args)
            a[2] = I(k)
            return a
        out.append(Unit("set_flit_payload<%s>(flit %d)" % (name, k), "set_flit_payload", params=params, setup=setup, requires=lambda c: [("payload", c.arg(0)._payload >= 1)],
                        ensures=lambda c, k=k: [("flit %d carries bits [%d, %d) zero-extended" % (k, k * w.W, min(width, (k + 1) * w.W)), rawbv(c, c.arg(0, c.post)._payload, w.W).val == chunk(w, c.arg(1), k)),
                                                ("other fields untouched", eqview(c.arg(0, c.post), c.arg(0)))]))
    return out


# ---- slave: InputInjection
FLIT = "Flit"


def inj_setup(eng, st, c):
    ghost(st, "WriteFlit", [z3.IntSort(), z3.IntSort()])
    ghost(st, "TakeBuffer", [z3.IntSort()])
    ghost(st, "SendingFlit", [z3.IntSort()])
    ghost(st, "ProcessCredit", [z3.IntSort()])
    st.store["rd:credit"] = st.store["rd:ejected"] = I(0)


FULL = z3.Function("downstream_full", z3.IntSort(), z3.BoolSort())
AVAIL = z3.Function("downstream_vc_free", z3.IntSort(), z3.BoolSort())


def read_or_null(name):
    def f(eng, st, fr, n, obj, args):
        r = z3.Int(fname(name))
        st.assume(And(r >= 0, r < st.nextref))
        st.store["rd:" + name] = r
        return r
    return f


NOC = {"Network::WriteFlit": event("WriteFlit"), "BufferState::TakeBuffer": event("TakeBuffer"), "BufferState::SendingFlit": event("SendingFlit"),
       "BufferState::ProcessCredit": event("ProcessCredit"), "BufferState::IsFullFor": lambda eng, st, fr, n, obj, args: FULL(eng.toint(eng.rv(args[0], st, fr))),
       "BufferState::IsAvailableFor": lambda eng, st, fr, n, obj, args: AVAIL(eng.toint(eng.rv(args[0], st, fr))),
       "Network::ReadCredit": read_or_null("credit"), "Network::ReadFlit": read_or_null("ejected"), "Credit::Free": nop,
       "Network::GetInject": freshint("inject"), "FlitChannel::GetSink": freshint("sink"), "Channel::GetSink": freshint("sink"), "indirect:_routing_func": nop}


def inj_pre(w):
    def f(c):
        t = c.this
        return slave_inv(t) + pool(c) + [("free flits", c.g("Flit::_free").len == 0), ("no lookahead", z3.Not(t._lookahead_routing)), ("pointers", And(t._noc >= 1, t._buffer_state >= 1)), ("portal is a node", And(t._portal_id >= 0, t._portal_id < 2 ** w.DEST)),
            ("payload", And(t._to_be_injected_flit._payload >= 1, t._to_be_injected_flit._payload < c.pre.nextref)), ("payloads", q([i], z3.Implies(z3.And(0 <= i, i < t._injection_afifo.len), And(t._injection_afifo[i]._payload >= 1, t._injection_afifo[i]._payload < c.pre.nextref))))]
    return f


def inj_post(w):
    def f(c):
        t, o = c.this, c.old
        F, G = t._injection_afifo, o._injection_afifo
        had = o._injection_flit_ready
        pending = z3.Or(had, G.len > 0)
        cur = lambda g: z3.If(had, getattr(o._to_be_injected_flit, g), getattr(G[0], g))
        vc = bv2i(cur("_vc_id"))
        head = cur("_head")
        go = z3.And(pending, z3.Not(FULL(vc)), z3.Or(z3.Not(head), z3.Not(o._wait_for_tail_credit), AVAIL(vc)))
        wr, tk, sn, cr = ev(c, "WriteFlit"), ev(c, "TakeBuffer"), ev(c, "SendingFlit"), ev(c, "ProcessCredit")
        fl = c.obj("Flit", wr.a0)
        d = cur("_dest")
        Fd = w.F
        loc, rem, rad = (bv2i(z3.Extract((k + 1) * Fd - 1, k * Fd, d)) for k in range(3))
        return [("a flit enters the network iff one is pending and the downstream buffer can take it", wr.n == z3.If(go, I(1), I(0))),
                ("it enters at this node", Implies(go, And(wr.a1 == o._node_id, fl.src == o._node_id))),
                ("a popped flit is either sent or kept for the next cycle", t._injection_flit_ready == z3.And(pending, z3.Not(go))),
                ("the FIFO loses its front only when the staging register is free", z3.If(z3.And(z3.Not(had), G.len > 0), fifo_popped(F, G), fifo_same(F, G))),
                ("a waiting flit is kept unchanged", Implies(And(pending, Not(go)), And(*[getattr(t._to_be_injected_flit, g) == cur(g) for g in ("_head", "_tail", "_type", "_vc_id", "_dest", "_dest_interface", "_packet_id")]))),
                ("head, tail, type and virtual channel are the flit's", Implies(go, And(fl.head == head, fl.tail == cur("_tail"), fl.type == cur("_type"), fl.vc == vc))),
                ("local destination node, or the portal for another RAD", Implies(go, fl.dest == z3.If(rad == o._rad_id, loc, o._portal_id))),
                ("remote node and RAD kept", Implies(go, And(fl.dest_remote == rem, fl.dest_rad == rad))),
                ("destination interface kept", Implies(go, fl.dest_interface == bv2i(cur("_dest_interface")))),
                ("payload kept", Implies(go, c.eng.read(c.post, Path("heap:raw:sc_dt::sc_bv<%d>" % w.W, (("h", fl.data),))) == z3.If(had, rawbv(c, o._to_be_injected_flit._payload, w.W, c.pre).val, rawbv(c, G[0]._payload, w.W, c.pre).val))),
                ("the downstream buffer is taken with every head flit", And(tk.n == z3.If(z3.And(go, head), I(1), I(0)), Implies(And(go, head), tk.a0 == vc))),
                ("every flit is charged to the downstream buffer", And(sn.n == wr.n, Implies(go, sn.a0 == wr.a0))),
                ("a returned credit is processed once", And(cr.n == z3.If(c.post.store["rd:credit"] != 0, I(1), I(0)), Implies(cr.n == 1, cr.a0 == c.post.store["rd:credit"])))]
    return f


# ---- master: OutputEjection
def ej_pre(w):
    def f(c):
        t = c.this
        n = t._num_vcs
        fl = c.obj("Flit", t._ejected_booksim_flit)
        return pool(c) + [("virtual channels", And(n >= 1, t._ejection_afifos.len == n, t._ejection_afifo_push_counter.len == n, t._ejection_afifo_pop_counter.len == n)),
                          ("pointers", t._noc >= 1), ("signals settled", q([i], t._ejection_afifo_push_counter[i].nxt == t._ejection_afifo_push_counter[i].cur)),
                          ("lens", q([i], t._ejection_afifos[i].len >= 0)),
                          ("flits of this network", q([i], z3.Implies(i >= 1, And(c.obj("Flit", i).vc >= 0, c.obj("Flit", i).vc < n, c.obj("Flit", i).data >= 1, c.obj("Flit", i).data < c.pre.nextref))))]
    return f


def fitbv(x, n): return z3.Int2BV(x, n)


def ej_post(w):
    def f(c):
        t, o = c.this, c.old
        n = o._num_vcs
        rd = c.post.store.get("rd:ejected", I(0))
        held = o._ejected_booksim_flit
        ref = z3.If(held != 0, held, rd)
        fl = c.oobj("Flit", ref)
        vc = fl.vc
        G, F = o._ejection_afifos[vc], t._ejection_afifos[vc]
        go = z3.And(ref != 0, G.len < o._ejection_afifo_depth)
        x = F[G.len]
        dest = z3.Concat(fitbv(fl.dest_rad, w.F), fitbv(fl.dest_remote, w.F), fitbv(fl.dest, w.F))
        return [("the flit is stored in the FIFO of its virtual channel iff there is room", F.len == z3.If(go, G.len + 1, G.len)),
                ("stored flits untouched", Implies(ref != 0, fifo_kept(F, G))),
                ("other FIFOs untouched", q([j], z3.Implies(z3.And(0 <= j, j < n, z3.Or(j != vc, z3.Not(go))), And(t._ejection_afifos[j].len == o._ejection_afifos[j].len, t._ejection_afifos[j].lo == o._ejection_afifos[j].lo)))),
                ("a flit that does not fit is kept for the next cycle", z3.If(go, t._ejected_booksim_flit == 0, t._ejected_booksim_flit == ref)),
                ("head, tail, type, virtual channel and packet are the flit's", Implies(go, And(x._head == fl.head, x._tail == fl.tail, x._type == fl.type, x._vc_id == fitbv(vc, w.VC), x._packet_id == fitbv(fl.pid, w.PID)))),
                ("destination reassembled from local node, remote node and RAD", Implies(go, x._dest == dest)),
                ("destination interface kept", Implies(go, x._dest_interface == fitbv(fl.dest_interface, w.DI))),
                ("payload kept", Implies(go, rawbv(c, x._payload, w.W).val == rawbv(c, fl.data, w.W, c.pre).val)),
                ("complete packets counted", q([j], z3.Implies(z3.And(0 <= j, j < n), t._ejection_afifo_push_counter[j].nxt == o._ejection_afifo_push_counter[j].cur + z3.If(z3.And(go, fl.tail, j == vc), I(1), I(0)))))]
    return f


# ---- master: OutputDepacketization
def dp_pre(w):
    def f(c):
        t = c.this
        n = t._num_vcs
        E, O, P = t._ejection_afifos, t._output_afifos, t._ejection_afifo_priority
        push, pop = t._ejection_afifo_push_counter, t._ejection_afifo_pop_counter
        return pool(c) + [("virtual channels", And(n >= 1, E.len == n, push.len == n, pop.len == n)),
                          ("interfaces", And(t._num_axis_interfaces >= 1, O.len == t._num_axis_interfaces)),
                          ("priority list", And(P.len == n, P.all(lambda x, a: z3.And(x >= 0, x < n)))),
                          ("settled", And(q([i], And(push[i].nxt == push[i].cur, pop[i].nxt == pop[i].cur)), t._ejection_afifo_is_depacketizing.nxt == t._ejection_afifo_is_depacketizing.cur)),
                          ("lens", And(q([i], And(E[i].len >= 0, O[i].len >= 0)), t._constructed_packet._flits.len >= 0)),
                          ("complete packets are in the FIFO", q([i], z3.Implies(z3.And(0 <= i, i < n, push[i].cur > pop[i].cur), E[i].len > 0))),
                          ("destinations name an interface", q([i], z3.Implies(z3.And(0 <= i, i < n, E[i].len > 0), bv2i(E[i][0]._dest_interface) < O.len))),
                          ("a packet being assembled stays at the front with room in its output FIFO", Implies(t._ejection_afifo_is_depacketizing.cur, And(push[P[0]].cur > pop[P[0]].cur, O[bv2i(E[P[0]][0]._dest_interface)].len < t._output_afifo_depth))),
                          ("payloads", q([i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < E[i].len), And(E[i][j]._payload >= 1, E[i][j]._payload < c.pre.nextref)))),
                          ("credit queue", And(t._ejected_flits >= 1, c.oobj(w.EJ, t._ejected_flits).at(t._node_id).len >= 0))]
    return f


SEL = z3.Int("chosen_vc")


def dp_invs(L):
    t, o = L.this(), L.old_this
    n = t._num_vcs
    P = t._ejection_afifo_priority
    push, pop = t._ejection_afifo_push_counter, t._ejection_afifo_pop_counter
    out = [("priority list", And(P.len == n, P.all(lambda x, a: z3.And(x >= 0, x < n))))]
    E, O = t._ejection_afifos, t._output_afifos
    ints = [(nm, v) for nm, v in L.ints()]
    for nm, v in ints:
        out.append(("%s is the front" % nm, v == P[0]))
        for nm2, v2 in ints:
            if nm == nm2: continue
            out.append(("%s/%s destination" % (nm, nm2), z3.Implies(E[v].len > 0, v2 == bv2i(E[v][0]._dest_interface))))
            for nb, vb in L.bools(): out.append(("%s: %s has a packet for %s with room" % (nb, nm, nm2), z3.Implies(vb, And(push[v].cur > pop[v].cur, O[v2].len < t._output_afifo_depth))))
        out.append(("%s range" % nm, And(v >= 0, v < O.len)))
        out.append(("%s range vc" % nm, And(v >= 0, v < n)))
    for nm, e, v in L.counters():
        pass
    return out


def dp_post(w):
    def f(c):
        t, o = c.this, c.old
        n = o._num_vcs
        E, E0, O, O0 = t._ejection_afifos, o._ejection_afifos, t._output_afifos, o._output_afifos
        push, pop = o._ejection_afifo_push_counter, o._ejection_afifo_pop_counter
        C, C0 = t._constructed_packet._flits, o._constructed_packet._flits
        took = lambda v: E[v].len != E0[v].len
        inr = lambda v: z3.And(0 <= v, v < n)
        x = lambda v: E0[v][0]
        dst = lambda v: bv2i(x(v)._dest_interface)
        anyt = z3.Exists([j], z3.And(inr(j), took(j)))
        K, K0 = c.obj(w.EJ, o._ejected_flits).at(o._node_id), c.oobj(w.EJ, o._ejected_flits).at(o._node_id)
        depk, depk2 = o._ejection_afifo_is_depacketizing.cur, t._ejection_afifo_is_depacketizing.nxt
        flds = ("_head", "_tail", "_type", "_vc_id", "_dest", "_dest_interface", "_packet_id", "_sim_transaction_id")
        same = lambda a, b: And(*[getattr(a, g) == getattr(b, g) for g in flds], rawbv(c, a._payload, w.W).val == rawbv(c, b._payload, w.W, c.pre).val)
        return [("at most one flit leaves, and only the front of its FIFO", q([j], z3.Implies(z3.And(inr(j), took(j)), And(E[j].len == E0[j].len - 1, E[j].lo == E0[j].lo + 1)))),
                ("flits leave one FIFO at a time", q([i, j], z3.Implies(z3.And(inr(i), inr(j), took(i), took(j)), i == j))),
                ("only complete packets are opened", q([j], z3.Implies(z3.And(inr(j), took(j)), push[j].cur > pop[j].cur))),
                ("a packet being assembled is not interrupted", Implies(depk, And(took(o._ejection_afifo_priority[0])))),
                ("a body flit is appended to the packet under assembly", q([j], z3.Implies(z3.And(inr(j), took(j), z3.Not(x(j)._tail)), And(C.len == C0.len + 1, same(C[C0.len], x(j)), depk2, t._ejection_afifo_priority[0] == j)))),
                ("a tail flit delivers the packet to the output FIFO of its destination interface", q([j], z3.Implies(z3.And(inr(j), took(j), x(j)._tail), And(O[dst(j)].len == O0[dst(j)].len + 1, O[dst(j)][O0[dst(j)].len]._flits.len == C0.len + 1, same(O[dst(j)][O0[dst(j)].len]._flits[C0.len], x(j)), C.len == 0, z3.Not(depk2))))),
                ("flits already assembled are delivered unchanged", q([i, j], z3.Implies(z3.And(inr(j), took(j), x(j)._tail, 0 <= i, i < C0.len), eqview(O[dst(j)][O0[dst(j)].len]._flits[i], C0[i])))),
                ("flits already assembled are kept", q([i, j], z3.Implies(z3.And(inr(j), took(j), z3.Not(x(j)._tail), 0 <= i, i < C0.len), eqview(C[i], C0[i])))),
                ("no other output FIFO changes", q([i], z3.Implies(z3.And(0 <= i, i < o._num_axis_interfaces, O[i].len != O0[i].len), z3.Exists([j], z3.And(inr(j), took(j), x(j)._tail, dst(j) == i))))),
                ("nothing is assembled or delivered without a flit", Implies(Not(anyt), And(C.len == C0.len, q([i], z3.Implies(z3.And(0 <= i, i < o._num_axis_interfaces), O[i].len == O0[i].len))))),
                ("delivered packets counted", q([j], z3.Implies(inr(j), t._ejection_afifo_pop_counter[j].nxt == pop[j].cur + z3.If(z3.And(took(j), x(j)._tail), I(1), I(0))))),
                ("a credit is queued for the virtual channel of every flit that leaves", q([j], z3.Implies(z3.And(inr(j), took(j)), And(K.len == K0.len + 1, K[K0.len] == j)))),
                ("no credit without a flit", Implies(Not(anyt), K.len == K0.len)),
                ("credits already queued are kept, in order", q([i], z3.Implies(z3.And(0 <= i, i < K0.len), K[i] == K0[i]))),
                ("credits of other nodes untouched", q([i], z3.Implies(i != o._node_id, And(c.obj(w.EJ, o._ejected_flits).at(i).len == c.oobj(w.EJ, o._ejected_flits).at(i).len, c.obj(w.EJ, o._ejected_flits).at(i).lo == c.oobj(w.EJ, o._ejected_flits).at(i).lo))))]
    return f




# ---- master: write_sc_packet_to_axis_output, OutputInterface
def wr_units(w):
    out = []
    for nfl in range(1, w.n + 1):
        def setup(eng, st, c, nfl=nfl):
            v = st.store["arg:packet"]
            s = v.f["_flits"]
            st.store["arg:packet"] = Rec(v.name, dict(v.f, _flits=Seq(I(0), I(nfl), s.elem)))
        def req(c, nfl=nfl): return [("payloads", And(*[c.arg(0)._flits[k]._payload >= 1 for k in range(nfl)]))]
        def ens(c, nfl=nfl):
            fl = c.arg(0)._flits
            p = c.arg(1, c.post)
            bits = concat([rawbv(c, fl[k]._payload, w.W, c.pre).val for k in reversed(range(nfl))])
            if bits.size() > w.P: bits = z3.Extract(w.P - 1, 0, bits)
            have = bits.size()
            out = [("valid", p.tvalid.nxt == TRUE), ("last is bit 0 of the packet", p.tlast.nxt == (z3.Extract(0, 0, bits) == 1)),
                   ("user bits", z3.Extract(min(w.user, have - 1) - 1, 0, p.tuser.nxt) == z3.Extract(min(w.user, have - 1), 1, bits)),
                   ("id is the destination interface", p.tid.nxt == tobv(fl[0]._dest_interface, w.tid)),
                   ("destination", p.tdest.nxt == fl[0]._dest)]
            if have > w.user + 1: out.append(("data bits", z3.Extract(have - w.user - 2, 0, p.tdata.nxt) == z3.Extract(have - 1, w.user + 1, bits)))
            return out
        out.append(Unit("write_sc_packet_to_axis_output(%d flits)" % nfl, "axis_master_adapter::write_sc_packet_to_axis_output", setup=setup, requires=req, ensures=ens, models=BASE))
    return out


jf = z3.Int("j_flit")


def payloads(x): return z3.ForAll([jf], z3.Implies(z3.And(x._flits.val.lo <= jf, jf < x._flits.val.lo + x._flits.len), x._flits.abs(jf)._payload >= 1))


def oi_pre(w):
    def f(c):
        t = c.this
        n = t._num_axis_interfaces
        O = t._output_afifos
        return [("interfaces", And(n >= 1, O.len == n, t.axis_interfaces.len == n, t._output_chunk.len == n, t._num_flits.len == n)),
                ("flits", q([i], z3.Implies(z3.And(0 <= i, i < n), And(t._num_flits[i] >= 1, t._output_chunk[i] >= 0, O[i].len >= 0)))),
                ("packets have flits", q([i], z3.Implies(z3.And(0 <= i, i < n), O[i].all(lambda x, a: And(x._flits.len >= 1, x._flits.len <= w.n))))),
                ("flits have payloads", q([i], z3.Implies(z3.And(0 <= i, i < n), O[i].all(lambda x, a: payloads(x))))),
                ("valid means a packet is waiting", q([i], z3.Implies(z3.And(0 <= i, i < n, t.axis_interfaces[i].tvalid.cur), O[i].len > 0))),
                ("settled", q([i], t.axis_interfaces[i].tvalid.nxt == t.axis_interfaces[i].tvalid.cur))]
    return f


def oi_facts(t, o, n, upto):
    O, O0 = t._output_afifos, o._output_afifos
    hs = lambda x: z3.And(o.axis_interfaces[x].tvalid.cur, o.axis_interfaces[x].tready.cur)
    single = lambda x: O0[x][0]._flits.len <= o._num_flits[x]
    inr = lambda x: z3.And(0 <= x, x < upto)
    fresh = lambda x: o._output_chunk[x] == 0
    return [("a packet leaves only on a handshake", q([i], z3.Implies(z3.And(inr(i), z3.Not(hs(i))), And(O[i].len == O0[i].len, O[i].lo == O0[i].lo)))),
            ("a packet that fits the interface leaves on its handshake", q([i], z3.Implies(z3.And(inr(i), hs(i), single(i), fresh(i)), And(O[i].len == O0[i].len - 1, O[i].lo == O0[i].lo + 1, t._output_chunk[i] == 0)))),
            ("valid is raised iff a packet is waiting", q([i], z3.Implies(inr(i), t.axis_interfaces[i].tvalid.nxt == (O[i].len > 0))))]


def oi_post(w): return lambda c: oi_facts(c.this, c.old, c.old._num_axis_interfaces, c.old._num_axis_interfaces)


def oi_invs(L):
    out = []
    t, o = L.this(), L.old_this
    n = t._num_axis_interfaces
    O, O0 = t._output_afifos, o._output_afifos
    for nm, e, v in L.counters():
        out += [("%s: %s" % (nm, l), g) for l, g in oi_facts(t, o, n, v)]
        out.append(("later interfaces untouched %s" % nm, q([i], z3.Implies(z3.And(v <= i, i < n), And(O[i].len == O0[i].len, O[i].lo == O0[i].lo, t._output_chunk[i] == o._output_chunk[i], t.axis_interfaces[i].tvalid.nxt == o.axis_interfaces[i].tvalid.nxt)))))
    out.append(("shape", And(O.len == O0.len, t._output_chunk.len == o._output_chunk.len, t.axis_interfaces.len == o.axis_interfaces.len)))
    out.append(("fifo contents untouched", q([i], And(O[i].len >= 0))))
    return out


def wr_contract(w): return Contract("axis_master_adapter::write_sc_packet_to_axis_output",
              requires=lambda c: [("flits of one packet", And(c.arg(0)._flits.len >= 1, c.arg(0)._flits.len <= w.n)), ("payloads", payloads(c.arg(0)))],
              modifies=lambda c: [c.argpath(1).fld(x).fld("nxt") for x in ("tvalid", "tdata", "tlast", "tid", "tdest", "tuser", "tstrb", "tkeep")],
              ensures=lambda c: [("valid", c.arg(1, c.post).tvalid.nxt == TRUE)])


# ---- flits are copied in full
def copy_ens(w):
    def f(c):
        t, s = c.this, c.arg(0)
        flds = ("_head", "_tail", "_type", "_vc_id", "_dest", "_dest_interface", "_packet_id", "_sim_transaction_id")
        return [("every field copied", And(*[getattr(t, g) == getattr(s, g) for g in flds])),
                ("payload copied, not shared", And(rawbv(c, t._payload, w.W).val == rawbv(c, s._payload, w.W, c.pre).val, t._payload != s._payload)),
                ("source kept", rawbv(c, s._payload, w.W).val == rawbv(c, s._payload, w.W, c.pre).val)]
    return f


# ---- radsim_noc::Tick: returning queued credits
TICK_SRCS = [SIM + "/noc/radsim_noc.cpp", BOOK + "/credit.cpp"]


def tick_setup(eng, st, c):
    A = z3.ArraySort(z3.IntSort(), z3.BoolSort())
    st.store["ev:tick"] = Rec("ev", {"cnt": z3.K(z3.IntSort(), I(0)), "vcs": z3.Const("tick_vcs", z3.ArraySort(z3.IntSort(), A)), "order": I(0)})


def write_credit(eng, st, fr, n, obj, args):
    cr, node = eng.rv(args[0], st, fr), eng.rv(args[1], st, fr)
    v = st.store["ev:tick"]
    dom = View(eng, st, Path("heap:Credit", (("h", cr),))).vc.dom
    st.store["ev:tick"] = Rec("ev", dict(v.f, cnt=z3.Store(v.f["cnt"], node, z3.Select(v.f["cnt"], node) + 1), vcs=z3.Store(v.f["vcs"], node, dom)))


def stage(k):
    def f(eng, st, fr, n, obj, args):
        v = st.store["ev:tick"]
        eng.oblige(st, v.f["order"] == k, "pre", n, "the network phases run once each, in order: phase %d" % k, fr)
        st.store["ev:tick"] = Rec("ev", dict(v.f, order=I(k + 1)))
    return f


TICKM = {"Network::ReadInputs": stage(0), "TimedModule::ReadInputs": stage(0), "Network::Evaluate": stage(1), "TimedModule::Evaluate": stage(1), "Network::WriteOutputs": stage(2), "TimedModule::WriteOutputs": stage(2), "Network::Trace": nop, "Network::WriteCredit": write_credit, "GetSimTime": freshint("time")}


def tick_facts(t, o, g, upto, EJ, obj, oobj):
    Q, Q0 = obj(EJ, t._ejected_flits), oobj(EJ, o._ejected_flits)
    inr = lambda x: z3.And(0 <= x, x < upto)
    has = lambda x: Q0.at(x).len > 0
    return [("a node with queued credits returns exactly one, the others none", q([i], z3.Implies(inr(i), z3.Select(g.cnt, i) == z3.If(has(i), I(1), I(0))))),
            ("it is the credit queued first", q([i], z3.Implies(z3.And(inr(i), has(i)), q([j], z3.Select(z3.Select(g.vcs, i), j) == (j == Q0.at(i)[0]))))),
            ("the returned credit leaves the queue, the others stay in order", q([i], z3.Implies(inr(i), z3.And(Q.at(i).len == z3.If(has(i), Q0.at(i).len - 1, Q0.at(i).len), Q.at(i).lo == z3.If(has(i), Q0.at(i).lo + 1, Q0.at(i).lo), q([j], Q.at(i).abs(j) == Q0.at(i).abs(j)))))),
            ("other nodes untouched", q([i], z3.Implies(z3.Not(inr(i)), z3.And(z3.Select(g.cnt, i) == 0, Q.at(i).len == Q0.at(i).len, Q.at(i).lo == Q0.at(i).lo, q([j], Q.at(i)[j] == Q0.at(i)[j])))))]


def tick_units(p):
    EJ = Widths.fields(p, "radsim_noc")["_ejected_flits"].to

    def pre(c):
        return [("pointers", And(c.this._ejected_flits >= 1, c.this._booksim_noc >= 1, c.this._num_noc_nodes >= 0)), ("lens", q([i], c.obj(EJ, c.this._ejected_flits).at(i).len >= 0)), ("credit pool empty", c.g("Credit::_free").len == 0)]

    def invs(L):
        mk = lambda st: (lambda cls, ref: Ctx(L.eng, L.entry, L.st, L.fr.this, []).obj(cls, ref, st))
        g = View(L.eng, L.st, None, L.st.store["ev:tick"])
        out = [("phase", g.order == 1), ("pool", Ctx(L.eng, L.entry, L.st, None, []).g("Credit::_free").len == 0)]
        for nm, e, v in L.counters(): out += [("%s: %s" % (nm, l), x) for l, x in tick_facts(L.this(), L.old_this, g, v, EJ, mk(L.st), mk(L.entry))]
        return out

    def post(c):
        g = View(c.eng, c.post, None, c.post.store["ev:tick"])
        return tick_facts(c.this, c.old, g, c.old._num_noc_nodes, EJ, c.obj, c.oobj) + [("all phases ran", g.order == 3)]
    return [Unit("radsim_noc::Tick", "radsim_noc::Tick", kind="process", setup=tick_setup, requires=pre, ensures=post, invs=invs, models=dict(BASE, **TICKM))]


def src_ok(c): return pool(c) + [("payload", And(c.arg(0)._payload >= 1, c.arg(0)._payload < c.pre.nextref))]


def units(p):
    w = Widths(p)
    S, M = "axis_slave_adapter::", "axis_master_adapter::"
    packet_units = slice_units(w, w.P, "axis") + [
        Unit("sc_flit copy constructor", "sc_flit::sc_flit", params=("sc_flit&",), requires=src_ok, ensures=copy_ens(w), models=BASE),
        Unit("sc_flit assignment", "sc_flit::operator=", requires=src_ok, ensures=copy_ens(w), models=BASE),
        Unit("slave.InputInterface", S + "InputInterface", kind="process", requires=lambda c: slave_inv(c.this) + [("room", c.this._input_axis_transactions_afifo.len < c.this._input_axis_transactions_afifo_depth)], ensures=accept_post, invs=accept_invs, models=BASE),
        Unit("slave.InputPacketization", S + "InputPacketization", kind="process", requires=pk_pre(w), ensures=pk_post(w), models=BASE, contracts=[slice_contract(w)]),
        Unit("master.OutputDepacketization", M + "OutputDepacketization", kind="process", requires=dp_pre(w), ensures=dp_post(w), invs=dp_invs, models=BASE, timeout=12000),
        Unit("master.OutputInterface", M + "OutputInterface", kind="process", requires=oi_pre(w), ensures=oi_post(w), invs=oi_invs, models=BASE, contracts=[wr_contract(w)]),
    ] + wr_units(w)
    meta_units = [
        Unit("VCIDFromType", "VCIDFromType", ensures=lambda c: [("virtual channel of the type", c.ret == vcof(c.arg(0), lambda x: c.eng.prog.enum(x)))], models=BASE),
        Unit("slave.InputInjection", S + "InputInjection", kind="process", setup=inj_setup, requires=inj_pre(w), ensures=inj_post(w), models=dict(BASE, **NOC)),
        Unit("master.OutputEjection", M + "OutputEjection", kind="process", setup=inj_setup, requires=ej_pre(w), ensures=ej_post(w), models=dict(BASE, **NOC)),
    ]
    ready_units = [Unit("slave.InputReady", S + "InputReady", requires=lambda c: slave_inv(c.this) + rr_inv(c.this), ensures=lambda c: ready_post(c) + rr_inv(c.this), invs=ready_invs, models=BASE)]
    return packet_units, meta_units, ready_units


LIBS = ["-lsystemc", "-lpthread"]
HF = SIM_INC + ["-fno-access-control"]


def nocsys(name, args=(), quick=20, thorough=180, **defs):
    d = {} if "portal" in args else {"SINGLE_RAD": 1}
    d.update(defs)
    return Harness("ns_" + name, "nocsys.cpp", noc_sources, HF, LIBS, quick=quick, thorough=thorough, args=list(args), sanitize=False, defs=d)


ASSUME = ["machine integers of flit counters, FIFO sizes and node numbers do not overflow", "the flit and payload free lists are empty (Flit::Free / FreeFlit are never called by RAD-Sim)", "configuration values are uninterpreted (any value)",
          "ports and signals of one adapter are distinct objects; containers of sc_flit share payload pointers in the model, and the deep copy made by sc_flit's copy constructor and assignment is proved separately",
          "telemetry and logging calls are dropped", "class invariant assumed by the depacketizer: packets counted as complete are in the ejection FIFO (established by the OutputEjection contract)",
          "the network between injection and ejection ports is covered by P09-P12 contracts and, end to end, by the bounded harness only"]


PROPS = {
    "P01": {"groups": lambda: [{"name": "AXI-S packetization", "srcs": SRCS, "flags": FLAGS, "units": lambda p: units(p)[0]}] + [{"name": "AXI-S packetization (166-bit links)", "srcs": SRCS, "flags": header(dict(NOC_LINKS_PAYLOAD_WIDTH=166, NOC_LINKS_VCID_WIDTH=4)) + list(FLAGS), "units": lambda p: units(p)[0]}],
            "harness": lambda: [nocsys("default"), nocsys("w166", NOC_LINKS_PAYLOAD_WIDTH=166, NOC_LINKS_VCID_WIDTH=4), nocsys("w97", quick=8, NOC_LINKS_PAYLOAD_WIDTH=97)], "assumptions": ASSUME,
            "harness_note": "random systems (mesh/torus, sizes, clocks, FIFO depths, arbiters, allocators, buffer policies, back-pressure) run end to end on the compiled code, every transaction compared with what was sent; bounded, never counted as proved"},
    "P02": {"groups": [{"name": "AXI-S flit metadata", "srcs": SRCS, "flags": FLAGS, "units": lambda p: units(p)[1]}],
            "harness": lambda: [nocsys("portal", ["portal"]), nocsys("default"), nocsys("vc16", quick=10, NOC_LINKS_VCID_WIDTH=4)], "assumptions": ASSUME,
            "harness_note": "random single-RAD and multi-RAD systems run end to end; every ejected flit's virtual channel and every delivered destination is checked; bounded, never counted as proved"},
    "P03": {"groups": [{"name": "AXI-S adapters", "srcs": SRCS, "flags": FLAGS, "units": lambda p: [u for u in sum(units(p), []) if u.name.startswith(("slave.", "master."))]},
                       {"name": "NoC tick", "srcs": TICK_SRCS, "flags": FLAGS, "units": tick_units}],
            "harness": lambda: [nocsys("default"), nocsys("w166", NOC_LINKS_PAYLOAD_WIDTH=166, NOC_LINKS_VCID_WIDTH=4)], "assumptions": ASSUME,
            "harness_note": "random systems run end to end with a monitor of FIFO occupancy and ready signals, and a check that every buffer and credit is free once the network is empty; bounded, never counted as proved"},
}

if __name__ == "__main__":
    if sys.argv[1:2] == ["tick"]: p = load(TICK_SRCS, FLAGS); us = tick_units(p); del sys.argv[1]
    else:
        p = load(SRCS, FLAGS)
        us = sum(units(p), [])
    if len(sys.argv) > 1: us = [u for u in us if sys.argv[1] in u.name]
    for r in run_units(p, us, 8): show(r, len(sys.argv) > 2)
