// Random NoC systems built from the real RAD-Sim classes: traffic modules with AXI-S or AXI-MM ports, a random placement,
// random clocks and link/router parameters; a scoreboard compares every delivered transaction with what was sent.
#include <functional>
#include "h.hpp"
#include <design_context.hpp>
#include <radsim_config.hpp>
#include <radsim_noc.hpp>
#include <iq_router.hpp>
#include <buffer.hpp>
#include <systemc.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fstream>
RADSimConfig radsim_config;
std::ostream *gWatchOut;
SimLog sim_log;
SimTraceRecording sim_trace_probe;
using H::rnd; using H::flip; using std::string; using std::vector;
static bool AXIMM = false, PORTALMODE = false;
typedef sc_bv<AXIS_MAX_DATAW> D;
template <int W> sc_bv<W> rbits(int n = W) { sc_bv<W> b; b = 0; for (int i = 0; i < n && i < W; i++) b[i] = flip(); return b; }
template <class B> string hx(const B &b) { return b.to_string(SC_HEX_US); }
static long delivered = 0, sent = 0;
static int outstanding() { return sent - delivered; }
struct Cfg { int k, n; bool torus; int nocs, nodes, vcs_per_class, vcbuf, fifo; double noc_p; int obuf; vector<double> adp, modp; string rf; int dataw; } cfg;
static int slot[5] = {0, 1, 2, 3, 4};   // position of each transaction type's virtual channels
struct Ep { string name; int noc, node, mod; bool master; int dataw, type, id; int pv; bool local; };   // one AXI-S/AXI-MM port
static vector<Ep> eps;
struct Pk { D data; sc_bv<AXIS_USERW> user; bool last; sc_bv<AXIS_DESTW> dest; unsigned tid; };
static std::map<std::pair<int, int>, std::deque<Pk>> sb;   // (source port, destination port) -> packets in flight, in order
static RADSimDesignContext *ctx;
static int portal_ep = -1;
static bool sending = true;
static std::map<string, int> PID;

static vector<std::function<string()>> pending;   // what each module still offers to the NoC
struct Mod : public RADSimModule {
  sc_in<bool> rst;
  sc_vector<axis_master_port> am; sc_vector<axis_slave_port> as;
  vector<int> mi, si;       // endpoint numbers
  vector<Pk> cur; vector<bool> has; vector<int> curdst; vector<int> duty;
  SC_HAS_PROCESS(Mod);
  Mod(const sc_module_name &nm, RADSimDesignContext *c, vector<int> m, vector<int> s) : RADSimModule(nm, c), am("am", m.size()), as("as", s.size()), mi(m), si(s) {
    cur.resize(m.size()); has.resize(m.size()); curdst.resize(m.size()); duty.resize(m.size() + s.size());
    for (auto &x : duty) x = flip(30) ? 100 : rnd(10, 100);
    SC_CTHREAD(Tick, clk.pos()); reset_signal_is(rst, true);
    RegisterModuleInfo();
    pending.push_back([this] { string o; for (size_t i = 0; i < mi.size(); i++) if (has[i]) o += " " + eps[mi[i]].name; return o; });
  }
  void RegisterModuleInfo() {
    for (size_t i = 0; i < mi.size(); i++) RegisterAxisMasterPort(eps[mi[i]].name, &am[i], eps[mi[i]].dataw, eps[mi[i]].type);
    for (size_t i = 0; i < si.size(); i++) RegisterAxisSlavePort(eps[si[i]].name, &as[i], eps[si[i]].dataw, 0);
  }
  static int nextseq() { static int s = 0; return s++; }
  void Tick() {
    for (auto &p : am) p.Reset();
    for (auto &p : as) p.tready.write(false);
    for (size_t i = 0; i < mi.size(); i++) has[i] = false;
    wait();
    while (true) {
      for (size_t i = 0; i < mi.size(); i++) {
        Ep &e = eps[mi[i]];
        if (am[i].tvalid.read() && am[i].tready.read()) { sb[{e.id, curdst[i]}].push_back(cur[i]); sent++; has[i] = false; am[i].tvalid.write(false); }
        if (!has[i] && sending && flip(duty[i])) {
          vector<int> c; for (auto &x : eps) if (!x.master && x.noc == e.noc && x.id != portal_ep) c.push_back(x.id);
          if (portal_ep >= 0 && eps[portal_ep].noc == e.noc) { c.push_back(portal_ep); if (flip(20)) c = {portal_ep}; }
          if (c.empty()) continue;
          int d = c[rnd(0, c.size() - 1)];
          Pk p; p.data = rbits<AXIS_MAX_DATAW>(e.dataw); p.user = rbits<AXIS_USERW>();
          if (flip(10)) { bool one = flip(); p.data = 0; if (one) for (int b = 0; b < e.dataw; b++) p.data[b] = true; }
          p.user.range(7, 0) = e.id; p.user.range(23, 8) = nextseq(); p.last = flip();
          p.dest = rbits<AXIS_DESTW>(); DEST_LOCAL_NODE(p.dest) = (int)ctx->GetPortDestinationID(eps[d].name); DEST_RAD(p.dest) = 0;
          if (d == portal_ep) { int lim = 1 << AXIS_DEST_FIELDW; DEST_RAD(p.dest) = (int)rnd(1, lim - 1); DEST_LOCAL_NODE(p.dest) = (int)rnd(0, cfg.nodes - 1); }
          p.tid = ctx->GetPortInterfaceID(eps[d].name);
          cur[i] = p; curdst[i] = d; has[i] = true;
          if (d == portal_ep) DEST_LOCAL_NODE(cur[i].dest) = (int)eps[d].node;   // the portal's node takes the place of the local node; RAD and remote node stay
          am[i].tvalid.write(true); am[i].tdata.write(p.data); am[i].tuser.write(p.user); am[i].tlast.write(p.last); am[i].tdest.write(p.dest); am[i].tid.write(p.tid);
        }
      }
      for (size_t i = 0; i < si.size(); i++) {
        Ep &e = eps[si[i]];
        if (as[i].tvalid.read() && as[i].tready.read()) {
          sc_bv<AXIS_USERW> u = as[i].tuser.read();
          int src = u.range(7, 0).to_uint();
          if (src >= (int)eps.size() || sb[{src, e.id}].empty()) {
            string others; for (auto &x : sb) if (!x.second.empty()) others += " " + std::to_string(x.first.first) + "->" + std::to_string(x.first.second) + ":" + std::to_string(x.second.size()) + "(next user " + hx(x.second.front().user) + ")";
            H::fail("port %s received a packet nobody sent to it (user %s claims source port %d); in flight:%s", e.name.c_str(), hx(u).c_str(), src, others.c_str());
          }
          auto &Q = sb[{src, e.id}];
          size_t at = 0;   // several virtual channels of one type may overtake each other; one virtual channel keeps the order
          if (cfg.vcs_per_class > 1) for (size_t k = 0; k < Q.size(); k++) if (Q[k].user == u) { at = k; break; }
          Pk p = Q[at]; Q.erase(Q.begin() + at); delivered++;
          string w = eps[src].name + " -> " + e.name;
          CHECK(u == p.user, "%s: user bits %s, sent %s (lost, duplicated, reordered or corrupted packet)", w.c_str(), hx(u).c_str(), hx(p.user).c_str());
          CHECK(as[i].tdata.read() == p.data, "%s: data %s, sent %s", w.c_str(), hx(as[i].tdata.read()).c_str(), hx(p.data).c_str());
          CHECK(as[i].tlast.read() == p.last, "%s: last %d, sent %d", w.c_str(), (int)as[i].tlast.read(), (int)p.last);
          CHECK(as[i].tdest.read() == p.dest, "%s: destination %s, sent %s", w.c_str(), hx(as[i].tdest.read()).c_str(), hx(p.dest).c_str());
          CHECK(as[i].tid.read().to_uint() == p.tid, "%s: id %u, sent %u", w.c_str(), as[i].tid.read().to_uint(), p.tid);
        }
        as[i].tready.write(!sending ? flip(duty[mi.size() + i]) || flip(50) : flip(duty[mi.size() + i]));
      }
      wait();
    }
  }
};

// ---- AXI-MM
typedef sc_bv<AXI4_MAX_DATAW> MD; typedef sc_bv<AXI4_USERW> MU;
struct Msg { int ch; sc_bv<AXI4_IDW> id; sc_bv<AXI4_ADDRW> addr; sc_bv<AXI4_LENW> len; sc_bv<AXI4_SIZEW> size; sc_bv<AXI4_BURSTW> burst; MU user; MD data; sc_bv<AXI4_RESPW> resp; bool last; };
static std::map<std::tuple<int, int, int>, std::deque<Msg>> mb;   // (from, to, channel)
static const char *CH[5] = {"AR", "AW", "W", "R", "B"};
static int nodeep(int node, bool master) { for (auto &e : eps) if (e.node == node && e.master == master) return e.id; return -1; }
static MU mkuser(const Ep &e) { static unsigned seq = 0; MU u = rbits<AXI4_USERW>(); { string nm = e.name; sc_bv<64> ba = ctx->GetPortBaseAddress(nm); u.range(AXI4_USERW - 1, AXI4_USERW - AXI4_NODE_ADDRW) = ba.range(63, 64 - AXI4_NODE_ADDRW); } u.range(7, 0) = e.id; u.range(31, 8) = seq++; return u; }
static void got(const char *who, int from, int to, const Msg &m) {
  CHECK(from >= 0 && !mb[std::make_tuple(from, to, m.ch)].empty(), "%s received a %s message nobody sent to it (user %s)", who, CH[m.ch], hx(m.user).c_str());
  auto &q = mb[std::make_tuple(from, to, m.ch)];
  Msg s = q.front(); q.pop_front(); delivered++;
  string w = string(CH[m.ch]) + " " + eps[from].name + " -> " + eps[to].name;
  CHECK(m.user == s.user, "%s: user %s, sent %s (lost, duplicated, reordered or corrupted)", w.c_str(), hx(m.user).c_str(), hx(s.user).c_str());
  CHECK(m.id == s.id, "%s: id %s, sent %s", w.c_str(), hx(m.id).c_str(), hx(s.id).c_str());
  if (m.ch < 2) {
    CHECK(m.addr == s.addr, "%s: address %s, sent %s", w.c_str(), hx(m.addr).c_str(), hx(s.addr).c_str());
    CHECK(m.len == s.len && m.size == s.size && m.burst == s.burst, "%s: len/size/burst %u/%u/%u, sent %u/%u/%u", w.c_str(), m.len.to_uint(), m.size.to_uint(), m.burst.to_uint(), s.len.to_uint(), s.size.to_uint(), s.burst.to_uint());
  } else {
    if (m.ch != 4) CHECK(m.data == s.data && m.last == s.last, "%s: data %s last %d, sent %s last %d", w.c_str(), hx(m.data).c_str(), (int)m.last, hx(s.data).c_str(), (int)s.last);
    if (m.ch != 2) CHECK(m.resp == s.resp, "%s: resp %u, sent %u", w.c_str(), m.resp.to_uint(), s.resp.to_uint());
  }
}
struct MMaster : public RADSimModule {
  sc_in<bool> rst; aximm_master_port p; int id; int duty, rduty, wleft = 0, wtarget = 0; bool arh = false, awh = false, wh = false; Msg ar, aw, w; int art, awt;
  SC_HAS_PROCESS(MMaster);
  MMaster(const sc_module_name &nm, RADSimDesignContext *c, int id_) : RADSimModule(nm, c), p("p"), id(id_) { duty = flip(30) ? 100 : rnd(20, 100); rduty = flip(30) ? 100 : rnd(30, 100); SC_CTHREAD(Tick, clk.pos()); reset_signal_is(rst, true); RegisterModuleInfo(); pending.push_back([this] { string n = " " + eps[id].name; return (arh ? n + " AR" : "") + (awh ? n + " AW" : "") + (wh || wleft > 0 ? n + " W" : ""); }); }
  void RegisterModuleInfo() { RegisterAximmMasterPort(eps[id].name, &p, eps[id].dataw); }
  Msg mkreq(int ch, int &t) {
    vector<int> c; for (auto &x : eps) if (!x.master) c.push_back(x.id);
    t = c[rnd(0, c.size() - 1)];
    Msg m; m.ch = ch; m.id = rbits<AXI4_IDW>(); m.addr = rbits<AXI4_ADDRW>(); m.len = rbits<AXI4_LENW>(); m.size = rbits<AXI4_SIZEW>(); m.burst = rbits<AXI4_BURSTW>(); m.user = mkuser(eps[id]);
    { string nm = eps[t].name; sc_bv<64> ba = ctx->GetPortBaseAddress(nm); m.addr.range(AXI4_ADDRW - 1, AXI4_ADDRW - AXI4_NODE_ADDRW) = ba.range(63, 64 - AXI4_NODE_ADDRW); } return m;
  }
  void Tick() {
    p.arvalid.write(false); p.awvalid.write(false); p.wvalid.write(false); p.rready.write(false); p.bready.write(false); arh = awh = wh = false; wleft = 0;
    wait();
    while (true) {
      if (p.arvalid.read() && p.arready.read()) { mb[std::make_tuple(id, art, 0)].push_back(ar); sent++; arh = false; p.arvalid.write(false); }
      if (p.awvalid.read() && p.awready.read()) { mb[std::make_tuple(id, awt, 1)].push_back(aw); sent++; awh = false; p.awvalid.write(false); wleft = rnd(1, 4); wtarget = awt; }
      if (p.wvalid.read() && p.wready.read()) { mb[std::make_tuple(id, wtarget, 2)].push_back(w); sent++; wh = false; p.wvalid.write(false); wleft--; }
      if (!arh && sending && flip(duty / 2)) { ar = mkreq(0, art); arh = true; p.arvalid.write(true); p.arid.write(ar.id); p.araddr.write(ar.addr); p.arlen.write(ar.len); p.arsize.write(ar.size); p.arburst.write(ar.burst); p.aruser.write(ar.user); }
      if (!awh && wleft == 0 && !wh && sending && flip(duty / 2)) { aw = mkreq(1, awt); awh = true; p.awvalid.write(true); p.awid.write(aw.id); p.awaddr.write(aw.addr); p.awlen.write(aw.len); p.awsize.write(aw.size); p.awburst.write(aw.burst); p.awuser.write(aw.user); }
      if (!wh && wleft > 0 && flip(duty)) {
        w = Msg(); w.ch = 2; w.id = rbits<AXI4_IDW>(); w.data = rbits<AXI4_MAX_DATAW>(eps[id].dataw); w.last = wleft == 1; w.user = mkuser(eps[id]); wh = true;
        p.wvalid.write(true); p.wid.write(w.id); p.wdata.write(w.data); p.wlast.write(w.last); p.wuser.write(w.user);
      }
      // the adapters present a response for one cycle after seeing ready
      if (p.rvalid.read()) { Msg m; m.ch = 3; m.id = p.rid.read(); m.data = p.rdata.read(); m.resp = p.rresp.read(); m.last = p.rlast.read(); m.user = p.ruser.read(); got(eps[id].name.c_str(), (int)m.user.range(15, 8).to_uint() < (int)eps.size() ? m.user.range(15, 8).to_uint() : -1, id, m); }
      if (p.bvalid.read()) { Msg m; m.ch = 4; m.id = p.bid.read(); m.resp = p.bresp.read(); m.user = p.buser.read(); got(eps[id].name.c_str(), (int)m.user.range(15, 8).to_uint() < (int)eps.size() ? m.user.range(15, 8).to_uint() : -1, id, m); }
      p.rready.write(flip(rduty)); p.bready.write(flip(rduty));
      wait();
    }
  }
};
struct MSlave : public RADSimModule {
  sc_in<bool> rst; aximm_slave_port p; int id; int duty, rduty; std::deque<Msg> rq, bq; bool rh = false, bh = false; Msg r, b;
  SC_HAS_PROCESS(MSlave);
  MSlave(const sc_module_name &nm, RADSimDesignContext *c, int id_) : RADSimModule(nm, c), p("p"), id(id_) { duty = flip(30) ? 100 : rnd(20, 100); rduty = flip(30) ? 100 : rnd(30, 100); SC_CTHREAD(Tick, clk.pos()); reset_signal_is(rst, true); RegisterModuleInfo(); pending.push_back([this] { string n = " " + eps[id].name; return (rh ? n + " R" : "") + (bh ? n + " B" : ""); }); }
  void RegisterModuleInfo() { RegisterAximmSlavePort(eps[id].name, &p, eps[id].dataw); }
  int src(const MU &u) { int s = u.range(7, 0).to_uint(); return s < (int)eps.size() ? s : -1; }
  Msg resp(int ch, const Msg &q) { static unsigned seq = 0; Msg m; m.ch = ch; m.id = rbits<AXI4_IDW>(); m.user = rbits<AXI4_USERW>(); m.user.range(AXI4_USERW - 1, AXI4_USERW - AXI4_NODE_ADDRW) = q.user.range(AXI4_USERW - 1, AXI4_USERW - AXI4_NODE_ADDRW); m.user.range(7, 0) = q.user.range(7, 0); m.user.range(15, 8) = id; m.user.range(39, 16) = seq++; m.data = rbits<AXI4_MAX_DATAW>(eps[id].dataw); m.resp = rbits<AXI4_RESPW>(); m.last = flip(); return m; }
  void Tick() {
    p.arready.write(false); p.awready.write(false); p.wready.write(false); p.rvalid.write(false); p.bvalid.write(false); rh = bh = false;
    wait();
    while (true) {
      if (p.arvalid.read()) { Msg m; m.ch = 0; m.id = p.arid.read(); m.addr = p.araddr.read(); m.len = p.arlen.read(); m.size = p.arsize.read(); m.burst = p.arburst.read(); m.user = p.aruser.read(); got(eps[id].name.c_str(), src(m.user), id, m); int n = rnd(1, 3); while (n--) rq.push_back(resp(3, m)); }
      if (p.awvalid.read()) { Msg m; m.ch = 1; m.id = p.awid.read(); m.addr = p.awaddr.read(); m.len = p.awlen.read(); m.size = p.awsize.read(); m.burst = p.awburst.read(); m.user = p.awuser.read(); got(eps[id].name.c_str(), src(m.user), id, m); }
      if (p.wvalid.read()) { Msg m; m.ch = 2; m.id = p.wid.read(); m.data = p.wdata.read(); m.last = p.wlast.read(); m.user = p.wuser.read(); got(eps[id].name.c_str(), src(m.user), id, m); if (m.last) bq.push_back(resp(4, m)); }
      if (p.rvalid.read() && p.rready.read()) { mb[std::make_tuple(id, (int)r.user.range(7, 0).to_uint(), 3)].push_back(r); sent++; rh = false; p.rvalid.write(false); }
      if (p.bvalid.read() && p.bready.read()) { mb[std::make_tuple(id, (int)b.user.range(7, 0).to_uint(), 4)].push_back(b); sent++; bh = false; p.bvalid.write(false); }
      if (!rh && !rq.empty() && flip(duty)) { r = rq.front(); rq.pop_front(); rh = true; p.rvalid.write(true); p.rid.write(r.id); p.rdata.write(r.data); p.rresp.write(r.resp); p.rlast.write(r.last); p.ruser.write(r.user); }
      if (!bh && !bq.empty() && flip(duty)) { b = bq.front(); bq.pop_front(); bh = true; p.bvalid.write(true); p.bid.write(b.id); p.bresp.write(b.resp); p.buser.write(b.user); }
      bool ok = rq.size() + bq.size() < 24;   // memory applies back-pressure on requests
      p.arready.write(ok && flip(rduty)); p.awready.write(flip(rduty)); p.wready.write(ok && flip(rduty));
      wait();
    }
  }
};

// a flit of one transaction type stays on the virtual channels of its type (READ_REQUEST, READ_REPLY, WRITE_REQUEST, WRITE_REPLY, WRITE_DATA)
template <class A> static void vccheck(A *a, std::queue<sc_flit> &f, int vc) {
  if (f.empty()) return;
  const sc_flit &x = f.back();
  int ty = (int)x._type, v = x._vc_id.to_uint();
  CHECK(ty >= 0 && ty < 5, "%s: flit of unknown type %d", a->name(), ty);
  int b = slot[ty] * cfg.vcs_per_class;
  CHECK(v >= b && v < b + cfg.vcs_per_class, "%s: a flit of type %d travels on virtual channel %d, its type owns [%d, %d)", a->name(), ty, v, b, b + cfg.vcs_per_class);
  if (vc >= 0) CHECK(v == vc, "%s: flit of virtual channel %d sits in FIFO %d", a->name(), v, vc);
}
template <class A> static void typecheck(A *a, std::queue<sc_flit> &f, int ty) {
  if (f.empty()) return;
  CHECK((int)f.back()._type == ty, "%s: flit of type %d in the FIFO of type %d", a->name(), (int)f.back()._type, ty);
}

// samples the adapters while the system runs: bounded FIFOs, at most one input interface ready per node
struct Monitor : public sc_module {
  SC_HAS_PROCESS(Monitor);
  Monitor(const sc_module_name &n) : sc_module(n) { SC_THREAD(Watch); }
  void Watch() {
    wait(sc_time(30.3, SC_NS));
    while (true) {
      for (auto *n : ctx->_nocs) {
        for (auto *a : n->_axis_slave_adapters) {
          vccheck(a, a->_injection_afifo, -1);
          int r = 0, v = 0; for (auto &p : a->axis_interfaces) { r += p.tready.read(); v += p.tready.read() && !p.tvalid.read(); }
          CHECK(r <= 1, "%s: %d input interfaces are ready at once", a->name(), r);
          CHECK(a->_injection_afifo.size() <= (size_t)cfg.fifo, "%s: injection FIFO holds %zu flits, depth %d", a->name(), a->_injection_afifo.size(), cfg.fifo);
          CHECK(a->_input_axis_transactions_afifo.size() <= 2, "%s: input FIFO holds %zu transactions, depth 2", a->name(), a->_input_axis_transactions_afifo.size());
        }
        for (auto *a : n->_axis_master_adapters) {
          for (auto &f : a->_ejection_afifos) CHECK(f.size() <= (size_t)cfg.fifo, "%s: ejection FIFO holds %zu flits, depth %d", a->name(), f.size(), cfg.fifo);
          for (size_t v = 0; v < a->_ejection_afifos.size(); v++) vccheck(a, a->_ejection_afifos[v], v);
          for (auto &f : a->_output_afifos) CHECK(f.size() <= (size_t)cfg.obuf, "%s: output FIFO holds %zu packets, depth %d", a->name(), f.size(), cfg.obuf);
        }
        for (auto *a : n->_aximm_slave_adapters) {
          vccheck(a, a->_injection_afifo, -1);
          for (auto &f : a->_ejection_afifos) vccheck(a, f, -1);
          int r = a->aximm_interface.arready.read() + a->aximm_interface.awready.read() + a->aximm_interface.wready.read();
          CHECK(r <= 1, "%s: %d request channels are ready at once", a->name(), r);
          CHECK(a->_injection_afifo.size() <= (size_t)cfg.fifo, "%s: injection FIFO holds %zu flits, depth %d", a->name(), a->_injection_afifo.size(), cfg.fifo);
          for (auto &f : a->_ejection_afifos) CHECK(f.size() <= (size_t)cfg.fifo, "%s: ejection FIFO holds %zu flits, depth %d", a->name(), f.size(), cfg.fifo);
          CHECK(a->_output_afifo.size() <= 2, "%s: output FIFO holds %zu packets, depth 2", a->name(), a->_output_afifo.size());
        }
        for (auto *a : n->_aximm_master_adapters) {
          vccheck(a, a->_injection_afifo, -1);
          for (auto &f : a->_ejection_afifos) vccheck(a, f, -1);
          int r = a->aximm_interface.rready.read() + a->aximm_interface.bready.read();
          CHECK(r <= 1, "%s: %d response channels are ready at once", a->name(), r);
          CHECK(a->_injection_afifo.size() <= (size_t)cfg.fifo, "%s: injection FIFO holds %zu flits, depth %d", a->name(), a->_injection_afifo.size(), cfg.fifo);
          for (auto &f : a->_ejection_afifos) CHECK(f.size() <= (size_t)cfg.fifo, "%s: ejection FIFO holds %zu flits, depth %d", a->name(), f.size(), cfg.fifo);
          CHECK(a->_output_afifo.size() <= 2, "%s: output FIFO holds %zu packets, depth 2", a->name(), a->_output_afifo.size());
        }
      }
      wait(sc_time(0.5, SC_NS));
    }
  }
};
// with nothing in flight every credit is back home
static void idle_buffers() {
  auto chk = [](const string &w, BufferState *b) {
    CHECK(b->_occupancy == 0, "%s: %d buffer slots still held although the network is empty", w.c_str(), b->_occupancy);
    for (int v = 0; v < b->_vcs; v++) { CHECK(b->_vc_occupancy[v] == 0, "%s: virtual channel %d holds %d slots although the network is empty", w.c_str(), v, b->_vc_occupancy[v]); CHECK(b->_in_use_by[v] < 0, "%s: virtual channel %d still allocated although the network is empty", w.c_str(), v); }
  };
  for (auto *n : ctx->_nocs) {
    for (int i = 0; i < cfg.nodes; i++) chk("injection port of node " + std::to_string(i), n->_buffer_state[i]);
    for (auto *r : n->_booksim_noc->_routers) { auto *q = dynamic_cast<IQRouter *>(r); if (!q) continue; for (auto *b : q->_next_buf) chk(b->FullName(), b); for (auto *b : q->_buf) CHECK(b->GetOccupancy() == 0, "%s: input buffer holds %d flits although the network is empty", q->FullName().c_str(), b->GetOccupancy()); }
  }
}

struct Top : public sc_module { sc_in<bool> rst; Top(const sc_module_name &n) : sc_module(n), rst("rst") {} };
static string wd;
static void writecfg() {
  Cfg &c = cfg;
  c.torus = flip(25); c.k = rnd(2, AXIMM ? 3 : 4); c.n = 2; if (c.torus && c.k == 2) c.k = 3;
  int cap = std::min(1 << AXIS_DEST_FIELDW, 1 << AXI4_NODE_ADDRW); while (c.k * c.k > cap) c.k--;
  if (c.torus && c.k < 3) c.torus = false;
  c.nodes = c.k * c.k; c.nocs = (!PORTALMODE && flip(25)) ? 2 : 1;
  if (AXIMM || (1 << NOC_LINKS_VCID_WIDTH) < 10) c.torus = false;
  c.vcs_per_class = c.torus ? 2 : (!AXIMM && (1 << NOC_LINKS_VCID_WIDTH) >= 10 && flip(40)) ? 2 : 1;
  int pay = std::max(AXIS_PAYLOADW, AXI4_PAYLOADW), fl = -(-pay / NOC_LINKS_PAYLOAD_WIDTH); fl = (pay + NOC_LINKS_PAYLOAD_WIDTH - 1) / NOC_LINKS_PAYLOAD_WIDTH;
  c.vcbuf = fl + rnd(0, 6); if (c.vcbuf < 4) c.vcbuf = 4;
  c.fifo = std::max(c.vcbuf * c.vcs_per_class, 2 * fl + 2) + rnd(0, 8);
  c.noc_p = 1.0;
  static const double AP[] = {1.0, 1.25, 2.0, 2.5};
  int na = rnd(1, 2), nm = rnd(1, 2);
  for (int i = 0; i < na; i++) c.adp.push_back(AP[rnd(0, 3)]);
  static const double MP[] = {1.0, 2.0, 2.5, 3.0, 5.0, 4.0};
  for (int i = 0; i < nm; i++) c.modp.push_back(AXIMM ? c.adp[0] * rnd(2, 5) : MP[rnd(0, 5)]);
  if (AXIMM) c.adp.resize(1);
  c.rf = c.torus ? "dim_order" : (flip(70) ? "dim_order" : "dim_order");
  mkdir((wd + "/sim").c_str(), 0777); mkdir((wd + "/sim/noc").c_str(), 0777);
  static const char *VA[] = {"islip", "separable_input_first", "separable_output_first", "wavefront"};
  string va = VA[rnd(0, 3)], sa = VA[rnd(0, 3)];
  static const char *BP[] = {"shared", "limited", "dynamic", "shifting"};
  string bp = flip(55) ? "private" : BP[rnd(0, 3)]; int pbs = rnd(fl, c.vcbuf); // a virtual channel's own slots hold a whole packet
  if (bp == "shifting") c.vcbuf = std::max(c.vcbuf, 2 * fl); // the halving policy may leave a virtual channel half of its equal share
  if (flip(60)) for (int i = 4; i > 0; i--) std::swap(slot[i], slot[rnd(0, i)]);
  bool la = flip(30), spec = flip(20), wtc = flip(30);
  if (bp != "private") c.fifo += 5 * c.vcs_per_class * c.vcbuf; // a VC may hold every shared slot, and the adapter FIFO mirrors the terminal buffer
  for (int n = 0; n < c.nocs; n++) {
    std::ofstream f(wd + "/sim/noc/noc" + std::to_string(n) + "_rad0_config");
    f << "topology = " << (c.torus ? "torus" : "mesh") << ";\nk = " << c.k << ";\nn = 2;\nrouting_function = " << c.rf << ";\nnum_vcs = " << 5 * c.vcs_per_class << ";\nvc_buf_size = " << c.vcbuf << ";\noutput_buffer_size = " << rnd(4, 12) << ";\n";
    const char *t[5] = {"read_request", "write_request", "write_data", "read_reply", "write_reply"};
    for (int i = 0; i < 5; i++) f << t[i] << "_begin_vc = " << slot[i] * c.vcs_per_class << ";\n" << t[i] << "_end_vc = " << (slot[i] + 1) * c.vcs_per_class - 1 << ";\n";
    f << "buffer_policy = " << bp << ";\nprivate_buf_size = " << pbs << ";\nrouter = iq;\nvc_allocator = " << va << ";\nsw_allocator = " << sa << ";\nalloc_iters = " << rnd(1, 2) << ";\nwait_for_tail_credit = " << wtc << ";\ncredit_delay = " << rnd(1, 3) << ";\nrouting_delay = " << (la ? 0 : 1) << ";\nvc_alloc_delay = 1;\nsw_alloc_delay = 1;\nspeculative = " << spec << ";\n";
  }
  auto &R = radsim_config;
  R.ResizeAll(1);
  vector<double> np(c.nocs, c.noc_p); vector<int> nn(c.nocs, c.nodes), ff(c.nocs, c.fifo), ob(c.nocs, c.obuf = rnd(1, 4)), vc(c.nocs, 5 * c.vcs_per_class), pw(c.nocs, NOC_LINKS_PAYLOAD_WIDTH);
  vector<string> arb1(c.nocs, "fixed_rr"), arb2(c.nocs, "priority_rr"), vm(c.nocs, "direct");
  R.AddStringKnobShared("radsim_root_dir", wd); R.AddStringKnobPerRad("radsim_user_design_root_dir", wd, 0);
  R.AddDoubleKnobShared("sim_driver_period", 5.0); R.AddIntKnobShared("telemetry_log_verbosity", 2);
  R.AddIntKnobPerRad("noc_num_nocs", c.nocs, 0); R.AddDoubleVectorKnobPerRad("noc_clk_period", np, 0); R.AddIntVectorKnobPerRad("noc_num_nodes", nn, 0); R.AddIntVectorKnobPerRad("noc_vcs", vc, 0); R.AddIntVectorKnobPerRad("noc_payload_width", pw, 0);
  R.AddDoubleVectorKnobPerRad("noc_adapters_clk_period", c.adp, 0); R.AddDoubleVectorKnobPerRad("design_clk_periods", c.modp, 0); R.AddIntVectorKnobPerRad("noc_adapters_fifo_size", ff, 0); R.AddIntVectorKnobPerRad("noc_adapters_obuff_size", ob, 0);
  R.AddStringVectorKnobPerRad("noc_adapters_in_arbiter", arb1, 0); R.AddStringVectorKnobPerRad("noc_adapters_out_arbiter", arb2, 0); R.AddStringVectorKnobPerRad("noc_adapters_vc_mapping", vm, 0);
  H::note("buffer policy %s private_buf_size %d", bp.c_str(), pbs); H::note("%s %dx%d, %d NoC(s), %d VC/class, vc_buf %d, fifo %d, vc alloc %s, sw alloc %s, lookahead %d, speculative %d, wait_for_tail_credit %d, adapter period %g%s", c.torus ? "torus" : "mesh", c.k, c.k, c.nocs, c.vcs_per_class, c.vcbuf, c.fifo, va.c_str(), sa.c_str(), la, spec, wtc, c.adp[0], c.adp.size() > 1 ? (" and " + std::to_string(c.adp[1])).c_str() : "");
}
static long child(unsigned long seed) {
  H::rng().seed(seed);
  writecfg();
  ctx = new RADSimDesignContext(0);
  sc_signal<bool> rst_sig("rst_sig");
  Top top("top"); top.rst(rst_sig);
  std::ofstream pl(wd + "/x.place"), ck(wd + "/x.clks");
  vector<sc_module *> mods;
  std::map<int, int> freen; vector<int> nodes; for (int i = 0; i < cfg.nodes; i++) nodes.push_back(i);
  std::shuffle(nodes.begin(), nodes.end(), H::rng());
  int oneclk = flip(40), ca = rnd(0, cfg.adp.size() - 1), cm = rnd(0, cfg.modp.size() - 1);   // modules that share a node have the same clocks
  auto clk = [&](const string &m) { if (oneclk) ck << m << " " << ca << " " << cm << "\n"; else ck << m << " " << rnd(0, cfg.adp.size() - 1) << " " << rnd(0, cfg.modp.size() - 1) << "\n"; };
  if (!AXIMM) {
    int nmod = std::min<int>(rnd(2, 5), cfg.nodes), used = 0; int dw = std::min<int>(AXIS_MAX_DATAW, flip(40) ? AXIS_MAX_DATAW : rnd(8, AXIS_MAX_DATAW));
    struct MI { string name; vector<int> m, s; bool whole; }; vector<MI> mi;
    for (int k = 0; k < nmod; k++) {
      MI x; x.name = "mod" + std::to_string(k); x.whole = flip(50); int noc = rnd(0, cfg.nocs - 1), node = nodes[oneclk && flip(30) ? rnd(0, cfg.nodes - 1) : used++];
      if (used > cfg.nodes - (nmod - k - 1)) used = cfg.nodes - (nmod - k - 1);
      int a = k == 0 ? rnd(1, 3) : rnd(0, 3), b = k == 1 ? rnd(1, 3) : rnd(0, 3); if (a + b == 0) a = 1;
      for (int i = 0; i < a + b; i++) {
        Ep e; e.master = i < a; e.noc = noc; e.mod = k; e.dataw = e.master ? (flip(60) ? dw : rnd(8, dw)) : dw; e.type = rnd(0, 4); e.id = eps.size(); e.name = x.name + (e.master ? ".out" : ".in") + std::to_string(i);
        if (!x.whole && i && flip(40)) { if (oneclk && flip(30)) node = nodes[rnd(0, cfg.nodes - 1)]; else if (used < cfg.nodes - (nmod - k - 1)) node = nodes[used++]; }
        e.node = node; e.pv = 0; (e.master ? x.m : x.s).push_back(e.id); eps.push_back(e);
      }
      mi.push_back(x);
    }
    if (PORTALMODE) { vector<int> c; for (auto &e : eps) if (!e.master) c.push_back(e.id); portal_ep = c[rnd(0, c.size() - 1)]; ctx->AssignPortalSlaveName(eps[portal_ep].name); }
    for (auto &x : mi) {
      auto *m = new Mod(x.name.c_str(), ctx, x.m, x.s); m->rst(top.rst); mods.push_back(m); clk(x.name);
      vector<int> all = x.m; all.insert(all.end(), x.s.begin(), x.s.end());
      if (x.whole) pl << x.name << " " << eps[all[0]].noc << " " << eps[all[0]].node << " axis\n";
      else { std::shuffle(all.begin(), all.end(), H::rng()); for (int e : all) pl << eps[e].name << " " << eps[e].noc << " " << eps[e].node << " axis\n"; }
    }
  } else {
    int nm = rnd(1, 3), ns = rnd(1, std::max(1, std::min(3, cfg.nodes - nm))); int dw = rnd(8, AXI4_MAX_DATAW); if (flip(40)) dw = AXI4_MAX_DATAW;
    for (int i = 0; i < nm + ns; i++) { Ep e; e.master = i < nm; e.noc = 0; e.node = nodes[i]; e.mod = i; e.dataw = dw; e.type = 0; e.id = i; e.name = string(e.master ? "req" : "mem") + std::to_string(i) + ".mm"; eps.push_back(e); }
    for (auto &e : eps) {
      string mn = e.name.substr(0, e.name.find('.'));
      if (e.master) { auto *m = new MMaster(mn.c_str(), ctx, e.id); m->rst(top.rst); } else { auto *m = new MSlave(mn.c_str(), ctx, e.id); m->rst(top.rst); }
      clk(mn);
      if (flip(60)) pl << e.name << " 0 " << e.node << " aximm\n"; else pl << mn << " 0 " << e.node << " aximm\n";
    }
  }
  pl.close(); ck.close();
  { std::ifstream a(wd + "/x.place"), b(wd + "/x.clks"); string l; while (std::getline(a, l)) H::note("place: %s", l.c_str()); while (std::getline(b, l)) H::note("clks: %s", l.c_str()); }
  for (auto &e : eps) H::note("port %d = %s %s width %d type %d", e.id, e.name.c_str(), e.master ? "master" : "slave", e.dataw, e.type);
  string pf = "x.place", cf = "x.clks";
  ctx->BuildDesignContext(pf, cf);
  ctx->CreateSystemNoCs(top.rst);
  ctx->ConnectModulesToNoC();
  for (auto &e : eps) {
    CHECK((int)ctx->GetPortDestinationID(e.name) == e.node, "port %s placed on node %d is registered on node %d", e.name.c_str(), e.node, (int)ctx->GetPortDestinationID(e.name));
    if (AXIMM) { string n = e.name; uint64_t base = ctx->GetPortBaseAddress(n); (void)base; }
  }
  Monitor mon("monitor");
  rst_sig.write(true); sc_start(23, SC_NS); rst_sig.write(false);
  int T = rnd(300, 2500);
  sc_start(T, SC_NS);
  sending = false;
  // everything sent must arrive: wait until nothing has moved for long enough
  long last = -1, quiet = 0;
  while (quiet < 20) { sc_start(500, SC_NS); if (delivered == last) quiet++; else quiet = 0; last = delivered; if (outstanding() == 0 && quiet >= 1) break; }
  if (outstanding() != 0) {
    string o; for (auto &x : sb) if (!x.second.empty()) o += " " + eps[x.first.first].name + "->" + eps[x.first.second].name + ":" + std::to_string(x.second.size());
    for (auto &x : mb) if (!x.second.empty()) o += string(" ") + CH[std::get<2>(x.first)] + " " + eps[std::get<0>(x.first)].name + "->" + eps[std::get<1>(x.first)].name + ":" + std::to_string(x.second.size());
    H::fail("%d transaction(s) never arrived:%s", outstanding(), o.c_str());
  }
  sc_start(500, SC_NS);
  { string o; for (auto &f : pending) o += f(); if (!o.empty()) H::fail("offered to an idle NoC but never accepted:%s", o.c_str()); }
  idle_buffers();
  return delivered;
}
int sc_main(int argc, char **argv) {
  for (int i = 1; i < argc; i++) { if (string(argv[i]) == "aximm") AXIMM = true; if (string(argv[i]) == "portal") PORTALMODE = true; }
  H::init(); gWatchOut = &std::cout;
  unsigned long base = (getenv("HARNESS_SEED") ? strtoul(getenv("HARNESS_SEED"), 0, 10) : 1) * 1000003ul;
  const char *one = getenv("ONE");
  int NP = one ? 1 : 5; long total = 0, runs = 0; int k = 0; char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) return 2;
  struct Job { int pid; string wd; unsigned long seed; double t; }; vector<Job> jobs; bool failed = false; string report;
  while (true) {
    while ((int)jobs.size() < NP && !failed && (k < 6 || H::more()) && !(one && k)) {
      Job j; j.seed = one ? strtoul(one, 0, 10) : base + k; k++; j.t = H::now();
      j.wd = string(cwd) + "/c" + std::to_string(k); mkdir(j.wd.c_str(), 0777); fflush(stdout);
      j.pid = fork();
      if (!j.pid) {
        wd = j.wd; if (chdir(wd.c_str())) _exit(3);
        if (!one || !getenv("SHOW")) { if (!freopen("out", "w", stdout)) _exit(3); if (!freopen("err", "w", stderr)) _exit(3); }
        alarm(100);
        try { long d = child(j.seed); FILE *f = fopen((wd + "/done").c_str(), "w"); fprintf(f, "%ld\n", d); fclose(f); fflush(stdout); _exit(0); }
        catch (std::exception &e) { H::fail("exception: %s", e.what()); }
      }
      jobs.push_back(j);
    }
    if (jobs.empty()) break;
    int st; int pid = waitpid(-1, &st, 0);
    for (size_t i = 0; i < jobs.size(); i++) if (jobs[i].pid == pid) {
      Job j = jobs[i]; jobs.erase(jobs.begin() + i); runs++;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { FILE *f = fopen((j.wd + "/done").c_str(), "r"); long d = 0; if (f) { if (fscanf(f, "%ld", &d) != 1) d = 0; fclose(f); } total += d; }
      else if (!failed) {
        failed = true; report = "seed " + std::to_string(j.seed) + " status " + std::to_string(st) + " (re-run one system: ONE=" + std::to_string(j.seed) + ")\n";
        for (auto fn : {"/out", "/err"}) { std::ifstream f(j.wd + fn); std::stringstream s; s << f.rdbuf(); string t = s.str(); size_t p = t.find("FAIL"); if (p != string::npos) t = t.substr(p); if (t.size() > 5000) t = t.substr(0, 2500) + "\n...\n" + t.substr(t.size() - 2500); report += t; }
      }
      string c = "rm -rf '" + j.wd + "'"; if (system(c.c_str())) {}
      break;
    }
  }
  if (failed) { printf("FAIL in a simulated system\n%s\n", report.c_str()); fflush(stdout); _exit(1); }
  H::stat("systems", runs); H::stat("transactions_checked", total); H::stat("evaluations", total); H::stat("nontrivial", total);
  if (total < 50 && !one) { printf("FAIL too little traffic was delivered (%ld transactions in %ld systems)\n", total, runs); fflush(stdout); _exit(1); }
  fflush(stdout); _exit(0);
}
