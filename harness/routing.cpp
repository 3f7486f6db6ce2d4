// every route of the compiled routing functions, followed over the links of the compiled networks
#include "h.hpp"
#include "booksim.hpp"
#include "booksim_config.hpp"
#include "routefunc.hpp"
#include "network.hpp"
#include "router.hpp"
#include "outputset.hpp"
#include <design_context.hpp>
#include <radsim_config.hpp>
using namespace H;
RADSimConfig radsim_config;
std::ostream *gWatchOut = nullptr;
SimLog sim_log;
SimTraceRecording sim_trace_probe;
static long ev = 0, hops_ = 0;
static int dig(int n, int d, int k) { while (d--) n /= k; return n % k; }
static void one() {
  clear();
  bool torus = flip(), xy = !torus && flip(40);
  int n = xy ? 2 : rnd(1, 3), k = rnd(torus ? 2 : 1, n == 1 ? 9 : n == 2 ? 6 : 3), nodes = 1;
  for (int d = 0; d < n; d++) nodes *= k;
  int per = (torus || xy) ? rnd(2, 4) : rnd(1, 3), vcs = 5 * per;
  BookSimConfig cfg;
  std::string topo = torus ? "torus" : "mesh", rf = xy ? "xy_yx" : flip(80) || torus ? "dim_order" : "dor";
  cfg.Assign("topology", topo); cfg.Assign("routing_function", rf); cfg.Assign("k", k); cfg.Assign("n", n); cfg.Assign("num_vcs", vcs);
  const char *T[] = {"read_request", "write_request", "write_data", "read_reply", "write_reply"};
  int perm[5] = {0, 1, 2, 3, 4};
  for (int t = 4; t > 0; t--) std::swap(perm[t], perm[rnd(0, t)]);
  for (int t = 0; t < 5; t++) { cfg.Assign(std::string(T[t]) + "_begin_vc", perm[t] * per); cfg.Assign(std::string(T[t]) + "_end_vc", perm[t] * per + per - 1); }
  note("%s %s k=%d n=%d vcs=%d per class=%d", topo.c_str(), rf.c_str(), k, n, vcs, per);
  InitializeRoutingMap(cfg);
  Network *net = Network::New(cfg, "net");
  tRoutingFunction f = gRoutingFunctionMap.at(rf + "_" + topo);
  CHECK((int)net->NumRouters() == nodes && (int)net->NumNodes() == nodes, "wrong number of routers or nodes");
  std::string keep = trace();
  for (int pair = 0; pair < 400; pair++) {
    trace() = keep;
    int s = rnd(0, nodes - 1), d = rnd(0, nodes - 1), t = rnd(0, 5);
    if (nodes <= 20) { if (pair >= nodes * nodes) break; s = pair / nodes; d = pair % nodes; }
    Flit *fl = Flit::New();
    fl->type = (Flit::FlitType)t; fl->dest = d; fl->src = s; fl->vc = -1; fl->ph = -1; fl->watch = false; fl->id = pair;
    int lo = t == 5 ? 0 : perm[t] * per, hi = t == 5 ? vcs - 1 : lo + per - 1;
    note("from %d to %d type %d", s, d, t);
    OutputSet os;
    os.AddRange(3, 0, 0);   // anything left from before has to go
    f(nullptr, fl, -1, &os, true);
    CHECK(os.GetSet().size() == 1 && os.GetSet().begin()->vc_start == lo && os.GetSet().begin()->vc_end == hi, "injection does not offer exactly the virtual channels of the class");
    fl->vc = rnd(lo, hi);
    int want = 0, at = s, hops = 0;
    for (int i = 0; i < n; i++) { int a = dig(s, i, k), b = dig(d, i, k), w = abs(a - b); want += torus ? std::min(w, k - w) : w; }
    FlitChannel *ch = net->GetInject(s);
    int ph0 = -1, lastdim = -1; bool half = false, half0 = false;
    while (true) {
      const Router *r = ch->GetSink();
      int in = ch->GetSinkPort();
      CHECK(r && r->GetID() == at, "the link does not lead to the expected router");
      f(r, fl, in, &os, false);
      CHECK(os.GetSet().size() == 1, "more than one route");
      auto e = *os.GetSet().begin();
      note("  router %d port %d -> port %d vcs %d..%d", at, in, e.output_port, e.vc_start, e.vc_end);
      CHECK(e.vc_start >= lo && e.vc_end <= hi && e.vc_start <= e.vc_end, "virtual channels outside the class of the flit");
      CHECK(e.output_port >= 0 && e.output_port <= 2 * n, "no such output");
      FlitChannel *o = r->GetOutputChannel(e.output_port);
      if (o == net->GetEject(at)) {
        CHECK(at == d, "ejected at a router that is not the destination");
        CHECK(hops == want, "took %d hops instead of %d", hops, want);
        if (t == 5 || torus || xy) CHECK(e.vc_start == lo && e.vc_end == hi, "not every virtual channel offered at the destination");
        break;
      }
      CHECK(at != d, "not ejected at the destination");
      CHECK(hops < want, "more hops than the distance");
      int dim = e.output_port / 2, right = e.output_port % 2 == 0, x = dig(at, dim, k), y = right ? (x + 1) % k : (x + k - 1) % k, p = 1;
      for (int i = 0; i < dim; i++) p *= k;
      if (!torus) CHECK(right ? x < k - 1 : x > 0, "a mesh route uses a wrap-around link");
      int av = (hi - lo + 1) / 2;
      if (xy) {
        bool low = e.vc_start == lo && e.vc_end == lo + av - 1;
        CHECK(low || (e.vc_start == lo + av && e.vc_end == hi), "neither half of the class");
        if (hops) CHECK(low == half0, "the packet changed its half of the virtual channels"); half0 = low;
        int first = low ? 0 : 1;
        CHECK(dim == first || dig(at, first, k) == dig(d, first, k), "dimension out of order");
      } else {
        for (int i = 0; i < dim; i++) CHECK(dig(at, i, k) == dig(d, i, k), "dimension out of order");
        if (torus) {
          bool low = e.vc_start == lo && e.vc_end == lo + av - 1;
          CHECK(low || (e.vc_start == lo + av && e.vc_end == hi), "neither half of the class");
          if (dim == lastdim) CHECK(low == half, "the packet changed its class within a ring");
          // at the start of a ring: the class tells whether the packet will wrap
          if (dim != lastdim) { bool wraps = right ? x > dig(d, dim, k) : x < dig(d, dim, k); CHECK(low == (right ? !wraps : wraps), "packets that wrap and packets that do not share virtual channels"); }
          half = low; lastdim = dim;
        } else CHECK(e.vc_start == lo && e.vc_end == hi, "not every virtual channel of the class offered");
      }
      at += (y - x) * p; hops++; hops_++;
      ch = o;
      fl->vc = rnd(e.vc_start, e.vc_end);
    }
    ev++;
  }
  sample(keep);
}
int sc_main(int, char **) {
  init();
  while (more()) one();
  stat("evaluations", ev); stat("nontrivial", hops_);
  fflush(stdout); _exit(0);
}
