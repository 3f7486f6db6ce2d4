// BookSim credit state, channels, VC queues and input buffers against independent references
#include "h.hpp"
#include "booksim.hpp"
#include "booksim_config.hpp"
#include "buffer_state.hpp"
#include "flitchannel.hpp"
#include "credit.hpp"
#include "buffer.hpp"
#include <deque>
#include <sys/wait.h>
using namespace H;
static int now_ = 0;
int GetSimTime() { return now_; }
ostream *gWatchOut = nullptr;
bool gTrace = false;
struct Nul : Module { Nul() : Module(0, "root") {} };
static Flit *mk(int vc, bool head, bool tail, int id, int pid) { Flit *f = Flit::New(); f->vc = vc; f->head = head; f->tail = tail; f->id = id; f->pid = pid; f->cl = 0; f->watch = false; f->pri = 0; f->hops = rnd(0, 5); return f; }

// ---- credit state
struct Ref {
  std::string pol; int vcs, size, vcbuf; bool wait;
  std::vector<int> occ, use, tailsent, map, psize, pocc, resv, limit, rtt, pend; int sh = 0, shsize = 0, maxheld = 0, active = 0, minlat = 0, aging = 0, offset = 0;
  std::vector<std::deque<int>> sent;
  int tot() const { int s = 0; for (int x : occ) s += x; return s; }
  bool shared() const { return pol != "private"; }
  bool lim() const { return pol == "limited" || pol == "dynamic" || pol == "shifting"; }
  bool fb() const { return pol == "feedback" || pol == "simplefeedback"; }
  int priv(int b) const { int s = 0; for (int v = 0; v < vcs; v++) if (map[v] == b) s += occ[v] + resv[v]; return s; }
  int pool() const { int s = 0; for (size_t b = 0; b < psize.size(); b++) s += std::max(0, priv(b) - psize[b]); return s; }
  int est(int v, int last) const { return rtt[v] < 0 ? last : (((rtt[v] << aging) + last - rtt[v]) >> aging); }
  int lim_of(int r) const { return std::max(2 * minlat - r + offset, 1); }
  int maxslots(int v) const { int m = limit[v]; if (!sent[v].empty()) m = std::min(m, lim_of(est(v, now_ - sent[v].front()))); return m; }
  int held() const {
    if (pol == "limited") return maxheld;
    if (pol == "dynamic") return active ? size / active : maxheld;
    if (!active) return maxheld;
    int s = size, i = active - 1; while (i) { s /= 2; i /= 2; } return s;
  }
  int avail(int v) const {
    if (!shared()) return vcbuf - occ[v];
    int b = map[v], a = resv[v] + std::max(psize[b] - priv(b), 0) + shsize - pool();
    if (lim()) a = std::min(a, held() - occ[v]);
    if (fb()) a = std::min(a, maxslots(v) - occ[v]);
    return a;
  }
  int limitfor(int v) const {
    if (!shared()) return vcbuf;
    int a = psize[map[v]] + shsize;
    if (lim()) a = std::min(a, held());
    if (fb()) a = std::min(a, maxslots(v));
    return a;
  }
};
struct Policy { std::vector<int> dummy; };
static long ev = 0, nontriv = 0;

static void credits() {
  Nul root; clear(); now_ = rnd(0, 100);
  const char *pols[] = {"private", "shared", "limited", "dynamic", "shifting", "feedback", "simplefeedback"};
  BookSimConfig cfg;
  Ref R; R.pol = pols[rnd(0, 6)]; R.vcs = rnd(1, 6); R.vcbuf = rnd(1, 6); R.wait = flip();
  cfg.Assign("buffer_policy", R.pol); cfg.Assign("num_vcs", R.vcs); cfg.Assign("vc_buf_size", R.vcbuf); cfg.Assign("wait_for_tail_credit", R.wait ? 1 : 0);
  R.size = R.vcs * R.vcbuf;
  if (flip(30)) { int s = R.vcs * rnd(1, 5) + (R.shared() ? rnd(0, 5) : 0); cfg.Assign("buf_size", s); R.size = s; R.vcbuf = s / R.vcs; }
  if (R.pol == "shifting" && R.size < 8) { cfg.Assign("buf_size", 8 + R.vcs); R.size = 8 + R.vcs; }  // the halving policy needs a slot per power of two of VCs
  if (R.shared()) {
    int nb = flip() ? R.vcs : rnd(1, R.vcs), ps = rnd(0, R.size / nb);
    if (nb == R.vcs && flip()) cfg.Assign("private_bufs", -1); else cfg.Assign("private_bufs", nb);
    if (flip(30)) { cfg.Assign("private_buf_size", -1); ps = R.size / nb; } else cfg.Assign("private_buf_size", ps);
    R.psize.assign(nb, ps); R.map.resize(R.vcs); R.shsize = R.size - nb * ps;
    for (int b = 0; b < nb; b++) for (int v = b * R.vcs / nb; v < (b + 1) * R.vcs / nb; v++) R.map[v] = b;
    R.maxheld = R.size;
    if (R.pol == "limited") { if (flip(30)) cfg.Assign("max_held_slots", -1); else { R.maxheld = rnd(1, R.size); cfg.Assign("max_held_slots", R.maxheld); } }
    R.aging = rnd(0, 3); R.offset = rnd(0, 3); cfg.Assign("feedback_aging_scale", R.aging); cfg.Assign("feedback_offset", R.offset);
  }
  R.occ.assign(R.vcs, 0); R.use.assign(R.vcs, -1); R.tailsent.assign(R.vcs, 0); R.resv.assign(R.vcs, 0); R.limit.assign(R.vcs, R.size); R.rtt.assign(R.vcs, -1); R.pend.assign(R.vcs, 0); R.sent.resize(R.vcs);
  note("policy %s vcs %d size %d vc_buf %d wait_for_tail %d private %d x %d shared %d", R.pol.c_str(), R.vcs, R.size, R.vcbuf, R.wait, (int)R.psize.size(), R.psize.empty() ? 0 : R.psize[0], R.shsize);
  BufferState B(cfg, &root, "bs");
  R.minlat = rnd(1, 6); B.SetMinLatency(R.minlat);
  auto check = [&](const char *after) {
    CHECK(B.Occupancy() == R.tot(), "occupancy %d, outstanding flits %d after %s", B.Occupancy(), R.tot(), after);
    CHECK(B.IsFull() == (R.tot() == R.size), "IsFull %d with %d of %d slots used after %s", B.IsFull(), R.tot(), R.size, after);
    for (int v = 0; v < R.vcs; v++) {
      CHECK(B.OccupancyFor(v) == R.occ[v], "VC %d: occupancy %d, outstanding flits %d after %s", v, B.OccupancyFor(v), R.occ[v], after);
      CHECK(B.IsEmptyFor(v) == (R.occ[v] == 0), "VC %d: IsEmptyFor wrong after %s", v, after);
      CHECK(B.IsAvailableFor(v) == (R.use[v] < 0), "VC %d: available %d, in use by %d after %s", v, B.IsAvailableFor(v), R.use[v], after);
      if (R.use[v] >= 0) CHECK(B.UsedBy(v) == R.use[v], "VC %d: used by %d, owner %d after %s", v, B.UsedBy(v), R.use[v], after);
      CHECK(B.AvailableFor(v) == R.avail(v), "VC %d: AvailableFor %d, free slots %d after %s", v, B.AvailableFor(v), R.avail(v), after);
      CHECK(B.IsFullFor(v) == (R.avail(v) <= 0), "VC %d: IsFullFor %d with %d free slots after %s", v, B.IsFullFor(v), R.avail(v), after);
      CHECK(B.LimitFor(v) == R.limitfor(v), "VC %d: LimitFor %d, expected %d after %s", v, B.LimitFor(v), R.limitfor(v), after);
    }
  };
  check("construction");
  std::deque<std::pair<int, int>> down;  // (vc, tail) flits held downstream
  std::vector<int> left(R.vcs, 0);       // flits left in the open packet
  int steps = rnd(5, 300), id = 0, drain = rnd(10, 90);
  for (int s = 0; s < steps || !down.empty(); s++) {
    if (flip(60)) now_++;
    bool ending = s >= steps;
    int op = rnd(0, 99);
    if (!ending && op < 25) {
      int v = rnd(0, R.vcs - 1);
      if (R.use[v] < 0) { int tag = rnd(0, 50); note("take %d tag %d", v, tag); B.TakeBuffer(v, tag); R.use[v] = tag; R.tailsent[v] = 0; R.active++; if (R.pol == "dynamic" || R.pol == "shifting") R.maxheld = R.held(); left[v] = rnd(1, 5); check("TakeBuffer"); }
    } else if (!ending && op < 65) {
      int v = rnd(0, R.vcs - 1);
      if (R.use[v] >= 0 && left[v] > 0 && !B.IsFullFor(v)) {
        bool tail = --left[v] == 0;
        note("t=%d send vc %d%s", now_, v, tail ? " tail" : "");
        Flit *f = mk(v, false, tail, id++, v);
        B.SendingFlit(f);
        f->Free();
        R.occ[v]++;
        if (R.resv[v]) R.resv[v]--;
        if (tail) { R.resv[v] = 0; R.tailsent[v] = 1; if (!R.wait) R.use[v] = -1; R.active--; if ((R.pol == "dynamic" || R.pol == "shifting") && R.active) R.maxheld = R.held(); }
        if (R.pol == "feedback") R.sent[v].push_back(now_);
        if (R.pol == "simplefeedback" && R.sent[v].empty()) { R.pend[v] = R.occ[v] - 1; R.sent[v].push_back(now_); }
        down.push_back({v, tail});
        nontriv++;
        check("SendingFlit");
      }
    } else if (!down.empty() && (ending || flip(drain))) {
      // a credit for one flit (the oldest of its VC), sometimes for several VCs at once
      int n = flip(20) ? rnd(1, 3) : 1; std::set<int> vs;
      for (int k = 0; k < n; k++) vs.insert(down[rnd(0, down.size() - 1)].first);
      Credit *c = Credit::New(); c->vc = vs; std::string d;
      for (int v : vs) {
        d += std::to_string(v) + " ";
        for (size_t k = 0; k < down.size(); k++) if (down[k].first == v) { down.erase(down.begin() + k); break; }
      }
      note("t=%d credit %s", now_, d.c_str());
      B.ProcessCredit(c); c->Free();
      for (int v : vs) {
        R.occ[v]--;
        if (R.wait && !R.occ[v] && R.tailsent[v]) R.use[v] = -1;
        if (R.shared() && R.use[v] >= 0 && R.occ[v] == 0) R.resv[v]++;
        bool probe = R.pol == "feedback" || (R.pol == "simplefeedback" && !R.sent[v].empty() && R.pend[v] == 0);
        if (probe) { int l = now_ - R.sent[v].front(); R.sent[v].pop_front(); R.rtt[v] = R.est(v, l); R.limit[v] = R.lim_of(R.rtt[v]); }
        else if (R.pol == "simplefeedback" && R.pend[v] > 0) R.pend[v]--;
      }
      check("ProcessCredit");
    }
    ev++;
  }
  for (int v = 0; v < R.vcs; v++) CHECK(R.use[v] < 0 || left[v] > 0 || B.IsAvailableFor(v), "VC %d stays taken after its packet and credits are gone", v);
  sample(trace().substr(0, 300));
}

// ---- channels
template <class T, class C> static void channel(C &ch, std::function<T *()> mkT, const char *name, std::function<void()> tr) {
  int d = rnd(1, 12); ch.SetLatency(d); now_ = rnd(0, 1000);
  note("%s delay %d", name, d);
  std::deque<std::pair<int, T *>> exp;
  int dens = rnd(5, 100), n = rnd(10, 120);
  for (int c = 0; c < n; c++, now_++) {
    T *in = nullptr;
    if (c < n - d && flip(dens)) { in = mkT(); note("t=%d send", now_); }
    if (in || flip()) ch.Send(in);
    if (in) { exp.push_back({now_ + d - 1, in}); nontriv++; }
    ch.ReadInputs(); ch.Evaluate(); ch.WriteOutputs();
    T *o = ch.Receive();
    T *want = nullptr;
    if (!exp.empty() && exp.front().first == now_) { want = exp.front().second; exp.pop_front(); }
    CHECK(o == want, "%s: at cycle %d %s, expected %s", name, now_, o ? (want ? "another item came out" : "an item came out early or twice") : "nothing came out", want ? "the item sent delay cycles before" : "nothing");
    ev++;
  }
  CHECK(exp.empty(), "%s: an item never came out", name);
}

// ---- VC queues and input buffer
static void buffers() {
  Nul root; clear(); now_ = rnd(0, 1000);
  BookSimConfig cfg; int vcs = rnd(1, 5), vb = rnd(1, 5);
  const char *pr[] = {"none", "local_age", "queue_length", "hop_count", "age"};
  const char *p = pr[rnd(0, 4)]; bool don = flip();
  cfg.Assign("num_vcs", vcs); cfg.Assign("vc_buf_size", vb); cfg.Assign("priority", std::string(p)); cfg.Assign("vc_priority_donation", don ? 1 : 0);
  int size = vcs * vb;
  if (flip(30)) { size = rnd(1, 20); cfg.Assign("buf_size", size); }
  Buffer B(cfg, 5, &root, "buf");
  note("buffer vcs %d size %d priority %s donation %d", vcs, size, p, don);
  std::vector<std::deque<Flit *>> q(vcs); std::vector<int> left(vcs, 0), pid(vcs, -1); int tot = 0, ids = 0, pids = 0;
  for (int s = rnd(5, 200); s--; now_ += flip()) {
    int v = rnd(0, vcs - 1);
    if (flip() && tot < size) {
      bool head = left[v] == 0; if (head) { left[v] = rnd(1, 4); pid[v] = pids++; }
      Flit *f = mk(v, head, --left[v] == 0, ids++, pid[v]); f->pri = rnd(0, 4);
      int id = f->id, h = f->hops, dst = f->dest; void *dt = f->data;
      note("add vc %d pid %d %s%s", v, f->pid, f->head ? "H" : "", f->tail ? "T" : "");
      B.AddFlit(v, f); q[v].push_back(f); tot++; nontriv++;
      CHECK(f->id == id && f->hops == h && f->dest == dst && f->data == dt && f->vc == v, "AddFlit changed the flit");
    } else if (!q[v].empty()) { note("remove vc %d", v); Flit *f = B.RemoveFlit(v); CHECK(f == q[v].front(), "VC %d: RemoveFlit did not return the oldest flit", v); q[v].pop_front(); tot--; f->Free(); }
    CHECK(B.GetOccupancy() == tot, "buffer occupancy %d with %d flits", B.GetOccupancy(), tot);
    CHECK(B.Full() == (tot >= size), "Full() %d with %d of %d slots used", B.Full(), tot, size);
    for (int u = 0; u < vcs; u++) {
      CHECK(B.Empty(u) == q[u].empty(), "VC %d: Empty() wrong", u);
      CHECK(B.GetOccupancy(u) == (int)q[u].size(), "VC %d: occupancy %d with %d flits", u, B.GetOccupancy(u), (int)q[u].size());
      CHECK(B.FrontFlit(u) == (q[u].empty() ? nullptr : q[u].front()), "VC %d: FrontFlit is not the oldest flit", u);
      if (!q[u].empty() && u == v) {
        int want = 0;
        if (!strcmp(p, "queue_length")) want = q[u].size();
        else if (strcmp(p, "none")) { want = q[u].front()->pri; if (strcmp(p, "local_age") && don) for (Flit *g : q[u]) want = std::max(want, g->pri); }
        CHECK(B.GetPriority(u) == want, "VC %d: priority %d, expected %d", u, B.GetPriority(u), want);
      }
    }
    ev++;
  }
  // overfull buffers and interleaved packets are reported, never silently accepted
  if (flip(3)) {
    fflush(stdout);
    bool over = flip();
    pid_t c = fork();
    if (!c) {
      if (!freopen("/dev/null", "w", stdout)) _exit(1);
      signal(SIGABRT, SIG_DFL);
      BookSimConfig c2; c2.Assign("num_vcs", 1); c2.Assign("vc_buf_size", 3); c2.Assign("buf_size", -1);
      Buffer b2(c2, 5, &root, "b2");
      if (over) for (int k = 0; k < 4; k++) b2.AddFlit(0, mk(0, true, true, k, k)); else { b2.AddFlit(0, mk(0, true, false, 0, 7)); b2.AddFlit(0, mk(0, true, false, 1, 8)); }
      _exit(42);
    }
    int st; waitpid(c, &st, 0);
    CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 42), over ? "a flit was accepted by a full buffer" : "flits of two packets were interleaved in one VC");
  }
}
int main(int argc, char **argv) {
  init();
  bool cr = argc > 1 && !strcmp(argv[1], "credits");
  while (more()) {
    if (cr) { credits(); continue; }
    { Nul root; clear(); FlitChannel fc(&root, "link", 2); int n = 0; channel<Flit>(fc, [&] { Flit *f = mk(0, true, true, n, n); n++; f->cl = rnd(0, 1); return f; }, "flit channel", [] {}); }
    { Nul root; clear(); Channel<Credit> cc(&root, "credit"); channel<Credit>(cc, [] { return Credit::New(); }, "credit channel", [] {}); }
    buffers();
  }
  stat("evaluations", ev); stat("nontrivial", nontriv);
}
