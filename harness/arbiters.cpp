// arbiters against an independent reference: priority first, then rotating / least-recently-served order
#include "h.hpp"
#include "arbiter.hpp"
using namespace H;
struct Ref {           // reference arbiter: an order list, front served first
  bool rr; int n; std::vector<int> ord;  // least recently served order for matrix
  int ptr = 0;
  Ref(bool rr, int n) : rr(rr), n(n) { for (int i = 0; i < n; i++) ord.push_back(rr ? i : n - 1 - i); }
  int pick(const std::vector<int> &pri, const std::vector<bool> &v) {
    int best = -1;
    for (int k = 0; k < n; k++) { int i = rr ? (ptr + k) % n : ord[k]; if (v[i] && (best < 0 || pri[i] > pri[best])) best = i; }
    return best;
  }
  void served(int w) {
    if (w < 0) return;
    if (rr) ptr = (w + 1) % n; else { ord.erase(std::find(ord.begin(), ord.end(), w)); ord.push_back(w); }
  }
};
struct Nul : Module { Nul() : Module(0, "root") {} };
int main() {
  init();
  long evals = 0, nontriv = 0;
  const char *types[] = {"round_robin", "matrix", "tree(2,round_robin)", "tree(2,matrix)", "tree(3,round_robin)", "tree(4,matrix)", "tree(1,matrix)"};
  int groups[] = {0, 0, 2, 2, 3, 4, 1};
  while (more()) {
    Nul root;
    clear();
    int ty = rnd(0, 6);
    if (flip(60)) ty = rnd(0, 1);
    int g = groups[ty], n = g ? g * rnd(1, 4) : rnd(1, flip(10) ? 40 : 9);
    bool rr = std::string(types[ty]).find("round") != std::string::npos;
    Arbiter *a = Arbiter::NewArbiter(&root, "a", types[ty], n);
    note("%s size %d", types[ty], n);
    int gs = g ? n / g : n;
    std::vector<Ref> grp; for (int i = 0; i < (g ? g : 1); i++) grp.push_back(Ref(rr, gs));
    Ref glob(rr, g ? g : 1);
    int steps = rnd(1, 60), prange = flip() ? 0 : rnd(1, 3);
    for (int s = 0; s < steps; s++) {
      std::vector<bool> v(n, false); std::vector<int> pri(n, 0), id(n, 0);
      int dens = rnd(0, 100);
      std::vector<int> perm(n); for (int i = 0; i < n; i++) perm[i] = i;
      std::shuffle(perm.begin(), perm.end(), rng());
      int reqs = 0;
      std::string line;
      for (int i : perm) if (flip(dens)) { v[i] = true; pri[i] = rnd(-prange, prange); id[i] = rnd(-5, 1000); a->AddRequest(i, id[i], pri[i]); reqs++; line += " " + std::to_string(i) + "@" + std::to_string(pri[i]); }
      bool ptrs = flip(80);
      int rid = -777, rpri = -777;
      int w = ptrs ? a->Arbitrate(&rid, &rpri) : a->Arbitrate();
      note("step %d requests%s -> winner %d", s, line.c_str(), w);
      evals++;
      // expected
      int ew = -1, eg = 0;
      if (reqs) {
        if (!g) ew = grp[0].pick(pri, v);
        else {
          std::vector<bool> gv(g, false); std::vector<int> gp(g, 0), gw(g, -1);
          for (int k = 0; k < g; k++) {
            std::vector<bool> sv(v.begin() + k * gs, v.begin() + (k + 1) * gs); std::vector<int> sp(pri.begin() + k * gs, pri.begin() + (k + 1) * gs);
            gw[k] = grp[k].pick(sp, sv);
            if (gw[k] >= 0) { gv[k] = true; gp[k] = sp[gw[k]]; }
          }
          eg = glob.pick(gp, gv);
          ew = eg * gs + gw[eg];
        }
        if (reqs > 1) nontriv++;
      }
      CHECK(w == ew, "arbiter granted %d, expected %d (top priority, then %s order)", w, ew, rr ? "rotating" : "least-recently-served");
      if (w >= 0) {
        CHECK(v[w], "winner %d had not requested", w);
        if (ptrs) CHECK(rid == id[w] && rpri == pri[w], "id/priority of the winner misreported: %d/%d instead of %d/%d", rid, rpri, id[w], pri[w]);
        CHECK(a->LastWinner() == w, "last winner %d is not the winner %d", a->LastWinner(), w);
      }
      if (flip(80)) {
        if (reqs) { a->UpdateState(); note("update"); if (g) { grp[eg].served(ew % gs); glob.served(eg); } else grp[0].served(ew); }
      }
      a->Clear();
      CHECK(a->_num_reqs == 0, "requests survive Clear");
    }
    if (evals < 2000) sample(trace().substr(0, 300));
    delete a;
  }
  stat("evaluations", evals); stat("nontrivial", nontriv);
}
