// Runs the real DRAMsim3 (JedecDRAMSystem and everything below it) on random configurations and random traffic.
//   timing: an independent checker replays the command trace of every channel against the delays of the configuration
//   trans:  every accepted transaction is called back exactly once, reads no earlier than the memory allows
//   map:    address -> (channel, rank, group, bank, row, column) is one to one onto the configured memory
#include "h.hpp"
#include <array>
#include "dram_system.h"
#include "configuration.h"
#include <fstream>
#include <sstream>
#include <iostream>
using namespace dramsim3;
using H::rnd; using H::flip;
static std::string dir;
template <class T> static T pick(std::vector<T> v) { return v[rnd(0, v.size() - 1)]; }
struct Sink : std::streambuf { int overflow(int c) override { return c; } } sink;

static std::string ini() {
    std::ostringstream o;
    std::string pr = pick<std::string>({"DDR3", "DDR4", "GDDR5", "GDDR6", "LPDDR4", "HBM", "HBM2"});
    int bl = pr == "GDDR6" ? 16 : pr[0] == 'H' ? pick<int>({4, 8}) : pick<int>({8, 16});
    o << "[dram_structure]\nprotocol=" << pr << "\nbankgroups=" << pick<int>({1, 2, 4}) << "\nbanks_per_group=" << pick<int>({2, 4}) << "\nrows=" << pick<int>({8192, 16384, 32768, 65536}) << "\ncolumns=" << pick<int>({128, 512, 1024})
      << "\ndevice_width=" << pick<int>({8, 16, 32}) << "\nBL=" << bl << "\nhbm_dual_cmd=" << (flip() ? "true" : "false") << "\nbankgroup_enable=" << (flip(80) ? "true" : "false") << "\n";
    auto d = [&](const char *n, long lo, long hi) { o << n << "=" << rnd(lo, hi) << "\n"; };
    o << "[timing]\ntCK=1\n";
    d("AL", 0, 2); d("CL", 4, 14); d("CWL", 4, 10); d("tCCD_L", 2, 8); d("tCCD_S", 2, 6); d("tRTRS", 1, 3); d("tRTP", 2, 8); d("tWTR_L", 2, 9); d("tWTR_S", 2, 7); d("tWR", 3, 15); d("tRP", 3, 14); d("tRRD_L", 2, 7); d("tRRD_S", 1, 5); d("tRAS", 8, 30);
    d("tRCD", 4, 14); d("tRFC", 20, 90); d("tCKE", 3, 8); d("tCKESR", 8, 30); d("tXS", 20, 120); d("tXP", 4, 10); d("tRFCb", 10, 50); long refi = rnd(300, 900); o << "tREFI=" << refi << "\n"; d("tREFIb", 300, 700); d("tFAW", 8, 50); d("t32AW", 100, 400); d("tPPD", 1, 4); d("tRCDRD", 4, 24); d("tRCDWR", 4, 20); d("tRPRE", 1, 2); d("tWPRE", 1, 2);
    std::vector<std::string> f = {"ch", "ra", "bg", "ba", "ro", "co"};
    std::shuffle(f.begin(), f.end(), H::rng());
    o << "[system]\nchannel_size=" << pick<int>({64, 256, 1024, 4096, 16384}) << "\nchannels=" << pick<int>({1, 2, 4}) << "\nbus_width=" << pick<int>({32, 64, 128}) << "\naddress_mapping=";
    for (auto &x : f) o << x;
    o << "\nqueue_structure=" << (flip() ? "PER_BANK" : "PER_RANK") << "\nrow_buf_policy=" << (flip() ? "OPEN_PAGE" : "CLOSE_PAGE") << "\ncmd_queue_size=" << rnd(1, 10) << "\ntrans_queue_size=" << rnd(1, 40) << "\nunified_queue=" << (flip() ? "true" : "false")
      << "\nrefresh_policy=" << pick<std::string>({"RANK_LEVEL_STAGGERED", "RANK_LEVEL_SIMULTANEOUS", "BANK_LEVEL_STAGGERED"}) << "\nenable_self_refresh=" << (flip(40) ? "true" : "false") << "\nsref_threshold=" << (flip() ? rnd(5, 300) : refi + rnd(0, 40))
      << "\n[other]\nepoch_period=100000000\noutput_level=0\n[power]\nVDD=1.2\n";
    return o.str();
}

// the configuration needs at least one megabyte per bank
static bool tiny(const std::string &t) {
    auto g = [&](const char *k) { return atol(t.c_str() + t.find(std::string("\n") + k + "=") + strlen(k) + 2); };
    return g("columns") * g("device_width") / 8 * (g("rows") / 1024) / 1024 < 1;
}

enum { RD, RDP, WR, WRP, ACT, PRE, REFB, REF, SRE, SRX, NC };
static const char *NM[] = {"read", "read_p", "write", "write_p", "activate", "precharge", "refresh_bank", "refresh", "self_refresh_enter", "self_refresh_exit"};
struct Bank { long at[NC]; bool open = false; long row = -1; Bank() { for (auto &x : at) x = -1; } };
struct Checker {
    const Config &c;
    int ch;
    std::vector<Bank> b;                        // [rank][group][bank]
    std::vector<std::vector<long>> acts, refs;  // per rank
    std::vector<bool> sref;
    long ncmd = 0, kind[NC] = {0};
    Checker(const Config &c, int ch) : c(c), ch(ch), b(c.ranks * c.banks), acts(c.ranks), refs(c.ranks), sref(c.ranks, false) {}
    static bool r(int t) { return t == RD || t == RDP; }
    static bool w(int t) { return t == WR || t == WRP; }
    // the standard's least distance from p (at another or the same bank) to t; -1: none. same: 0 bank, 1 group, 2 rank, 3 other rank
    long need(int p, int t, int same) const {
        bool g = c.IsGDDR(), own = g || c.IsHBM();
        long bc = c.burst_cycle, RL = c.AL + c.CL, WL = c.AL + c.CWL;
        bool L = same < 2 && c.bankgroups > 1;
        long ccd = L ? c.tCCD_L : c.tCCD_S, wtr = L ? c.tWTR_L : c.tWTR_S, rrd = L ? c.tRRD_L : c.tRRD_S;
        bool shut = t == ACT || t == REF || t == REFB || t == SRE;
        if (same == 3) {
            if (r(p) && r(t)) return bc + c.tRTRS;
            if (r(p) && w(t)) return RL + bc + c.tRTRS - WL;
            if (w(p) && r(t)) return WL + bc + c.tRTRS - RL;
            if (w(p) && w(t)) return bc;
            return -1;
        }
        if (p == REF) return t == ACT || t == REF || t == SRE ? c.tRFC : -1;
        if (p == SRE) return t == SRX ? c.tCKESR : -1;
        if (p == SRX) return shut ? c.tXS : -1;
        if (r(p) && r(t)) return std::max(bc, ccd);
        if (r(p) && w(t)) return RL + bc - WL + c.tRTRS;
        if (w(p) && r(t)) return WL + bc + wtr;
        if (w(p) && w(t)) return std::max(bc, ccd);
        if (same == 0) {
            if (p == RD && t == PRE) return c.AL + c.tRTP;
            if (p == WR && t == PRE) return WL + bc + c.tWR;
            if (p == RDP && shut) return c.AL + c.tRTP + c.tRP;
            if (p == WRP && shut) return WL + bc + c.tWR + c.tRP;
            if (p == PRE && shut) return c.tRP;
            if (p == ACT && t == ACT) return c.tRAS + c.tRP;
            if (p == ACT && r(t)) return own ? c.tRCDRD : c.tRCD - c.AL;
            if (p == ACT && w(t)) return own ? c.tRCDWR : c.tRCD - c.AL;
            if (p == ACT && t == PRE) return c.tRAS;
            if (p == REFB && shut) return c.tRFCb;
        } else {
            if (p == ACT && t == ACT) return rrd;
            if (p == PRE && t == PRE && (g || c.protocol == DRAMProtocol::LPDDR4)) return c.tPPD;
        }
        return -1;
    }
    void step(long clk, int t, int rk, int bg, int ba, long row) {
        ncmd++; kind[t]++;
        bool rank = t == REF || t == SRE || t == SRX;
        CHECK(rk >= 0 && rk < c.ranks && (rank || (bg >= 0 && bg < c.bankgroups && ba >= 0 && ba < c.banks_per_group)), "channel %d: command %s outside the memory at %ld", ch, NM[t], clk);
        int x = (rk * c.bankgroups + bg) * c.banks_per_group + ba;
        auto legal = [&](int y) {
            Bank &q = b[y];
            CHECK(t == SRX || !sref[rk], "channel %d rank %d: %s at %ld in self-refresh", ch, rk, NM[t], clk);
            if (r(t) || w(t)) CHECK(q.open && q.row == row, "channel %d: %s of row %ld at %ld in bank %d, open row %ld", ch, NM[t], row, clk, y, q.open ? q.row : -1L);
            else if (t == PRE) CHECK(q.open, "channel %d: precharge of a closed bank at %ld", ch, clk);
            else if (t == SRX) CHECK(sref[rk], "channel %d: self-refresh exit outside self-refresh at %ld", ch, clk);
            else CHECK(!q.open, "channel %d: %s at %ld while bank %d is open", ch, NM[t], clk, y);
        };
        for (int y = 0; y < (int)b.size(); y++) {
            int yr = y / c.banks, yg = y / c.banks_per_group % c.bankgroups;
            bool mine = rank ? yr == rk : y == x;
            if (mine) legal(y);
            for (int p = 0; p < NC; p++) {
                if (b[y].at[p] < 0) continue;
                bool prank = p == REF || p == SRE || p == SRX;
                int same = yr != rk ? 3 : (mine || prank) ? 0 : (yg == bg && !rank) ? 1 : 2;
                if (rank && yr == rk) same = 0;
                if (prank && yr != rk) continue;
                if (rank && yr != rk) continue;
                long n = need(p, t, same);
                CHECK(n < 0 || clk - b[y].at[p] >= n, "channel %d: %s at %ld only %ld cycles after %s (at %ld, bank %d; this bank %d), the least distance is %ld", ch, NM[t], clk, clk - b[y].at[p], NM[p], b[y].at[p], y, x, n);
            }
        }
        if (t == ACT) {
            auto &a = acts[rk];
            if (a.size() >= 4) CHECK(clk - a[a.size() - 4] >= c.tFAW, "channel %d rank %d: five activations within %ld < tFAW at %ld", ch, rk, clk - a[a.size() - 4], clk);
            if (c.IsGDDR() && a.size() >= 32) CHECK(clk - a[a.size() - 32] >= c.t32AW, "channel %d rank %d: 33 activations within t32AW at %ld", ch, rk, clk);
            a.push_back(clk);
        }
        if (t == REF) refs[rk].push_back(clk);
        for (int y = 0; y < (int)b.size(); y++) {
            if (!(rank ? y / c.banks == rk : y == x)) continue;
            b[y].at[t] = clk;
            if (t == ACT) b[y].open = true, b[y].row = row;
            if (t == PRE || t == RDP || t == WRP) b[y].open = false;
        }
        if (t == SRE) sref[rk] = true;
        if (t == SRX) sref[rk] = false;
    }
};
static long stat_cmds = 0, stat_trans = 0, stat_kind[NC];

static void run(bool timing) {
    H::clear();
    std::string text = ini();
    H::note("%s", text.c_str());
    std::ofstream(dir + "/c.ini") << text;
    if (tiny(text)) return;
    Config cfg(dir + "/c.ini", dir, 0);
    if (cfg.ranks < 1 || cfg.ranks > 8) return;
    if (cfg.RL + cfg.burst_cycle - cfg.WL + cfg.tRTRS < 1 || cfg.write_delay + cfg.burst_cycle + cfg.tRTRS - cfg.read_delay < 1 || cfg.read_delay + cfg.burst_cycle + cfg.tRTRS - cfg.write_delay < 1 || cfg.burst_cycle < 1 || cfg.tRCD - cfg.AL < 1) return;
    std::map<uint64_t, long> wantr, wantw;
    std::map<uint64_t, long> lastr;
    long clk = 0, outstanding = 0;
    std::map<std::pair<int, uint64_t>, std::vector<long>> pend;
    auto done = [&](int wr, uint64_t a) {
        auto &v = pend[{wr, a}];
        CHECK(!v.empty(), "clock %ld: callback for a %s of %lx that is not outstanding", clk, wr ? "write" : "read", a);
        CHECK(clk > v.front(), "clock %ld: %s of %lx answered in the cycle it was accepted", clk, wr ? "write" : "read", a);
        v.erase(v.begin());
        outstanding--;
        stat_trans++;
    };
    JedecDRAMSystem sys(cfg, dir, [&](uint64_t a) { done(0, a); }, [&](uint64_t a) { done(1, a); });
    std::vector<Checker> ck;
    std::vector<std::stringbuf *> bufs;
    for (int i = 0; i < cfg.channels; i++) { ck.emplace_back(cfg, i); bufs.push_back(new std::stringbuf(std::ios::out)); static_cast<std::basic_ios<char> &>(sys.ctrls_[i]->cmd_trace_).rdbuf(bufs.back()); }
    using Place = std::array<long, 6>;
    auto place = [&](uint64_t a) { Address d = cfg.AddressMapping(a); return Place{d.channel, d.rank, d.bankgroup, d.bank, d.row, d.column}; };
    std::map<Place, std::vector<long>> prd;   // reads that no write supplies, by place
    std::map<Place, long> pwr;                // the pending write of a place
    long N = rnd(1500, 6000), cap = (long)cfg.channels << LogBase2(cfg.ranks) << LogBase2(cfg.banks) << LogBase2(cfg.rows) << (LogBase2(cfg.columns) - LogBase2(cfg.BL));
    int rate = pick<int>({2, 10, 40, 100}), wr = pick<int>({0, 20, 50, 90}), loc = pick<int>({0, 50, 95});
    std::vector<uint64_t> hot;
    for (int i = 0; i < 12; i++) hot.push_back((uint64_t)(H::rng()() % cap) << cfg.shift_bits);
    long idle0 = flip() ? rnd(0, N) : N, idle1 = idle0 + rnd(50, 1500);
    uint64_t cur = hot[0];
    long drain = N + 40000;
    int step = 0;
    for (clk = 0; clk < drain; clk++) {
        if (clk < N && !(clk >= idle0 && clk < idle1) && flip(rate)) {
            cur = flip(loc) ? (flip() ? hot[rnd(0, 11)] : cur + (1ul << cfg.shift_bits)) : (uint64_t)(H::rng()() % cap) << cfg.shift_bits;
            cur %= (uint64_t)cap << cfg.shift_bits;
            bool w = flip(wr);
            if (sys.WillAcceptTransaction(cur, w)) {
                pend[{w, cur}].push_back(clk);
                outstanding++;
                if (H::trace().size() < 200000 && clk < 400) H::note("clock %ld: accept %s %lx", clk, w ? "write" : "read", cur);
                CHECK(sys.AddTransaction(cur, w), "an accepted transaction was refused");
                if (w) pwr.emplace(place(cur), clk);
                else if (!pwr.count(place(cur))) prd[place(cur)].push_back(clk);
            }
        }
        sys.ClockTick();
        for (int i = 0; i < cfg.channels; i++) {
            std::string s = bufs[i]->str();
            if (s.empty()) continue;
            bufs[i]->str("");
            std::istringstream is(s);
            std::string l;
            while (std::getline(is, l)) {
                std::istringstream q(l);
                long at, chn, rk, bg, ba; std::string nm, row, col;
                q >> at >> nm >> chn >> rk >> bg >> ba >> row >> col;
                int t = std::find_if(NM, NM + NC, [&](const char *n) { return nm == n; }) - NM;
                CHECK(t < NC, "unknown command %s", nm.c_str());
                CHECK(at == clk, "command traced at %ld in cycle %ld", at, clk);
                if (H::trace().size() < 400000) H::note("%s", l.c_str());
                if (!timing) {
                    Place pl{chn, rk, bg, ba, strtol(row.c_str(), 0, 16), strtol(col.c_str(), 0, 16)};
                    if (t == RD || t == RDP) {
                        CHECK(!prd[pl].empty(), "clock %ld: %s for which no read is pending", clk, l.c_str());
                        prd.erase(pl);
                    }
                    if (t == WR || t == WRP) {
                        CHECK(pwr.count(pl), "clock %ld: %s for which no write is pending", clk, l.c_str());
                        CHECK(!prd.count(pl), "clock %ld: %s overtakes a read of the same place accepted at %ld", clk, l.c_str(), prd[pl].front());
                        pwr.erase(pl);
                    }
                    continue;
                }
                ck[i].step(at, t, rk, bg, ba, strtol(row.c_str(), 0, 16));
            }
        }
        if (clk >= N && outstanding == 0 && clk > N + 3000) break;
    }
    CHECK(outstanding == 0, "%ld accepted transactions were never answered", outstanding);
    for (auto &c : ck) {
        stat_cmds += c.ncmd;
        for (int t = 0; t < NC; t++) stat_kind[t] += c.kind[t];
        if (timing && !cfg.enable_self_refresh && cfg.refresh_policy == RefreshPolicy::BANK_LEVEL_STAGGERED)
            CHECK(c.kind[REFB] >= clk / cfg.tREFIb - 2, "channel %d: %ld bank refreshes in %ld cycles (tREFIb %d)", c.ch, c.kind[REFB], clk, cfg.tREFIb);
        if (timing && !cfg.enable_self_refresh && cfg.refresh_policy != RefreshPolicy::BANK_LEVEL_STAGGERED)
            for (int rk = 0; rk < cfg.ranks; rk++) {
                long due = clk / cfg.tREFI;
                CHECK((long)c.refs[rk].size() >= due - 2, "channel %d rank %d was refreshed %ld times in %ld cycles (tREFI %d)", c.ch, rk, (long)c.refs[rk].size(), clk, cfg.tREFI);
            }
    }
    if (!timing) CHECK(prd.empty(), "%d reads were accepted and never issued", (int)prd.size());
    for (auto p : bufs) delete p;
}

static void map_() {
    H::clear();
    std::string text = ini();
    H::note("%s", text.c_str());
    std::ofstream(dir + "/c.ini") << text;
    if (tiny(text)) return;
    Config cfg(dir + "/c.ini", dir, 0);
    long bits = LogBase2(cfg.channels) + LogBase2(cfg.ranks) + LogBase2(cfg.bankgroups) + LogBase2(cfg.banks_per_group) + LogBase2(cfg.rows) + LogBase2(cfg.columns) - LogBase2(cfg.BL);
    int line = cfg.bus_width / 8 * cfg.BL;
    std::map<std::string, uint64_t> seen;
    auto key = [&](uint64_t a) {
        Address d = cfg.AddressMapping(a);
        CHECK(d.channel >= 0 && d.channel < cfg.channels && d.rank >= 0 && d.rank < std::max(1 << LogBase2(cfg.ranks), cfg.ranks) && d.bankgroup >= 0 && d.bankgroup < cfg.bankgroups && d.bank >= 0 && d.bank < cfg.banks_per_group && d.row >= 0 && d.row < cfg.rows && d.column >= 0 && d.column < cfg.columns / cfg.BL, "address %lx maps outside the memory", a);
        char b[200];
        snprintf(b, 200, "%d %d %d %d %d %d", d.channel, d.rank, d.bankgroup, d.bank, d.row, d.column);
        return std::string(b);
    };
    std::set<std::string> singles;
    uint64_t base = (H::rng()() & ((1ul << bits) - 1)) * line;
    for (int i = 0; i < bits; i++) CHECK(singles.insert(key(base ^ ((uint64_t)line << i))).second, "two addresses differing in one line bit (bit %d) map to the same place", i);
    for (int i = 0; i < 300; i++) {
        uint64_t a = (H::rng()() & ((1ul << bits) - 1)) * line;
        auto k = key(a);
        CHECK(key(a + rnd(0, line - 1)) == k, "two bytes of one line (%lx) map to different places", a);
        auto it = seen.find(k);
        CHECK(it == seen.end() || it->second == a, "%lx and %lx map to the same place %s", a, it->second, k.c_str());
        seen[k] = a;
    }
    stat_trans += 300;
}

static bool finished = false;
int main(int c, char **v) {
    H::init();
    H::trace(); atexit([] { if (!finished) H::fail("the simulator stopped (AbruptExit)"); });
    std::string mode = c > 1 ? v[1] : "timing";
    char t[] = "./dramXXXXXX";
    dir = mkdtemp(t);
    std::cout.rdbuf(&sink);
    long n = 0;
    while (H::more() || !n) {
        if (mode == "map") map_(); else run(mode == "timing");
        n++;
        if (n <= 5) H::sample(H::trace().substr(0, 300));
    }
    H::stat("configurations", n); H::stat("transactions", stat_trans); H::stat("commands", stat_cmds);
    for (int i = 0; i < NC; i++) if (mode == "timing") H::stat(NM[i], stat_kind[i]);
    if (system(("rm -rf " + dir).c_str())) {}
    finished = true;
    return 0;
}
