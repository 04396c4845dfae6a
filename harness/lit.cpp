// Runs the litmus programs linked with it under the engine and prints every distinct outcome.
#include "lit.hpp"
#include <cstdio>
#include <cstdlib>
#include <string>
#include <iostream>
#include <sstream>
#include <algorithm>
#include <unordered_map>
std::vector<LitProg>& lit_progs() { static auto& p = *new std::vector<LitProg>; return p; }
static const int MAXS = 64; static int rv[MAXS], rf[MAXS]; static int nslot;
void lit_put(int s, int v, int f) { rv[s] = v; rf[s] = f; if (s >= nslot) nslot = s + 1; }
volatile int lit_tick;
static LitProg* L;
static void fiber(void* a) {
    L->fn[(long)a]();
    if (eng_shared_inc() == L->nt) { L->fin(); std::string o; for (int i = 0; i < nslot; ++i) o += (i ? ",[" : "[") + std::to_string(rv[i]) + "," + std::to_string(rf[i]) + "]"; eng_ev("{\"k\":\"res\",\"r\":[%s]}", o.c_str()); }
}
static void setup(void*) { for (int i = 0; i < MAXS; ++i) rf[i] = 9; for (long i = 0; i < L->nt; ++i) eng_spawn(fiber, (void*)i, 0, 0); }
static eng_result* R; static long nruns, npoints;
static std::unordered_map<std::string, std::pair<long, std::string>>& seen = *new std::unordered_map<std::string, std::pair<long, std::string>>;
static int one(const char* how) {
    int st = eng_run(setup, 0); ++nruns; npoints += R->points; if (st == ST_OVERFLOW) { fprintf(stderr, "overflow in %s: %s\n", L->id, R->log); exit(4); }
    std::string res, x; char* p = R->log; char* e = p + R->len;
    while (p < e) { char* n = (char*)memchr(p, '\n', e - p); if (!n) n = e; std::string l(p, n - p); p = n + 1;
        if (l.compare(0, 10, "{\"k\":\"res\"") == 0) res = l.substr(11, l.size() - 12);
        else if (l.compare(0, 8, "{\"k\":\"t\"") && l.compare(0, 8, "{\"k\":\"q\"")) { if (!x.empty()) x += ","; x += l; } }
    if (res.empty()) { res = "\"r\":[]"; if (x.empty()) x = "{\"k\":\"quiet\"}"; }
    std::string key = res + ",\"x\":[" + x + "]"; auto& s = seen[key];
    if (!s.first++) { char b[300]; int n = snprintf(b, sizeof b, "%s m%d perm%u seed%u flush%.2f", how, eng_o.mode, eng_o.perm, eng_o.seed, eng_o.pflush); for (int i = 0; i < eng_o.nplan; ++i) n += snprintf(b + n, sizeof b - n, " %ld>%d", eng_o.plan[i].idx, eng_o.plan[i].tid); s.second = b; }
    return st;
}
static uint64_t rs; static unsigned rr(unsigned n) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (unsigned)((rs >> 20) % (n ? n : 1)); }
int main(int argc, char** argv) {
    if (argc < 7) return 3;
    R = eng_init(argv[1], 1 << 20); bool tso = strchr(argv[2], 't'), wmm = strchr(argv[2], 'w'); int seed = atoi(argv[3]); long c1 = atol(argv[4]), rnd = atol(argv[5]); int nperm = atoi(argv[6]);
    std::unordered_map<std::string, LitProg*> by; for (auto& l : lit_progs()) by[l.id] = &l;
    std::string id;
    while (std::cin >> id) {
        auto it = by.find(id); if (it == by.end()) { fprintf(stderr, "no program %s\n", id.c_str()); return 3; }
        L = it->second; seen.clear(); nruns = npoints = 0; rs = 0x9E3779B97F4A7C15ull * (uint64_t)(seed + 1) ^ std::hash<std::string>()(id); for (int i = 0; i < 8; ++i) rr(2);
        int n = L->nt, np = 1; for (int i = 2; i <= n; ++i) np *= i;
        std::vector<int> perms; for (int i = 0; i < np; ++i) perms.push_back(i); for (int i = np - 1; i > 0; --i) std::swap(perms[i], perms[rr(i + 1)]); if ((int)perms.size() > nperm) perms.resize(nperm);
        auto reset = [&] { memset(&eng_o, 0, sizeof eng_o); eng_o.tso = tso; eng_o.wmm = wmm; eng_o.pold = wmm ? 0.5 : 0; eng_o.seed = rr(1u << 30); eng_o.runlim = 60; eng_o.maxpoints = 20000; };
        std::vector<long> pts; std::vector<std::array<long, 3>> all;
        for (int p : perms) { reset(); eng_o.perm = p; one("base"); for (long x = 0; x < R->points; ++x) for (int t = 1; t <= n; ++t) all.push_back({(long)p, x, t}); }
        long lim = std::min<long>(c1, all.size()); static const double pf[4] = { 0, 0.03, 0.1, 0.4 }; static const double ps[4] = { 0.05, 0.2, 0.5, 0.8 };
        for (long k = 0; k < lim; ++k) { std::swap(all[k], all[k + rr((unsigned)(all.size() - k))]); reset(); eng_o.perm = all[k][0]; eng_o.nplan = 1; eng_o.plan[0].idx = all[k][1]; eng_o.plan[0].tid = (int)all[k][2]; if (tso && (k & 1)) eng_o.pflush = pf[rr(4)]; one("c1"); }
        for (long k = 0; k < rnd; ++k) { reset(); eng_o.mode = 1; eng_o.psw = ps[rr(4)]; if (tso) eng_o.pflush = pf[rr(4)]; one("rnd"); }
        for (auto& s : seen) printf("{\"l\":\"%s\",%s,\"n\":%ld,\"how\":\"%s\"}\n", id.c_str(), s.first.c_str(), s.second.first, s.second.second.c_str());
        printf("{\"stat\":1,\"l\":\"%s\",\"runs\":%ld,\"points\":%ld}\n", id.c_str(), nruns, npoints);
    }
    return 0;
}
