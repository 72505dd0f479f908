// C01-C05: strong components, order, restricted decomposition, reversal, memory.
#include "rp.hpp"
#include <opm/utility/graph/tarjan.h>
extern "C" { extern unsigned long long vp_fail_mask; extern int vp_count; extern long vp_live; }

struct G { int n = 0; std::vector<std::vector<int>> adj; size_t *ia = nullptr; int *ja = nullptr; std::vector<size_t> iav; std::vector<int> jav; bool nullja = false;
    ~G() { free(ia); free(ja); }
    void freeze() {
        iav.assign(1, 0); jav.clear();
        for (auto& a : adj) { for (int j : a) jav.push_back(j); iav.push_back(jav.size()); }
        free(ia); free(ja);
        ia = (size_t*) malloc(iav.size() * sizeof *ia); memcpy(ia, iav.data(), iav.size() * sizeof *ia);
        ja = (int*) malloc(jav.size() * sizeof *ja); if (!jav.empty()) memcpy(ja, jav.data(), jav.size() * sizeof *ja);
    }
    bool untouched() const {
        return memcmp(ia, iav.data(), iav.size() * sizeof *ia) == 0 && (jav.empty() || memcmp(ja, jav.data(), jav.size() * sizeof *ja) == 0);
    }
};
static const uint64_t E1 = 2, E2 = 16, E3 = 512, E4 = 65536;
static void shuffle(std::vector<int>& v, Rng& r) { for (int i = int(v.size()) - 1; i > 0; --i) std::swap(v[i], v[r.upto(i + 1)]); }
static void bits(G& g, int n, uint64_t b) { g.n = n; g.adj.assign(n, {}); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (b >> (i * n + j) & 1) g.adj[i].push_back(j); }
static void gen(G& g, uint64_t id, Rng& r) {
    if (id == 0) { g.n = 0; g.adj.clear(); }
    else if ((id -= 1) < E1) bits(g, 1, id);
    else if ((id -= E1) < E2) bits(g, 2, id);
    else if ((id -= E2) < E3) bits(g, 3, id);
    else if ((id -= E3) < E4) bits(g, 4, id * 40503 % E4);
    else {
        int kind = r.chance(1) ? 38 : r.upto(37);
        int n = kind < 25 ? r.in(1, 12) : kind < 37 ? r.in(5, 60) : r.in(900, 2300);
        if (kind >= 37 && r.chance(10)) n = r.in(33000, 140000);
        g.n = n; g.adj.assign(n, {});
        auto add = [&](int a, int b) { g.adj[a].push_back(b); };
        if (kind >= 37) {              // large structured graphs: long cycles, chains, stars
            int nc = r.in(1, 4); int k = r.upto(4);
            std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; if (r.chance(70)) shuffle(p, r);
            if (k == 0) for (int i = 0; i + 1 < n; ++i) add(p[i], p[i + 1]);
            else if (k == 1) { int back = r.chance(50) ? 0 : r.chance(50) ? 100 : 1; for (int i = 1; i < n; ++i) { add(p[0], p[i]); if (r.chance(back)) add(p[i], p[0]); } }
            else { int at = 0; for (int c = 0; c < nc; ++c) { int len = c == nc - 1 ? n - at : std::min(n - at, r.chance(30) ? 1024 : r.in(1, n)); if (len <= 0) break;
                    for (int i = 0; i < len; ++i) add(p[at + i], p[at + (i + 1) % len]); if (at > 0) add(p[r.upto(at)], p[at + r.upto(len)]); at += len; if (at >= n) break; } }
            for (int e = r.upto(n); e > 0 && r.chance(40); --e) { int a = r.upto(n), b = r.upto(n); if (a < b) add(p[a], p[b]); }
        } else {
            int m = r.upto(kind % 3 == 0 ? 3 * n + 1 : n + n / 2 + 2);
            for (int e = 0; e < m; ++e) { int a = r.upto(n), b = r.upto(n); if (kind % 4 == 1 && a > b) std::swap(a, b); add(a, b); if (r.chance(10)) add(a, b); }
            if (r.chance(30)) { int len = r.in(1, n); int off = r.upto(n); for (int i = 0; i < len; ++i) add((off + i) % n, (off + (i + 1) % len) % n); }
        }
    }
    for (auto& a : g.adj) shuffle(a, r);
    g.freeze();
    desc("n=" + str(g.n) + " ia=" + str(g.iav) + " ja=" + str(g.jav) + "\n");
}
static std::vector<char> reach(const std::vector<std::vector<int>>& adj, const std::vector<int>& from) {
    std::vector<char> v(adj.size(), 0); std::vector<int> st;
    for (int s : from) if (!v[s]) { v[s] = 1; st.push_back(s); }
    while (!st.empty()) { int u = st.back(); st.pop_back(); for (int w : adj[u]) if (!v[w]) { v[w] = 1; st.push_back(w); } }
    return v;
}
static std::vector<int> classes(const G& g) {
    std::vector<std::vector<int>> rev(g.n); for (int i = 0; i < g.n; ++i) for (int j : g.adj[i]) rev[j].push_back(i);
    std::vector<int> c(g.n, -1); int k = 0;
    if (g.n > 100) {      // two passes of depth-first search
        std::vector<int> fin, st; std::vector<size_t> at(g.n, 0); std::vector<char> seen(g.n, 0);
        for (int s = 0; s < g.n; ++s) if (!seen[s]) { seen[s] = 1; st.push_back(s);
            while (!st.empty()) { int u = st.back(); if (at[u] < g.adj[u].size()) { int w = g.adj[u][at[u]++]; if (!seen[w]) { seen[w] = 1; st.push_back(w); } } else { fin.push_back(u); st.pop_back(); } } }
        for (size_t i = fin.size(); i-- > 0; ) if (c[fin[i]] < 0) { c[fin[i]] = k; st.push_back(fin[i]); while (!st.empty()) { int u = st.back(); st.pop_back(); for (int w : rev[u]) if (c[w] < 0) { c[w] = k; st.push_back(w); } } ++k; }
        return c;
    }
    // peel: forward/backward reachability from each unlabelled vertex
    for (int s = 0; s < g.n; ++s) if (c[s] < 0) { auto f = reach(g.adj, {s}), b = reach(rev, {s}); for (int v = 0; v < g.n; ++v) if (f[v] && b[v]) c[v] = k; ++k; }
    return c;
}
using Comps = std::vector<std::vector<int>>;
static Comps get(const TarjanSCCResult* s, bool contiguous = true) {
    Comps out; size_t nc = tarjan_get_numcomponents(s); const int* prev = nullptr;
    for (size_t i = 0; i < nc; ++i) { TarjanComponent t = tarjan_get_strongcomponent(s, i);
        if (contiguous && prev) CHECK(t.vertex == prev, "components are not stored contiguously");
        prev = t.vertex + t.size;
        CHECK(t.size < (size_t(1) << 40), "component size " + str(t.size)); out.push_back(std::vector<int>(t.vertex, t.vertex + t.size)); }
    return out;
}
static std::string show(const Comps& c) { std::string s; for (auto& x : c) s += str(x); return s.substr(0, 4000); }
static void partition(const G& g, const Comps& c, const std::vector<char>& must) {
    std::vector<int> cnt(g.n, 0); size_t tot = 0, want = 0;
    for (auto& x : c) { CHECK(!x.empty(), "empty component in " + show(c)); for (int v : x) { CHECK(v >= 0 && v < g.n, "vertex out of range in " + show(c)); ++cnt[v]; ++tot; } }
    for (int v = 0; v < g.n; ++v) { want += must[v]; CHECK(cnt[v] == must[v], "vertex " + str(v) + " listed " + str(cnt[v]) + " times, expected " + str(int(must[v])) + " in " + show(c)); }
    CHECK(tot == want, "component sizes do not add up");
}
static void sameclasses(const G& g, const Comps& c) {
    auto cl = classes(g);
    std::map<int, int> sz; for (int v = 0; v < g.n; ++v) sz[cl[v]]++;
    for (auto& x : c) { for (int v : x) CHECK(cl[v] == cl[x[0]], "vertices " + str(v) + " and " + str(x[0]) + " are not mutually reachable: " + show(c));
        CHECK(int(x.size()) == sz[cl[x[0]]], "a mutual-reachability class is split: " + show(c)); }
}
static void order(const G& g, const Comps& c, bool rev) {
    std::vector<int> at(g.n, -1); for (size_t k = 0; k < c.size(); ++k) for (int v : c[k]) at[v] = int(k);
    for (int u = 0; u < g.n; ++u) if (at[u] >= 0) for (int v : g.adj[u]) {
        CHECK(at[v] >= 0, "edge to an unlisted vertex");
        CHECK(rev ? at[v] >= at[u] : at[v] <= at[u], "edge " + str(u) + "->" + str(v) + " goes the wrong way: " + show(c)); }
}
static std::vector<int> starts(const G& g, Rng& r) {
    std::vector<int> s; if (g.n == 0) return s;
    int k = r.chance(10) ? 0 : r.in(1, r.chance(50) ? 3 : std::min(2 * g.n, 60));
    for (int i = 0; i < k; ++i) s.push_back(!s.empty() && r.chance(20) ? s[r.upto(int(s.size()))] : r.upto(g.n));
    desc("start=" + str(s) + "\n");
    return s;
}
static void hooks(uint64_t mask = 0) { vp_fail_mask = mask; vp_count = 0; }
struct Ws { TarjanWorkSpace* w; explicit Ws(size_t n) { w = create_tarjan_workspace(n); CHECK(w, "workspace"); } ~Ws() { destroy_tarjan_workspace(w); } };
struct Res { TarjanSCCResult* s; explicit Res(TarjanSCCResult* p) : s(p) {} ~Res() { destroy_tarjan_sccresult(s); } };
static TarjanSCCResult* restricted(const G& g, const std::vector<int>& s, Rng& r, TarjanWorkSpace* w) {
    std::vector<int> ex(s); int* p = (int*) malloc(s.size() * sizeof(int)); if (!s.empty()) memcpy(p, s.data(), s.size() * sizeof(int));
    TarjanSCCResult* q = tarjan_reachable_sccs(g.n, g.ia, g.ja, s.size(), p, w);
    bool ok = s.empty() || memcmp(p, ex.data(), s.size() * sizeof(int)) == 0; free(p);
    CHECK(ok, "start list modified"); return q;
}
static size_t wsize(const G& g, Rng& r) { size_t n = g.n; if (r.chance(20)) n += r.in(1, 5); desc("workspace=" + str(n) + "\n"); return n; }
static void c01(uint64_t id, Rng& r) { G g; gen(g, id, r); hooks(); Res s(tarjan(g.n, g.ia, g.ja)); CHECK(s.s, "no result");
    auto c = get(s.s); partition(g, c, std::vector<char>(g.n, 1)); sameclasses(g, c); CHECK(g.untouched(), "graph modified"); }
static void c02(uint64_t id, Rng& r) { G g; gen(g, id, r); hooks();
    { Res s(tarjan(g.n, g.ia, g.ja)); CHECK(s.s, "no result"); auto c = get(s.s); partition(g, c, std::vector<char>(g.n, 1)); order(g, c, false);
      if (tarjan_reverse_sccresult(s.s)) { auto d = get(s.s); partition(g, d, std::vector<char>(g.n, 1)); order(g, d, true); } }
    auto st = starts(g, r); Ws w(wsize(g, r));
    { Res s(restricted(g, st, r, w.w)); CHECK(s.s, "no result"); auto c = get(s.s); order(g, c, false);
      if (tarjan_reverse_sccresult(s.s)) { order(g, get(s.s), true); } } }
static void c03(uint64_t id, Rng& r) { G g; gen(g, id, r); hooks(); Ws w(wsize(g, r)); int reps = g.n <= 60 ? 3 : 1;
    for (int k = 0; k < reps; ++k) { auto st = starts(g, r); Res s(restricted(g, st, r, w.w)); CHECK(s.s, "no result");
        auto c = get(s.s); partition(g, c, reach(g.adj, st)); sameclasses(g, c); CHECK(g.untouched(), "graph modified"); } }
static void c04(uint64_t id, Rng& r) { G g; gen(g, id, r); hooks(); bool part = r.chance(50); Ws w(g.n);
    auto st = part ? starts(g, r) : std::vector<int>(); Res s(part ? restricted(g, st, r, w.w) : tarjan(g.n, g.ia, g.ja)); CHECK(s.s, "no result");
    auto c = get(s.s);
    for (uint64_t m : {1, 2, 4, 3, 6, 7}) { hooks(m); int ok = tarjan_reverse_sccresult(s.s); int used = vp_count; hooks(); auto d = get(s.s);
        if (!ok) CHECK(c == d, "failed reversal (allocation pattern " + str(m) + ") changed the decomposition: " + show(c) + " -> " + show(d));
        else { std::reverse(d.begin(), d.end()); CHECK(c == d, "reversal is not the reverse: " + show(c) + " -> " + show(d)); c = get(s.s); (void) used; } }
    CHECK(tarjan_reverse_sccresult(s.s), "reversal failed without allocation failure"); auto d = get(s.s); std::reverse(d.begin(), d.end());
    CHECK(c == d, "reversal is not the reverse: " + show(c) + " -> " + show(d)); }
static void c05(uint64_t id, Rng& r) { G g; gen(g, id, r); hooks(); long live0 = vp_live; auto st = starts(g, r); size_t wn = wsize(g, r);
    int most = 0;          // allocations of the undisturbed run
    auto used_of = [&](std::function<void()> f) { hooks(); most = 0; f(); CHECK(vp_live == live0, "memory leaked: " + str(vp_live - live0) + " blocks"); return std::min(most, 12); };
    auto body = [&](uint64_t mask) {
        hooks(mask); TarjanSCCResult* s = tarjan(g.n, g.ia, g.ja); int used = vp_count; most = std::max(most, used); bool any = mask & ((1ull << std::min(used, 63)) - 1);
        hooks(); CHECK(!(any && s), "allocation failure (pattern " + str(mask) + ") but a result was returned"); CHECK(any || s, "no result without allocation failure");
        if (s) { get(s); destroy_tarjan_sccresult(s); } CHECK(vp_live == live0, "tarjan leaks with allocation pattern " + str(mask)); CHECK(g.untouched(), "graph modified"); };
    int n = used_of([&] { body(0); }); if (g.n > 60) n = std::min(n, 5);
    for (uint64_t m = 1; m < (1ull << n); ++m) { if (n > 6 && m & (m - 1) && !r.chance(3)) continue; body(m); }
    auto body2 = [&](uint64_t mask) {
        hooks(mask); TarjanWorkSpace* w = create_tarjan_workspace(wn); int uw = vp_count; bool anyw = mask & ((1ull << uw) - 1);
        CHECK(!(anyw && w), "workspace in spite of allocation failure"); CHECK(anyw || w, "no workspace");
        if (w) { vp_count = uw; TarjanSCCResult* s = restricted(g, st, r, w); int u2 = vp_count; bool any = (mask >> uw) & ((1ull << (u2 - uw)) - 1);
            CHECK(!(any && s), "allocation failure but a result was returned"); CHECK(any || s, "no result without allocation failure");
            if (s) { auto before = get(s); int ok = tarjan_reverse_sccresult(s); int u3 = vp_count; bool anyr = (mask >> u2) & ((1ull << (u3 - u2)) - 1);
                CHECK(!(anyr && ok), "allocation failure but reversal reports success"); CHECK(anyr || ok, "reversal fails without allocation failure"); get(s); (void) before; }
            destroy_tarjan_sccresult(s); }
        most = std::max(most, vp_count); destroy_tarjan_workspace(w); hooks(); CHECK(vp_live == live0, "leak with allocation pattern " + str(mask)); CHECK(g.untouched(), "graph modified"); };
    n = used_of([&] { body2(0); }); if (g.n > 60) n = std::min(n, 5);
    for (uint64_t m = 1; m < (1ull << n); ++m) { if (n > 6 && m & (m - 1) && !r.chance(2)) continue; body2(m); }
    destroy_tarjan_sccresult(nullptr); destroy_tarjan_workspace(nullptr); }
std::map<std::string, Suite> suites() {
    uint64_t ex = 1 + E1 + E2 + E3 + E4;
    return { {"C01", {c01, ex}}, {"C02", {c02, ex}}, {"C03", {c03, ex}}, {"C04", {c04, ex}}, {"C05", {c05, ex}} };
}
