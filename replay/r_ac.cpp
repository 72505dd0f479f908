// C06-C09: AssembledConnections.
#include "rp.hpp"
#include <iomanip>
#include <opm/utility/graph/AssembledConnections.hpp>
using Opm::AssembledConnections;
struct Cn { int i, j; double v; bool w; };
static std::string show(const std::vector<Cn>& c) { std::string s; for (auto& x : c) { s += "(" + str(x.i) + "," + str(x.j) + (x.w ? "," + str(x.v) : std::string()) + ")"; if (s.size() > 20000) break; } return s; }
static void add(AssembledConnections& a, const Cn& c) { if (c.w) a.addConnection(c.i, c.j, c.v); else a.addConnection(c.i, c.j); }
static std::vector<Cn> gen(Rng& r, bool weighted, int maxid = -1) {
    std::vector<Cn> c; int kind = r.upto(12);
    int ni = kind == 0 ? 1 : kind < 6 ? r.in(1, 4) : kind < 11 ? r.in(2, 12) : r.in(20, 200), nj = r.chance(30) ? r.in(1, 3) : r.chance(5) ? 3000 : r.in(1, ni + 6);
    if (maxid >= 0) { ni = std::min(ni, maxid + 1); nj = std::min(nj, maxid + 1); }
    int m = kind == 1 ? 0 : r.in(0, r.chance(50) ? 4 : r.chance(80) ? 3 * ni : 300);
    for (int k = 0; k < m; ++k) { Cn x{r.upto(ni), r.upto(nj), double(r.in(-32, 64)) / 8, weighted}; if (r.chance(25) && !c.empty()) { x.i = c[r.upto(int(c.size()))].i; x.j = c[r.upto(int(c.size()))].j; }
        c.push_back(x); }
    if (maxid < 0 && r.upto(300) == 0) { int w = r.in(1, 4000), h = r.in(1, r.chance(50) ? 2 : 3000); for (int k = r.in(500, 4000); k > 0; --k) c.push_back({r.upto(h), r.upto(w), double(r.in(-32, 64)) / 8, weighted}); }
    if (r.chance(8)) for (auto& x : c) x.v = 0;
    if (r.chance(4)) { double s = std::ldexp(1.0, r.in(-300, 300)); for (auto& x : c) x.v *= s; }
    if (r.chance(4)) for (auto& x : c) if (r.chance(30)) x.v *= std::ldexp(1.0, -r.in(20, 80));
    return c;
}
// exhaustive: sequences of up to 4 connections over a 3x3 grid
static const uint64_t EX = 1 + 9 + 81 + 729 + 6561;
static std::vector<Cn> genx(uint64_t id, Rng& r, bool weighted) {
    if (id >= EX) return gen(r, weighted);
    std::vector<Cn> c; int len = 0; uint64_t n = 1; while (id >= n) { id -= n; n *= 9; ++len; }
    for (int k = 0; k < len; ++k) { c.push_back({int(id % 9) / 3, int(id % 9) % 3, double(1 << k) / 4 * ((k & 1) ? -1 : 1), weighted}); id /= 9; }
    return c;
}
static int rows(const std::vector<Cn>& c, Rng& r) { int m = 0; for (auto& x : c) m = std::max(m, x.i + 1); return m + (r.chance(60) ? 0 : r.upto(6)); }
struct Snap { std::vector<size_t> ia; std::vector<int> ja; std::vector<double> sa;
    explicit Snap(const AssembledConnections& a) : ia(a.startPointers().begin(), a.startPointers().end()), ja(a.neighbourhood()), sa(a.connectionWeight()) {}
    bool operator==(const Snap& o) const { return ia == o.ia && ja == o.ja && sa == o.sa; }
    std::string text() const { return "ia=" + str(ia) + " ja=" + str(ja) + " sa=" + str(sa); } };
static void structure(const AssembledConnections& a, const std::vector<Cn>& c, int n) {
    Snap s(a);
    CHECK(a.numRows() == size_t(n), "numRows is " + str(a.numRows()) + " instead of " + str(n));
    CHECK(s.ia.size() == size_t(n) + 1, "wrong number of start pointers: " + s.text()); CHECK(s.ia[0] == 0, "first start pointer: " + s.text());
    CHECK(s.ia.back() == s.ja.size(), "last start pointer: " + s.text());
    std::vector<std::set<int>> want(n); for (auto& x : c) want[x.i].insert(x.j);
    for (int i = 0; i < n; ++i) { CHECK(s.ia[i] <= s.ia[i + 1] && s.ia[i + 1] <= s.ja.size(), "start pointers: " + s.text());
        std::vector<int> row(s.ja.begin() + s.ia[i], s.ja.begin() + s.ia[i + 1]), ex(want[i].begin(), want[i].end());
        CHECK(row == ex, "row " + str(i) + " is " + str(row) + ", expected " + str(ex)); }
}
static void c06(uint64_t id, Rng& r) { for (bool w : {true, false}) { auto c = genx(id, r, w); int n = rows(c, r); desc_reset(); desc((w ? "weighted " : "unweighted ") + show(c) + " rows=" + str(n) + "\n");
        AssembledConnections a; for (auto& x : c) add(a, x); a.compress(n); structure(a, c, n); } }
static void weights(const AssembledConnections& a, const std::vector<Cn>& c, int n) {
    std::map<std::pair<int, int>, double> want; std::map<int, double> outw, inw, so, si; std::map<std::pair<int, int>, double> size; for (auto& x : c) { want[{x.i, x.j}] += x.v; outw[x.i] += x.v; inw[x.j] += x.v; double m = std::fabs(x.v); size[{x.i, x.j}] += m; so[x.i] += m; si[x.j] += m; }
    CHECK(a.connectionWeight().size() == a.neighbourhood().size(), "one weight per neighbour expected");
    std::map<std::pair<int, int>, double> got; std::map<int, double> go, gi; size_t cnt = 0;
    for (int i = 0; i < n; ++i) { size_t k = a.startPointers()[i]; for (const auto& cc : a.cellNeighbourhood(i)) { ++cnt; CHECK(k < a.startPointers()[i + 1], "neighbourhood too long");
            CHECK(cc.neighbour == a.neighbourhood()[k] && cc.weight == a.connectionWeight()[k], "iteration pairs the wrong values"); ++k; got[{i, cc.neighbour}] += cc.weight; go[i] += cc.weight; gi[cc.neighbour] += cc.weight; }
        CHECK(k == a.startPointers()[i + 1], "iteration over the neighbourhood of " + str(i) + " is incomplete"); }
    CHECK(cnt == want.size(), "number of stored connections");
    for (auto& x : want) CHECK(got.count(x.first) && std::fabs(got[x.first] - x.second) <= 1e-12 * size[x.first], "weight of (" + str(x.first.first) + "," + str(x.first.second) + ") is " + str(got[x.first]) + ", expected " + str(x.second));
    for (auto& x : outw) CHECK(std::fabs(go[x.first] - x.second) <= 1e-11 * so[x.first], "total weight leaving"); for (auto& x : inw) CHECK(std::fabs(gi[x.first] - x.second) <= 1e-11 * si[x.first], "total weight entering");
}
static void c07(uint64_t id, Rng& r) { auto c = genx(id, r, true); int n = rows(c, r); desc(show(c) + " rows=" + str(n) + "\n");
    AssembledConnections a; for (auto& x : c) add(a, x); a.compress(n); structure(a, c, n); if (!c.empty()) weights(a, c, n); }
static void c08(uint64_t id, Rng& r) {
    AssembledConnections a; std::vector<Cn> pend; bool have = false; int steps = r.in(2, 6);
    for (int s = 0; s < steps; ++s) {
        bool w = r.chance(60); auto c = s == 0 ? genx(id, r, w) : gen(r, w, r.chance(50) ? 5 : -1);
        if (r.chance(15) && c.size() > 1) c[r.upto(int(c.size()))].w = !w;
        desc("add " + show(c) + "\n"); for (auto& x : c) { add(a, x); pend.push_back(x); }
        int need = 0, nw = 0; for (auto& x : pend) { need = std::max(need, x.i + 1); nw += x.w; }
        int n = r.chance(30) ? r.upto(need + 2) : need + (r.chance(50) ? 0 : r.upto(4));
        bool bad = (nw != 0 && nw != int(pend.size())) || need > n;
        desc("compress " + str(n) + "\n");
        Snap before(a); bool threw = false;
        try { a.compress(n); } catch (const std::exception&) { threw = true; }
        CHECK(threw == bad, bad ? "bad request accepted" : "good request rejected");
        if (threw) { CHECK(before == Snap(a), "failed compression changed the graph: " + before.text() + " -> " + Snap(a).text()); if (pend.size() > 60) return; if (r.chance(30)) return; }
        else { have = true; AssembledConnections f; for (auto& x : pend) add(f, x); f.compress(n);
            CHECK(Snap(f) == Snap(a), "differs from a fresh object given the same connections: " + Snap(a).text() + " vs " + Snap(f).text());
            CHECK(a.numRows() == f.numRows(), "numRows"); structure(a, pend, n); if (nw) weights(a, pend, n); pend.clear(); }
    }
    (void) have;
}
static void c09(uint64_t id, Rng& r) {
    auto c = genx(id, r, true);
    for (auto& x : c) x.v = r.chance(50) ? x.v : (r.unit() - 0.3) * std::pow(10.0, r.in(-12, 12));
    int n = rows(c, r); desc(show(c) + " rows=" + str(n) + "\n");
    AssembledConnections a; for (auto& x : c) add(a, x); a.compress(n);
    std::ostringstream os; bool plain = r.chance(60);
    if (!plain) { std::ios_base::fmtflags f = os.flags(); for (auto b : {std::ios_base::fixed, std::ios_base::scientific, std::ios_base::showpos, std::ios_base::uppercase, std::ios_base::left, std::ios_base::right, std::ios_base::internal,
                   std::ios_base::showpoint, std::ios_base::boolalpha, std::ios_base::hex, std::ios_base::oct, std::ios_base::showbase, std::ios_base::unitbuf, std::ios_base::skipws}) if (r.chance(30)) f ^= b;
        if (r.chance(30)) f &= ~std::ios_base::dec; os.flags(f); }
    os.precision(r.chance(30) ? 6 : r.in(0, 30));
    auto f0 = os.flags(); auto p0 = os.precision(); desc("flags=" + str(int(f0)) + " precision=" + str(p0) + "\n");
    std::string pre; if (r.chance(30)) { pre = "x\n"; os << pre; }
    os << a;
    CHECK(os.flags() == f0, "format flags " + str(int(f0)) + " became " + str(int(os.flags()))); CHECK(os.precision() == p0, "precision " + str(p0) + " became " + str(os.precision()));
    if (plain) {
        std::string t = os.str(); CHECK(t.compare(0, pre.size(), pre) == 0, "earlier output lost"); std::istringstream in(t.substr(pre.size())); std::string line; size_t k = 0; int row = 0;
        CHECK(t.empty() || t.back() == '\n', "last line not terminated");
        while (std::getline(in, line)) { std::istringstream l(line); int i, j; double v; CHECK(bool(l >> i >> j >> v), "line '" + line + "' is not source sink weight"); std::string rest; CHECK(!(l >> rest), "extra text in '" + line + "'");
            while (row < n && k >= a.startPointers()[row + 1]) ++row;
            CHECK(k < a.neighbourhood().size(), "too many lines"); double w = a.connectionWeight()[k];
            CHECK(i == row && j == a.neighbourhood()[k] && std::fabs(v - w) <= 1e-13 * std::fabs(w), "line " + str(k) + " is '" + line + "', expected " + str(row) + " " + str(a.neighbourhood()[k]) + " " + str(w)); ++k; }
        CHECK(k == a.neighbourhood().size(), "missing lines");
    }
}
std::map<std::string, Suite> suites() { return { {"C06", {c06, EX}}, {"C07", {c07, EX}}, {"C08", {c08, EX}}, {"C09", {c09, EX}} }; }
