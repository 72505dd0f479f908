// C10, C22: connectivity graph, connection values, cell sets, solution objects.
#include "rp.hpp"
#include <opm/flowdiagnostics/ConnectivityGraph.hpp>
#include <opm/flowdiagnostics/ConnectionValues.hpp>
#include <opm/flowdiagnostics/CellSet.hpp>
#include <opm/flowdiagnostics/Solution.hpp>
using namespace Opm::FlowDiagnostics;
static void c10(uint64_t, Rng& r) {
    bool big = r.chance(2);
    {   int nc = big ? r.in(1, 100000) : r.in(0, 8); int m = big ? r.in(0, 4000) : r.in(0, 10); std::vector<int> t; bool bad = m % 2 != 0; int mode = r.upto(4);
        for (int k = 0; k < m; ++k) t.push_back(nc > 0 ? r.upto(nc) : r.in(0, 1));
        if (mode == 0 && m > 0) for (int bads = r.in(1, 2); bads > 0; --bads) { static const int odd[] = {-1, -2, 0, 1, 7, 100, 2147483647, -2147483647 - 1}; t[r.upto(m)] = r.chance(50) ? nc + r.in(-1, 1) : odd[r.upto(8)]; }
        for (int x : t) bad = bad || x < 0 || x >= nc;
        desc("cells=" + str(nc) + " table=" + str(t) + "\n");
        bool threw = false;
        try { ConnectivityGraph g(nc, t); CHECK(!bad, "bad table accepted"); CHECK(g.numCells() == size_t(nc), "numCells"); CHECK(g.numConnections() == t.size() / 2, "numConnections");
            ConnectivityGraph g2(g);
            for (size_t k = 0; k < t.size() / 2; ++k) { auto c = g2.connection(k); CHECK(c.first == t[2 * k] && c.second == t[2 * k + 1], "connection " + str(k) + " is (" + str(c.first) + "," + str(c.second) + ")"); }
        } catch (const Failure&) { throw; } catch (const std::exception&) { threw = true; }
        CHECK(threw == bad, "good table rejected"); }
    using CV = ConnectionValues; size_t a = r.upto(6), b = r.upto(5); if (big) { a = r.in(0, 300); b = r.in(0, 60); } if (r.chance(20)) std::swap(a, b); CV v(CV::NumConnections{a}, CV::NumPhases{b});
    desc("values " + str(a) + "x" + str(b) + "\n"); CHECK(v.numConnections() == a && v.numPhases() == b, "sizes");
    std::vector<double> m(a * b, 0.0);
    auto all = [&](const CV& w) { for (size_t i = 0; i < a; ++i) for (size_t j = 0; j < b; ++j) { double x = w(CV::ConnID{i}, CV::PhaseID{j}); CHECK(x == m[i * b + j], "value (" + str(i) + "," + str(j) + ") is " + str(x) + ", expected " + str(m[i * b + j])); } };
    all(v);
    for (int k = 0; k < 12; ++k) { size_t i = big ? r.upto(int(a) + 3) : r.upto(8), j = big ? r.upto(int(b) + 3) : r.upto(7); if (r.chance(5)) i = ~size_t(0); if (r.chance(5)) j = ~size_t(0) - r.upto(3); if (b && r.chance(10)) { i = 0; j = b + r.upto(int(a) * int(b) + 1); }
        bool bad = i >= a || j >= b; double x = r.chance(60) ? r.in(1, 1000) : std::ldexp(double(r.in(-9, 9)), r.in(-900, 900)); desc("write (" + str(i) + "," + str(j) + ")=" + str(x) + "\n");
        bool t1 = false, t2 = false; const CV& cv = v; try { (void) cv(CV::ConnID{i}, CV::PhaseID{j}); } catch (const std::exception&) { t1 = true; }
        try { v(CV::ConnID{i}, CV::PhaseID{j}) = x; } catch (const std::exception&) { t2 = true; }
        CHECK(t1 == bad && t2 == bad, bad ? "access out of range accepted" : "valid access rejected"); if (!bad) m[i * b + j] = x; all(v); }
    CV c(v); all(c);
}
static std::string name(Rng& r) { static const char* n[] = {"", "a", "A", "b", "aa", "ab", "inj 1", "I1", "I10", "I2", "\xc3\xa9", "zz"}; return n[r.upto(12)]; }
static double val(Rng& r) { return r.chance(85) ? r.in(-8, 8) / 4.0 : std::ldexp(double(r.in(-9, 9)), r.in(-900, 900)); }
static CellSetValues vals(Rng& r) { CellSetValues v; int k = r.chance(2) ? r.in(20, 400) : r.upto(5); for (int i = 0; i < k; ++i) v[r.chance(2) ? 2147483647 - r.upto(3) : r.in(-3, k > 9 ? 5000 : 40)] = val(r); return v; }
struct Model { std::vector<double> tof; std::map<std::string, CellSetValues> c, t; };
static void compare(const Solution& s, const Model& m) {
    CHECK(s.timeOfFlight() == m.tof, "global time of flight"); std::multiset<std::string> got, want; for (auto& x : s.startPoints()) got.insert(x.to_string()); for (auto& x : m.c) want.insert(x.first); CHECK(got == want, "start points");
    static const char* n[] = {"", "a", "A", "b", "aa", "ab", "inj 1", "I1", "I10", "I2", "\xc3\xa9", "zz", "absent"};
    for (auto x : n) { auto i = m.c.find(x); auto j = m.t.find(x); CHECK(s.concentration(CellSetID(x)) == (i == m.c.end() ? CellSetValues() : i->second), std::string("concentration of '") + x + "'");
        CHECK(s.timeOfFlight(CellSetID(x)) == (j == m.t.end() ? CellSetValues() : j->second), std::string("time of flight of '") + x + "'"); }
}
static void c22(uint64_t, Rng& r) {
    std::vector<Solution*> S; std::vector<Model> M; S.push_back(new Solution); M.push_back(Model());
    struct G { std::vector<Solution*>& s; ~G() { for (auto p : s) delete p; } } guard{S};
    int steps = r.in(1, 14);
    for (int k = 0; k < steps; ++k) { int w = r.upto(int(S.size())); std::string id = name(r); auto v = vals(r);
        switch (r.upto(6)) {
        case 0: { std::vector<double> t; for (int i = r.chance(2) ? r.in(10, 3000) : r.upto(5); i > 0; --i) t.push_back(r.chance(80) ? r.in(0, 9) : val(r)); desc(str(w) + ".global " + str(t) + "\n"); M[w].tof = t; S[w]->assignGlobalToF(std::move(t)); break; }
        case 1: case 2: desc(str(w) + ".conc " + id + " " + str(v) + "\n"); M[w].c[id] = v; S[w]->assign(CellSetID(id), Solution::TracerConcentration{v}); break;
        case 3: case 4: desc(str(w) + ".tof " + id + " " + str(v) + "\n"); M[w].t[id] = v; S[w]->assign(CellSetID(id), Solution::TimeOfFlight{v}); break;
        default: if (S.size() < 4) { bool mv = r.chance(30); desc(std::string(mv ? "move" : "copy") + " of " + str(w) + "\n");
                if (mv) { Solution* p = new Solution(std::move(*S[w])); delete S[w]; S[w] = p; } else { S.push_back(new Solution(*S[w])); Model c = M[w]; M.push_back(c); } } }
        for (size_t i = 0; i < S.size(); ++i) compare(*S[i], M[i]); }
    std::string id = name(r); std::vector<int> c; for (int i = r.chance(2) ? r.in(9, 600) : r.upto(8); i > 0; --i) c.push_back(r.in(-3, r.chance(50) ? 9 : 300)); desc("cell set '" + id + "' " + str(c) + "\n");
    CellSet s = r.chance(50) ? CellSet(CellSetID(id), c) : CellSet(CellSetID(id)); std::set<int> m; if (s.begin() != s.end() || c.empty()) m.insert(c.begin(), c.end());
    else { CellSet full(CellSetID(id), c); CHECK(full.begin() != full.end(), "cells lost"); for (int x : c) { s.insert(x); m.insert(x); } }
    auto same = [&](const CellSet& q) { std::multiset<int> g(q.begin(), q.end()), e(m.begin(), m.end()); CHECK(g == e, "cell set contents"); CHECK(q.id().to_string() == id, "cell set identifier"); };
    same(s); for (int i = r.upto(6); i > 0; --i) { int x = r.chance(20) ? -2147483647 - 1 : r.in(-3, 12); s.insert(x); m.insert(x); same(s); }
    CellSet cp(s); same(cp); cp.insert(77); same(s);
    auto text = [&]() { std::string t; int kind = r.upto(3); for (int k = r.in(0, kind == 0 ? 3 : 40); k > 0; --k) t += kind == 1 ? char('a' + r.upto(2)) : char(r.upto(256)); return t; };
    std::string a = name(r), b = name(r); if (r.chance(40)) { a = text(); b = r.chance(50) ? a + text() : text(); if (!b.empty() && r.chance(30)) { b = a; if (!b.empty()) b[r.upto(int(b.size()))] ^= 32; } } CHECK((CellSetID(a) < CellSetID(b)) == (a < b), "identifiers compare differently from their strings"); CHECK(CellSetID(a).to_string() == a, "to_string"); CHECK(CellSetID().to_string() == "", "default identifier");
}
std::map<std::string, Suite> suites() { return { {"C10", {c10, 0}}, {"C22", {c22, 0}} }; }
