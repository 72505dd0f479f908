// C11-C18: the toolbox and its solver, driven through the public interface.
#include "rp.hpp"
#include <memory>
#include <opm/flowdiagnostics/Toolbox.hpp>
using namespace Opm::FlowDiagnostics;
using CV = ConnectionValues;
using Inflow = std::map<std::string, CellSetValues>;
static const double CAP = 200.0 * 365.0 * 24.0 * 3600.0;

static bool near(double a, double b, double tol = 1e-9) {
    return a == b || std::fabs(a - b) <= tol * std::max(std::fabs(a), std::fabs(b));
}

struct Problem {
    int n = 0, phases = 1;
    bool twice = false;                         // request the first well twice
    std::vector<std::pair<int, int>> conn;
    std::vector<std::vector<double>> flux;      // [connection][phase]
    std::vector<double> pv;
    Inflow q;
    Problem mirrored() const {
        Problem p(*this);
        for (auto& f : p.flux) for (auto& x : f) x = -x;
        for (auto& w : p.q) for (auto& x : w.second) x.second = -x.second;
        return p;
    }
    std::string text() const {
        std::string s = "cells=" + str(n) + " phases=" + str(phases) + " connections=";
        for (size_t k = 0; k < conn.size(); ++k) s += "(" + str(conn[k].first) + "->" + str(conn[k].second) + " " + str(flux[k]) + ")";
        return s + " pv=" + str(pv) + " inflow=" + str(q) + "\n";
    }
};

// ---- generator ------------------------------------------------------------
static double amount(Rng& r) { return r.in(1, 64) / 8.0; }
static void phases_for(Rng& r, std::vector<double>& f, double net) {
    // split net over the phases, with exact (dyadic) cancellation
    double left = net;
    for (size_t p = 0; p + 1 < f.size(); ++p) { f[p] = r.chance(30) ? 0.0 : r.in(-32, 32) / 8.0; left -= f[p]; }
    if (!f.empty()) f.back() = left;
    if (f.size() > 1 && r.chance(4)) { double big = std::ldexp(double(r.in(1, 64)), r.in(0, 26)); int a = r.upto(int(f.size())), b = r.upto(int(f.size())); f[a] += big; f[b] -= big; }   // counter-current flow, still exact
}
enum Kind { Acyclic, Cyclic, Fed };
static void gen_wells(Rng& r, Problem& p) {
    static const char* nm[] = {"I1", "I2", "P1", "P2", "Q", ""};
    p.q.clear();
    int nw = r.in(0, 5), nn = 6; if (r.upto(100) == 0) { nw = r.in(6, 40); nn = 40; }
    for (int w = 0; w < nw; ++w) {
        CellSetValues v;
        int m = r.in(0, 3), style = r.upto(3);
        for (int k = 0; k < m; ++k) v[r.upto(p.n)] = r.chance(10) ? 0.0 : (style == 0 ? 1 : style == 1 ? -1 : r.chance(50) ? 1 : -1) * amount(r);
        if (r.chance(3)) { double s = std::ldexp(1.0, -r.in(20, 140)); for (auto& x : v) x.second *= s; }       // a trickle
        int id = r.upto(nn); p.q[id < 6 ? nm[id] : "W" + str(id)] = v;
    }
}
static void gen_pv(Rng& r, Problem& p) {
    p.pv.assign(p.n, 0.0);
    int style = r.upto(4);
    for (auto& x : p.pv) { x = amount(r); if (style == 0 || (style == 1 && r.chance(30))) x *= std::pow(10.0, r.in(7, 10)); if (style == 2) x *= 1e-3; }
}
static void gen_flux(Rng& r, Problem& p, Kind kind) {
    p.phases = r.chance(60) ? r.in(1, 3) : r.chance(20) ? r.in(4, 8) : 1;
    if (r.chance(2)) p.phases = 0;
    std::vector<int> rank(p.n); for (int i = 0; i < p.n; ++i) rank[i] = i;
    for (int i = p.n - 1; i > 0; --i) std::swap(rank[i], rank[r.upto(i + 1)]);
    std::vector<double> net(p.conn.size());
    for (size_t k = 0; k < p.conn.size(); ++k) {
        bool up = rank[p.conn[k].first] < rank[p.conn[k].second];
        double a = r.chance(12) ? 0.0 : amount(r);
        if (kind == Cyclic && r.chance(35)) up = !up;
        net[k] = up ? a : -a;
    }
    if (kind == Fed) {           // no outflow from cells without inflow or injection
        std::vector<char> fed(p.n, 0);
        for (auto& w : p.q) for (auto& x : w.second) if (x.second > 0) fed[x.first] = 1;
        for (int t = 0; t < p.n; ++t) for (int c = 0; c < p.n; ++c) if (rank[c] == t)
            for (size_t k = 0; k < net.size(); ++k) {
                int up = net[k] > 0 ? p.conn[k].first : p.conn[k].second, dn = net[k] > 0 ? p.conn[k].second : p.conn[k].first;
                if (net[k] != 0 && up == c) { if (fed[c]) fed[dn] = 1; else net[k] = 0; }
            }
    }
    p.flux.assign(p.conn.size(), std::vector<double>(p.phases, 0.0));
    for (size_t k = 0; k < net.size(); ++k) phases_for(r, p.flux[k], net[k]);
}
static void gen_shape(Rng& r, Problem& p) {
    p.n = r.chance(10) ? 2 : r.chance(5) ? r.in(20, 60) : r.in(2, 12); if (r.upto(400) == 0) p.n = r.in(100, 900);
    int m = r.in(1, r.chance(30) ? 3 : 3 * p.n);
    bool chain = r.chance(25);
    p.conn.clear();
    if (chain) for (int i = 0; i + 1 < p.n; ++i) p.conn.push_back(r.chance(50) ? std::make_pair(i, i + 1) : std::make_pair(i + 1, i));
    for (int k = 0; k < m; ++k) {
        int a = r.upto(p.n), b = r.upto(p.n - 1); if (b >= a) ++b;
        p.conn.push_back({a, b});
        if (r.chance(15)) p.conn.push_back(r.chance(50) ? std::make_pair(a, b) : std::make_pair(b, a));
    }
}
static Problem gen(Rng& r, Kind kind) { Problem p; gen_shape(r, p); gen_wells(r, p); gen_pv(r, p); gen_flux(r, p, kind);
    p.twice = r.chance(10);
    if (r.chance(4)) {          // other units: everything by the same power of two
        double s = std::ldexp(1.0, r.in(-150, 150));
        for (auto& f : p.flux) for (auto& x : f) x *= s;
        for (auto& w : p.q) for (auto& x : w.second) x.second *= s;
        for (auto& x : p.pv) x *= s;
    }
    return p; }

// ---- running the real code ------------------------------------------------
static CV values(const Problem& p) {
    CV v(CV::NumConnections{p.conn.size()}, CV::NumPhases{size_t(p.phases)});
    for (size_t k = 0; k < p.conn.size(); ++k) for (int f = 0; f < p.phases; ++f) v(CV::ConnID{k}, CV::PhaseID{size_t(f)}) = p.flux[k][f];
    return v;
}
static ConnectivityGraph shape(const Problem& p) {
    std::vector<int> t; for (auto& c : p.conn) { t.push_back(c.first); t.push_back(c.second); }
    return ConnectivityGraph(p.n, t);
}
static std::map<CellSetID, CellSetValues> inflow(const Inflow& q) { std::map<CellSetID, CellSetValues> m; for (auto& w : q) m[CellSetID(w.first)] = w.second; return m; }
static std::vector<std::string> wells(const Inflow& q, int sign) { std::vector<std::string> v; for (auto& w : q) { bool any = false; for (auto& x : w.second) any = any || x.second * sign > 0; if (any) v.push_back(w.first); } return v; }
static std::vector<CellSet> starts(const Inflow& q, const std::vector<std::string>& ids, int sign, bool with_cells = true) {
    std::vector<CellSet> s;
    for (auto& id : ids) { CellSet c{CellSetID(id)}; auto w = q.find(id); if (with_cells && w != q.end()) for (auto& x : w->second) if (x.second * sign > 0) c.insert(x.first); s.push_back(c); }
    return s;
}
struct Result { bool threw = false; std::string what; std::vector<double> tof; std::map<std::string, CellSetValues> c, t;
    bool operator==(const Result& o) const { return threw == o.threw && tof == o.tof && c == o.c && t == o.t; }
    std::string text() const { return threw ? "threw " + what : "tof=" + str(tof) + " conc=" + str(c) + " well-tof=" + str(t); } };
static Result collect(const Solution& s) {
    Result r; r.tof = s.timeOfFlight();
    for (auto& id : s.startPoints()) { r.c[id.to_string()] = s.concentration(id); r.t[id.to_string()] = s.timeOfFlight(id); }
    return r;
}
static Result ask(Toolbox& t, bool inj, const std::vector<CellSet>& st) {
    try { return inj ? collect(t.computeInjectionDiagnostics(st).fd) : collect(t.computeProductionDiagnostics(st).fd); }
    catch (const std::exception& e) { Result r; r.threw = true; r.what = e.what(); return r; }
}
// Problems with flow cycles that hardly exchange fluid with the rest take millions of sweeps: skip them.
static void quick(const Problem& p, bool inj) {
    if (p.flux.size() != p.conn.size()) return;
    int sg = inj ? 1 : -1; std::vector<std::vector<std::pair<int, double>>> up(p.n); std::vector<double> in(p.n, 0.0), e(p.n, 1.0);
    for (size_t k = 0; k < p.conn.size(); ++k) { double f = 0; for (double x : p.flux[k]) f += x; f *= sg; int a = p.conn[k].first, b = p.conn[k].second; if (f < 0) { std::swap(a, b); f = -f; } if (f > 0) { up[b].push_back({a, f}); in[b] += f; } }
    for (auto& w : p.q) for (auto& x : w.second) if (x.second * sg > 0) in[x.first] += x.second * sg;
    for (int t = 0; t < 600; ++t) { double m = 0; for (int c = 0; c < p.n; ++c) { double s = 0; for (auto& u : up[c]) s += e[u.first] * u.second; double v = in[c] > 0 ? s / in[c] : 0.0; m = std::max(m, std::fabs(v - e[c])); e[c] = v; } if (m == 0) break; }
    std::vector<char> fed(p.n, 0); for (auto& w : p.q) for (auto& x : w.second) if (x.second * sg > 0) fed[x.first] = 1;
    for (bool more = true; more; ) { more = false; for (int c = 0; c < p.n; ++c) if (!fed[c]) for (auto& u : up[c]) if (fed[u.first]) { fed[c] = 1; more = true; break; } }
    for (int c = 0; c < p.n; ++c) if (e[c] > 1e-3 && (fed[c] || e[c] < 1 - 1e-12)) throw Skip();
}
static Result fresh(const Problem& p, bool inj, const std::vector<CellSet>& st) {
    quick(p, inj);
    Toolbox t(shape(p)); t.assignPoreVolume(p.pv); t.assignConnectionFlux(values(p)); t.assignInflowFlux(inflow(p.q)); return ask(t, inj, st);
}
static Result run(const Problem& p, bool inj) { auto ids = wells(p.q, inj ? 1 : -1); if (p.twice && !ids.empty()) { ids.push_back(ids.front()); desc("(the first well is requested twice)\n"); } return fresh(p, inj, starts(p.q, ids, inj ? 1 : -1)); }

// ---- reference, for injection ---------------------------------------------
struct Ref {
    std::vector<std::vector<std::pair<int, double>>> up, down;   // aggregated flow graph
    std::vector<double> inflowc, source;
    std::vector<int> topo; std::vector<char> cyc;
    explicit Ref(const Problem& p) : up(p.n), down(p.n), inflowc(p.n, 0.0), source(p.n, 0.0), cyc(p.n, 0) {
        std::map<std::pair<int, int>, double> e;
        for (size_t k = 0; k < p.conn.size(); ++k) {
            double f = 0; for (double x : p.flux[k]) f += x;
            if (f > 0) e[{p.conn[k].first, p.conn[k].second}] += f;
            if (f < 0) e[{p.conn[k].second, p.conn[k].first}] += -f;
        }
        for (auto& x : e) { down[x.first.first].push_back({x.first.second, x.second}); up[x.first.second].push_back({x.first.first, x.second}); inflowc[x.first.second] += x.second; }
        for (auto& w : p.q) for (auto& x : w.second) if (x.second > 0) source[x.first] += x.second;
        for (int c = 0; c < p.n; ++c) { auto r = reach(next(c)); cyc[c] = r[c]; }
        std::vector<int> deg(p.n); std::vector<int> q; for (int c = 0; c < p.n; ++c) { deg[c] = int(up[c].size()); if (!deg[c]) q.push_back(c); }
        while (!q.empty()) { int c = q.back(); q.pop_back(); topo.push_back(c); for (auto& d : down[c]) if (--deg[d.first] == 0) q.push_back(d.first); }
    }
    std::vector<int> next(int c) const { std::vector<int> v; for (auto& d : down[c]) v.push_back(d.first); return v; }
    std::vector<char> reach(const std::vector<int>& from) const {
        std::vector<char> v(down.size(), 0); std::vector<int> st; for (int s : from) if (!v[s]) { v[s] = 1; st.push_back(s); }
        while (!st.empty()) { int c = st.back(); st.pop_back(); for (auto& d : down[c]) if (!v[d.first]) { v[d.first] = 1; st.push_back(d.first); } }
        return v;
    }
    bool acyclic() const { return topo.size() == down.size(); }
    // tracer and (uncut) time of flight for a source; acyclic only
    void solve(const Problem& p, const std::vector<double>& own, std::vector<double>& tr, std::vector<double>& tof, std::vector<char>& fuzzy) const {
        tr.assign(p.n, 0.0); tof.assign(p.n, 0.0); fuzzy.assign(p.n, 0);
        for (int c : topo) {
            double inf = inflowc[c] + source[c], a = 0, b = 0; char fz = 0;
            for (auto& u : up[c]) { a += tr[u.first] * u.second; b += tof[u.first] * tr[u.first] * u.second; fz |= fuzzy[u.first]; }
            a += own[c];
            tr[c] = inf == 0 ? 0.0 : a / inf;
            tof[c] = tr[c] > 0 ? (p.pv[c] * tr[c] + b) / (inf * tr[c]) : CAP;
            if (near(inf, p.pv[c] / CAP, 1e-10) && tr[c] > 0) fz = 1;
            fuzzy[c] = fz;
            if (inf < p.pv[c] / CAP) tof[c] = CAP;
        }
    }
};
static std::vector<double> own_source(const Problem& p, const std::string* id) {
    std::vector<double> s(p.n, 0.0);
    for (auto& w : p.q) if (!id || w.first == *id) for (auto& x : w.second) if (x.second > 0) s[x.first] += x.second;
    return s;
}
static void ok(const Result& x) { CHECK(!x.threw, "a valid request failed: " + x.what); }

// Balance of one field given reported values.  tr/tof: reported (0 / whatever where absent).
static void balance(const Problem& p, const Ref& R, const std::vector<double>& own, const std::vector<double>& tr, const std::vector<double>& tof, bool tr_known, const std::string& name) {
    std::vector<int> loops; for (int c = 0; c < p.n; ++c) if (R.cyc[c]) loops.push_back(c);
    auto below = R.reach(loops);
    for (int c = 0; c < p.n; ++c) {
        if (R.cyc[c]) continue;
        if (!tr_known && below[c]) continue;       // the iterated tracer of the global field is not observable
        double inf = R.inflowc[c] + R.source[c], a = own[c], b = 0; bool cut = false;
        for (auto& u : R.up[c]) { a += tr[u.first] * u.second; b += tof[u.first] * tr[u.first] * u.second; if (tr[u.first] > 0 && tof[u.first] >= CAP) cut = true; }
        double want = inf == 0 ? 0.0 : a / inf;
        if (tr_known) CHECK(near(tr[c], want, 1e-9), name + ": tracer in cell " + str(c) + " is " + str(tr[c]) + ", balance gives " + str(want));
        if (near(inf, p.pv[c] / CAP, 1e-10)) continue;
        if (!(want > 0) || inf < p.pv[c] / CAP) { if (want == 0 && tr_known && tr[c] == 0) { } CHECK(tof[c] == CAP, name + ": time of flight in cell " + str(c) + " is " + str(tof[c]) + ", expected the cap"); continue; }
        if (cut) continue;           // the uncut upwind value is not observable
        double t = std::min(CAP, (p.pv[c] * want + b) / (inf * want));
        CHECK(near(tof[c], t, 1e-8), name + ": time of flight in cell " + str(c) + " is " + str(tof[c]) + ", balance gives " + str(t));
    }
}
static std::vector<double> dense(const Problem& p, const CellSetValues& v, double d) { std::vector<double> r(p.n, d); for (auto& x : v) r.at(x.first) = x.second; return r; }
// global tracer: a problem with all sources in one well
static std::vector<double> global_tracer(const Problem& p, const Ref& R) {
    Problem g(p); g.q.clear(); CellSetValues s; for (int c = 0; c < p.n; ++c) if (R.source[c] > 0) s[c] = R.source[c]; if (s.empty()) return std::vector<double>(p.n, 0.0);
    g.q["all"] = s; Result x = run(g, true); ok(x); return dense(p, x.c["all"], 0.0);
}

static void check_reference(const Problem& p, const Result& x) {      // acyclic
    Ref R(p); std::vector<double> tr, tof; std::vector<char> fz;
    R.solve(p, R.source, tr, tof, fz);
    CHECK(int(x.tof.size()) == p.n, "length of the global time of flight");
    for (int c = 0; c < p.n; ++c) if (!fz[c]) CHECK(near(x.tof[c], std::min(tof[c], CAP), 1e-8), "global time of flight in cell " + str(c) + " is " + str(x.tof[c]) + ", expected " + str(std::min(tof[c], CAP)));
    auto ids = wells(p.q, 1); CHECK(x.c.size() == ids.size(), "number of wells in the result");
    for (auto& id : ids) {
        R.solve(p, own_source(p, &id), tr, tof, fz); CHECK(x.c.count(id), "well '" + id + "' is missing");
        auto& C = x.c.at(id); auto& T = x.t.at(id);
        for (int c = 0; c < p.n; ++c) {
            auto i = C.find(c); auto j = T.find(c); double got = i == C.end() ? 0.0 : i->second;
            CHECK(near(got, tr[c], 1e-9), "tracer of '" + id + "' in cell " + str(c) + " is " + str(got) + ", expected " + str(tr[c]));
            CHECK((i == C.end()) == (j == T.end()), "tracer and time of flight of '" + id + "' are given for different cells");
            if (j != T.end() && !fz[c]) CHECK(near(j->second, std::min(tof[c], CAP), 1e-8), "time of flight of '" + id + "' in cell " + str(c) + " is " + str(j->second) + ", expected " + str(std::min(tof[c], CAP)));
        }
    }
}
static bool same(const Result& a, const Result& b, double tol, std::string& why) {
    auto eq = [&](const CellSetValues& x, const CellSetValues& y) { if (x.size() != y.size()) return false; auto j = y.begin(); for (auto& i : x) { if (i.first != j->first || !near(i.second, j->second, tol)) return false; ++j; } return true; };
    if (a.threw != b.threw) { why = "one of them failed"; return false; }
    if (a.tof.size() != b.tof.size()) { why = "sizes"; return false; }
    for (size_t i = 0; i < a.tof.size(); ++i) if (!near(a.tof[i], b.tof[i], tol)) { why = "global time of flight in cell " + str(i) + ": " + str(a.tof[i]) + " / " + str(b.tof[i]); return false; }
    if (a.c.size() != b.c.size()) { why = "wells"; return false; }
    for (auto& w : a.c) { if (!b.c.count(w.first) || !eq(w.second, b.c.at(w.first))) { why = "concentration of '" + w.first + "'"; return false; } if (!eq(a.t.at(w.first), b.t.at(w.first))) { why = "time of flight of '" + w.first + "'"; return false; } }
    return true;
}
static Kind kind(Rng& r, int cyclic_pct) { return r.chance(cyclic_pct) ? Cyclic : r.chance(50) ? Acyclic : Fed; }

// ---- the suites -----------------------------------------------------------
static void c11(uint64_t, Rng& r) {
    Problem p = gen(r, kind(r, 20)); desc(p.text());
    Problem cur; cur.n = p.n; cur.conn = p.conn;      // what has been accepted so far
    bool havepv = false, havef = false; Toolbox t(shape(p));
    int steps = r.in(3, 12);
    for (int k = 0; k < steps; ++k) {
        int what = r.upto(9); bool threw = false;
        if (what == 0) { std::vector<double> v(p.n + (r.chance(50) ? 1 : -1) * r.in(1, 2), 3.0); if (int(v.size()) == p.n) continue; desc("bad pv of size " + str(v.size()) + "\n"); try { t.assignPoreVolume(v); } catch (const std::exception&) { threw = true; } CHECK(threw, "pore volumes of wrong size accepted"); }
        else if (what == 1) { size_t m = p.conn.size() + (r.chance(50) ? 1 : -1); size_t ph = r.in(0, 3); if (r.chance(20)) m = 0; CV v(CV::NumConnections{m}, CV::NumPhases{ph}); for (size_t a = 0; a < m; ++a) for (size_t b = 0; b < ph; ++b) v(CV::ConnID{a}, CV::PhaseID{b}) = 7; desc("bad flux for " + str(m) + " connections\n"); try { t.assignConnectionFlux(v); } catch (const std::exception&) { threw = true; } CHECK(threw, "fluxes of wrong size accepted"); }
        else if (what == 2) { gen_pv(r, p); desc("pv " + str(p.pv) + "\n"); t.assignPoreVolume(p.pv); cur.pv = p.pv; havepv = true; }
        else if (what == 3) { gen_flux(r, p, kind(r, 20)); desc("flux " + p.text()); t.assignConnectionFlux(values(p)); cur.flux = p.flux; cur.phases = p.phases; havef = true; }
        else if (what == 4) { gen_wells(r, p); desc("inflow " + str(p.q) + "\n"); t.assignInflowFlux(inflow(p.q)); cur.q = p.q; }
        else {
            bool inj = r.chance(50); int sg = inj ? 1 : -1; auto ids = wells(cur.q, sg); auto st = starts(cur.q, ids, sg); bool bad = !havepv || !havef;
            std::set<int> src; for (auto& w : cur.q) for (auto& x : w.second) if (x.second * sg > 0) src.insert(x.first);
            int mode = r.upto(5); std::string note;
            if (mode == 0) { static const char* nm[] = {"I1", "I2", "P1", "P2", "Q", "", "none"}; std::string id = nm[r.upto(7)]; if (std::find(ids.begin(), ids.end(), id) == ids.end()) { bad = true; note = " plus set '" + id + "'"; CellSet c{CellSetID(id)}; if (r.chance(50) && !src.empty()) c.insert(*src.begin()); st.insert(st.begin() + r.upto(int(st.size()) + 1), c); } }
            if (mode == 1 && !st.empty()) { int c = r.in(-1, p.n); if (!src.count(c)) { bad = true; note = " plus cell " + str(c); st[r.upto(int(st.size()))].insert(c); } }
            desc(std::string(inj ? "injection" : "production") + " for " + str(ids) + note + "\n");
            quick(cur, inj); Result x = ask(t, inj, st); CHECK(x.threw == bad, bad ? "inconsistent request accepted" : "valid request rejected: " + x.what);
            if (!bad) { Result y = fresh(cur, inj, st); CHECK(x == y, "result differs from that of a toolbox that saw no rejected call: " + x.text() + " / " + y.text()); }
        }
    }
    if (havepv && havef) for (bool inj : {true, false}) { auto st = starts(cur.q, wells(cur.q, inj ? 1 : -1), inj ? 1 : -1); quick(cur, inj); Result x = ask(t, inj, st), y = fresh(cur, inj, st); ok(y); CHECK(x == y, "final result differs from that of a toolbox that saw no rejected call: " + x.text() + " / " + y.text()); }
}
static void c12(uint64_t, Rng& r) {
    Kind k = kind(r, 20); Problem p = gen(r, k); desc(p.text()); Problem m = p.mirrored();
    Result f = run(p, true), b = run(p, false), mf = run(m, true), mb = run(m, false); ok(f); ok(b); ok(mf); ok(mb);
    std::string why; double tol = k == Cyclic ? 1e-6 : 1e-9;
    CHECK(same(b, mf, tol, why), "production differs from the injection of the negated problem: " + why); CHECK(same(f, mb, tol, why), "injection differs from the production of the negated problem: " + why);
    if (k != Cyclic) { check_reference(p, f); check_reference(m, b); }
}
static void c13(uint64_t, Rng& r) {
    Problem p = gen(r, kind(r, 20)); std::unique_ptr<Toolbox> t(new Toolbox(shape(p))); bool pv = false, fl = false; Problem cur; cur.n = p.n; cur.conn = p.conn; desc(p.text());
    int steps = r.in(3, 14);
    for (int k = 0; k < steps; ++k) {
        int what = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 2 : r.upto(8);
        if (what == 0) { if (k) gen_pv(r, p); desc("pv " + str(p.pv) + "\n"); t->assignPoreVolume(p.pv); cur.pv = p.pv; pv = true; }
        else if (what == 1) { if (k > 1) gen_flux(r, p, kind(r, 20)); desc("flux " + p.text()); t->assignConnectionFlux(values(p)); cur.flux = p.flux; cur.phases = p.phases; fl = true; }
        else if (what == 2) { if (k > 2) gen_wells(r, p); desc("inflow " + str(p.q) + "\n"); t->assignInflowFlux(inflow(p.q)); cur.q = p.q; }
        else if (what == 3) { desc("move\n"); if (r.chance(50)) { std::unique_ptr<Toolbox> u(new Toolbox(std::move(*t))); t.swap(u); } else { Problem o = gen(r, Acyclic); std::unique_ptr<Toolbox> u(new Toolbox(shape(o))); u->assignPoreVolume(o.pv); u->assignConnectionFlux(values(o)); u->assignInflowFlux(inflow(o.q)); *u = std::move(*t); t.swap(u); } }
        else {
            bool inj = r.chance(50); auto ids = wells(cur.q, inj ? 1 : -1); if (r.chance(30) && ids.size() > 1) ids.erase(ids.begin() + r.upto(int(ids.size()))); if (r.chance(30)) std::reverse(ids.begin(), ids.end());
            auto st = starts(cur.q, ids, inj ? 1 : -1, r.chance(70)); desc(std::string(inj ? "injection" : "production") + " for " + str(ids) + "\n");
            quick(cur, inj); Result x = ask(*t, inj, st), y = fresh(cur, inj, st); if (pv && fl) ok(y); CHECK(x == y, "differs from a fresh toolbox: " + x.text() + " / " + y.text());
            if (!x.threw) for (auto& id : ids) { Result z = fresh(cur, inj, starts(cur.q, {id}, inj ? 1 : -1)); CHECK(z.c[id] == x.c[id] && z.t[id] == x.t[id] && z.tof == x.tof, "fields of '" + id + "' depend on the other start sets"); }
        }
    }
}
static void c14(uint64_t, Rng& r) {
    Problem p = gen(r, Fed); gen_wells(r, p); desc(p.text());
    bool mirror = r.chance(50); Problem m = p.mirrored(); Result x = mirror ? run(m, false) : run(p, true); ok(x); check_reference(p, x);
}
static void c15(uint64_t, Rng& r) {
    Problem p = gen(r, kind(r, 40)); desc(p.text()); bool mirror = r.chance(30); Problem m = p.mirrored(); Result x = mirror ? run(m, false) : run(p, true); ok(x); Ref R(p);
    if (R.acyclic()) check_reference(p, x);
    auto gt = global_tracer(p, R); balance(p, R, R.source, gt, x.tof, false, "global");
    for (auto& w : x.c) balance(p, R, own_source(p, &w.first), dense(p, w.second, 0.0), dense(p, x.t.at(w.first), CAP), true, "'" + w.first + "'");
}
static void bounds(const std::vector<double>& t, const std::string& what) { for (size_t c = 0; c < t.size(); ++c) CHECK(t[c] >= 0 && t[c] <= CAP, what + " in position " + str(c) + " is " + str(t[c])); }
static void c16(uint64_t, Rng& r) {
    Problem p = gen(r, kind(r, 50)); desc(p.text()); Problem m = p.mirrored(); Result x = r.chance(30) ? run(m, false) : run(p, true); ok(x); Ref R(p);
    CHECK(int(x.tof.size()) == p.n, "length of the global time of flight is " + str(x.tof.size())); bounds(x.tof, "global time of flight");
    std::vector<int> s; for (int c = 0; c < p.n; ++c) if (R.source[c] > 0) s.push_back(c);
    auto re = R.reach(s); for (int c = 0; c < p.n; ++c) if (!re[c]) CHECK(x.tof[c] == CAP, "unreached cell " + str(c) + " has time of flight " + str(x.tof[c]));
    for (auto& w : x.t) { std::vector<double> v; for (auto& y : w.second) v.push_back(y.second); bounds(v, "time of flight of '" + w.first + "'"); }
}
static void c17(uint64_t, Rng& r) {
    Problem p = gen(r, kind(r, 60)); desc(p.text()); Problem m = p.mirrored(); Result x = r.chance(30) ? run(m, false) : run(p, true); ok(x); Ref R(p); auto ids = wells(p.q, 1); CHECK(x.c.size() == ids.size(), "number of wells");
    for (auto& id : ids) { std::vector<int> s; for (auto& y : p.q[id]) if (y.second > 0) s.push_back(y.first); auto re = R.reach(s);
        for (int c = 0; c < p.n; ++c) CHECK(int(x.c[id].count(c)) == re[c] && int(x.t[id].count(c)) == re[c], "cell " + str(c) + (re[c] ? " is missing from" : " should not be in") + " the field of '" + id + "'"); CHECK(x.c[id].size() == x.t[id].size(), "number of cells of '" + id + "'");
        for (auto& y : x.c[id]) { CHECK(y.first >= 0 && y.first < p.n && re[y.first], "cell " + str(y.first) + " in the field of '" + id + "'"); CHECK(y.second > 0 && y.second <= 1 + 1e-9, "concentration " + str(y.second) + " of '" + id + "' in cell " + str(y.first)); } }
}
static void c18(uint64_t, Rng& r) {
    Problem p = gen(r, Fed); desc(p.text()); bool mirror = r.chance(40); Problem m = p.mirrored(); Result x = mirror ? run(m, false) : run(p, true); ok(x); std::map<int, double> sum;
    for (auto& w : x.c) for (auto& y : w.second) sum[y.first] += y.second;
    Ref R(p); std::vector<int> s; for (int c = 0; c < p.n; ++c) if (R.source[c] > 0) s.push_back(c); auto re = R.reach(s);
    for (int c = 0; c < p.n; ++c) CHECK(int(sum.count(c)) == re[c], "cell " + str(c) + (re[c] ? " is reached but has no tracer" : " is not reached but has tracer")); for (auto& y : sum) CHECK(near(y.second, 1.0, 1e-9), "tracers in cell " + str(y.first) + " add up to " + str(y.second));
}
std::map<std::string, Suite> suites() { return { {"C11", {c11, 0}}, {"C12", {c12, 0}}, {"C13", {c13, 0}}, {"C14", {c14, 0}}, {"C15", {c15, 0}}, {"C16", {c16, 0}}, {"C17", {c17, 0}}, {"C18", {c18, 0}} }; }
