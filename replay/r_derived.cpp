// C19-C21: derived quantities.
#include "rp.hpp"
#include <opm/flowdiagnostics/DerivedQuantities.hpp>
using namespace Opm::FlowDiagnostics;
static bool near(double a, double b, double tol = 1e-9) { return a == b || std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }
static bool rel(double a, double b) { return a == b || std::fabs(a - b) <= 1e-9 * std::max(std::fabs(a), std::fabs(b)); }
static std::string show(const Graph& g) { return "x=" + str(g.first) + " y=" + str(g.second); }
static Solution sol(const std::vector<double>& tof) { Solution s; auto t = tof; s.assignGlobalToF(std::move(t)); return s; }
static void c19(uint64_t, Rng& r) {
    int n = r.chance(5) ? r.in(50, 300) : r.in(1, 9); if (r.upto(1000) == 0) n = r.in(1000, 2500); std::vector<double> a(n), b(n), p(n); bool ties = r.chance(40);
    for (int i = 0; i < n; ++i) { a[i] = ties ? r.in(0, 3) : r.unit() * 10; b[i] = ties ? r.in(1, 3) : r.unit() * 10 + 0.001; p[i] = r.chance(15) ? 0.0 : r.in(1, 64) / 8.0; if (r.chance(5)) p[i] *= 100; if (r.chance(1)) p[i] *= 1e-7; if (i && r.chance(3)) { a[i] = a[i - 1]; b[i] = b[i - 1] * (1 + r.in(1, 9) * 1e-13); } }
    if (r.chance(5)) { double s = std::ldexp(1.0, r.in(-120, 120)), t = std::ldexp(1.0, r.in(-120, 120)); for (int i = 0; i < n; ++i) { a[i] *= t; b[i] *= t; p[i] *= s; } }
    double fr = r.chance(50) ? 0.1 : r.chance(50) ? r.unit() : 1.0 + r.unit(); double tot = 0; for (double x : p) tot += x; if (n > 1 && r.chance(12)) {        // a cell exactly at the limit, in exact arithmetic
        int k = r.upto(n), j = (k + 1 + r.upto(n - 1)) % n; for (auto& x : p) x = x <= 4096 && x * 64 >= 1 && x * 64 == std::floor(x * 64) ? x : 1.0; double T = 1; tot = 0; for (double x : p) tot += x; while (T < tot) T *= 2; p[j] += T - tot; tot = T; fr = p[k] / T; }
    double mx = fr * tot, keep = 0; for (double x : p) if (x != mx && rel(x, mx)) return; for (double x : p) if (!(x > mx)) keep += x;
    desc("tof1=" + str(a) + " tof2=" + str(b) + " pv=" + str(p) + " max_pv_fraction=" + str(fr) + "\n");
    { auto a2 = a; auto b2 = b; auto p2 = p; int w = r.upto(3); (w == 0 ? a2 : w == 1 ? b2 : p2).push_back(1.0); if (r.chance(30)) (w == 0 ? b2 : w == 1 ? p2 : a2).push_back(1.0); bool threw = false; try { flowCapacityStorageCapacityCurve(a2, b2, p2, fr); } catch (const std::exception&) { threw = true; } CHECK(threw, "unequal lengths accepted");
      threw = false; try { flowCapacityStorageCapacityCurve(Toolbox::Forward{sol(a2)}, Toolbox::Reverse{sol(b2)}, p2, fr); } catch (const std::exception&) { threw = true; } CHECK(threw, "unequal lengths accepted (solution version)"); }
    if (!(keep > 0)) return;
    Graph g = flowCapacityStorageCapacityCurve(a, b, p, fr); Graph h = flowCapacityStorageCapacityCurve(Toolbox::Forward{sol(a)}, Toolbox::Reverse{sol(b)}, p, fr); CHECK(g == h, "the two overloads differ");
    if (near(fr, 0.1, 0)) CHECK(true, "");
    auto& X = g.first; auto& Y = g.second; CHECK(X.size() == size_t(n) + 1 && Y.size() == size_t(n) + 1, "number of points: " + show(g)); CHECK(X[0] == 0 && Y[0] == 0, "start: " + show(g)); CHECK(near(X[n], 1) && near(Y[n], 1), "end: " + show(g));
    for (int k = 0; k < n; ++k) CHECK(X[k + 1] >= X[k] && Y[k + 1] >= Y[k], "decreasing: " + show(g)); for (int k = 0; k <= n; ++k) CHECK(Y[k] >= X[k] - 1e-9, "below the diagonal: " + show(g));
    // reference: order by total travel time; blocks of equal time are compared as a whole
    std::vector<std::pair<double, int>> o; for (int i = 0; i < n; ++i) if (!(p[i] > mx)) o.push_back({a[i] + b[i], i}); std::sort(o.begin(), o.end()); double sx = 0, sy = 0, tx = 0, ty = 0; for (auto& q : o) { tx += p[q.second]; ty += p[q.second] / q.first; }
    std::vector<std::pair<double, double>> ref{{0, 0}}; for (auto& q : o) { sx += p[q.second]; sy += p[q.second] / q.first; ref.push_back({sx / tx, sy / ty}); }
    // same polygon: each computed point lies on the reference curve and each strict kink of the reference is a computed point
    for (size_t k = 0; k < ref.size(); ++k) { bool last = k + 1 == ref.size() || k == 0 || o[k - 1].first != o[k].first; if (!last) continue; bool f = false; for (int i = 0; i <= n && !f; ++i) f = near(X[i], ref[k].first) && near(Y[i], ref[k].second); CHECK(f, "point (" + str(ref[k].first) + "," + str(ref[k].second) + ") missing: " + show(g)); }
    for (int i = 0; i <= n; ++i) { bool f = false; for (size_t k = 0; k + 1 < ref.size() && !f; ++k) { double x0 = ref[k].first, x1 = ref[k + 1].first; if (X[i] < x0 - 1e-9 || X[i] > x1 + 1e-9) continue; double y = x1 > x0 ? ref[k].second + (ref[k + 1].second - ref[k].second) * (X[i] - x0) / (x1 - x0) : ref[k].second; f = std::fabs(y - Y[i]) < 1e-7; } CHECK(f || ref.size() == 1, "point " + str(i) + " is off the curve: " + show(g)); }
    // increments are those of cells, taken in order of time
    std::multiset<long long> inc, want; for (int k = 0; k < n; ++k) inc.insert(llround((X[k + 1] - X[k]) * 1e8)); for (int i = 0; i < n; ++i) want.insert(llround((p[i] > mx ? 0.0 : p[i] / tx) * 1e8)); auto i1 = inc.begin(); for (auto w : want) { CHECK(std::llabs(w - *i1) <= 4, "storage increments: " + show(g)); ++i1; }
}
static void c20(uint64_t, Rng& r) {
    int n = r.chance(10) ? 1 : r.in(1, 9); if (r.chance(2)) n = r.in(10, 2000); bool norm = r.chance(50); Graph g; std::vector<double> &X = g.first, &Y = g.second;
    for (int i = 0; i < n; ++i) { X.push_back(r.in(-8, 16) / 8.0); Y.push_back(i && r.chance(30) ? Y[i - 1] : r.in(-8, 16) / 8.0); }
    if (norm && n >= 2) { for (auto& x : X) x = r.in(0, 16) / 16.0; for (auto& y : Y) y = r.in(0, 16) / 16.0; std::sort(X.begin(), X.end()); std::sort(Y.begin(), Y.end()); X[0] = 0; X[n - 1] = 1; Y[n - 1] = 1; Y[0] = r.chance(70) ? 0 : Y[0]; for (int i = 0; i < n; ++i) Y[i] = std::max(X[i], Y[i]); }
    if (!norm && r.chance(10)) { double s = std::ldexp(1.0, -r.in(10, 60)); int i0 = r.upto(n); for (int i = i0; i < n; ++i) Y[i] = Y[i0] + (Y[i] - Y[i0]) * s; }     // tiny increments
    if (!norm && r.chance(5)) { double s = std::ldexp(1.0, r.in(-60, 20)); for (auto& x : X) x *= s; if (r.chance(50)) for (auto& y : Y) y *= s; }
    desc(show(g) + "\n");
    double area = 0; for (int i = 0; i + 1 < n; ++i) area += (X[i + 1] - X[i]) * (Y[i] + Y[i + 1]) / 2; double L = lorenzCoefficient(g); CHECK(near(L, 2 * (area - 0.5)), "Lorenz coefficient " + str(L) + ", expected " + str(2 * (area - 0.5)));
    if (norm && n >= 2) CHECK(L >= -1e-12 && L <= 1 + 1e-12, "Lorenz coefficient out of range: " + str(L));
    Graph s = sweepEfficiency(g); std::vector<double> t{0}, e{0}; for (int i = 1; i < n; ++i) { double f = Y[i] - Y[i - 1]; if (f != 0) { t.push_back((X[i] - X[i - 1]) / f); e.push_back(X[i] + (1 - Y[i]) * t.back()); } }
    CHECK(s.first.size() == t.size() && s.second.size() == e.size(), "sweep: number of points: " + show(s)); for (size_t i = 0; i < t.size(); ++i) CHECK(rel(s.first[i], t[i]) && near(s.second[i], e[i]), "sweep point " + str(i) + ": " + show(s));
    Graph bad = g; (r.chance(50) ? bad.first : bad.second).push_back(1); if (r.chance(30)) { bad = g; bad.second.pop_back(); } bool t1 = false, t2 = false; try { lorenzCoefficient(bad); } catch (const std::exception&) { t1 = true; } try { sweepEfficiency(bad); } catch (const std::exception&) { t2 = true; } CHECK(t1 && t2, "unequal lengths accepted");
}
static void c21(uint64_t, Rng& r) {
    int n = r.chance(2) ? r.in(20, 400) : r.in(1, 8); std::vector<double> pv(n); for (auto& x : pv) { x = r.in(1, 40) / 4.0; if (r.chance(2)) x = 0; } if (r.chance(5)) { double s = std::ldexp(1.0, r.in(-200, 200)); for (auto& x : pv) x *= s; } const char* nm[] = {"i1", "i2", "p1", "p2"};
    Solution f, b; std::map<std::string, CellSetValues> cf, cb; for (auto x : nm) { if (r.chance(75)) { CellSetValues v; for (int c = 0; c < n; ++c) if (r.chance(60)) { v[c] = r.in(1, 16) / 16.0; if (r.chance(4)) v[c] *= std::ldexp(1.0, -r.in(20, 200)); } cf[x] = v; f.assign(CellSetID(x), Solution::TracerConcentration{v}); }
        if (r.chance(75)) { CellSetValues v; for (int c = 0; c < n; ++c) if (r.chance(60)) { v[c] = r.in(1, 16) / 16.0; if (r.chance(4)) v[c] *= std::ldexp(1.0, -r.in(20, 200)); } cb[x] = v; b.assign(CellSetID(x), Solution::TracerConcentration{v}); } }
    std::map<CellSetID, CellSetValues> q; std::map<std::string, CellSetValues> qs; for (auto x : nm) if (r.chance(85)) { CellSetValues v; for (int c = 0; c < n; ++c) if (r.chance(50)) { v[c] = r.in(-8, 8) / 2.0; if (r.chance(4)) v[c] *= std::ldexp(1.0, -r.in(20, 200)); } q[CellSetID(x)] = v; qs[x] = v; }
    Toolbox::Forward F{f}; Toolbox::Reverse B{b}; for (auto i : nm) for (auto p : nm) { desc_reset(); desc("pv=" + str(pv) + " forward=" + str(cf) + " reverse=" + str(cb) + " inflow=" + str(qs) + " injector=" + i + " producer=" + p + "\n");
        double v = 0, q1 = 0, q2 = 0; for (auto& x : cf[i]) if (cb[p].count(x.first)) v += pv[x.first] * x.second * cb[p][x.first]; double got = injectorProducerPairVolume(F, B, pv, CellSetID(i), CellSetID(p)); CHECK(rel(got, v), "pair volume " + str(got) + ", expected " + str(v));
        bool miss = !qs.count(i) || !qs.count(p), threw = false; std::pair<double, double> fl{0, 0}; try { fl = injectorProducerPairFlux(F, B, CellSetID(i), CellSetID(p), q); } catch (const std::exception&) { threw = true; } CHECK(threw == miss, miss ? "missing well accepted" : "valid request rejected"); if (miss) continue;
        for (auto& x : qs[i]) if (x.second > 0 && cb[p].count(x.first)) q1 += x.second * cb[p][x.first]; for (auto& x : qs[p]) if (!(x.second > 0) && cf[i].count(x.first)) q2 += x.second * cf[i][x.first];
        CHECK(rel(fl.first, q1) && rel(fl.second, q2), "pair fluxes (" + str(fl.first) + "," + str(fl.second) + "), expected (" + str(q1) + "," + str(q2) + ")"); CHECK(fl.first >= 0 && fl.second <= 0, "sign of pair flux"); }
}
std::map<std::string, Suite> suites() { return { {"C19", {c19, 0}}, {"C20", {c20, 0}}, {"C21", {c21, 0}} }; }
