// C04: integrate(mesh, element, degree) against an independent reference quadrature.
#include "oracle.hpp"
#include "diskpp/quadratures/quadratures.hpp"
using namespace vm; using namespace orc; using namespace mon;

/* Test functions of total degree exactly d: products of Legendre polynomials in
   the element's bounding box, and ridge functions L_d(a.x). Bounded by one on the
   element, so a defect of any moment shows undamped. */
template<size_t D> struct Probe {
    V<D> c; T h; V<D> w; std::array<int,D> e; int d; V<D> a; bool ridge;
    T operator()(const V<D>& x) const {
        V<D> s = x - c;
        if (ridge) return legendre(d, a.dot(s)/h);
        T v = 1; for (size_t i = 0; i < D; i++) v *= legendre(e[i], s(i)/w(i)); return v;
    }
};
template<size_t D> Probe<D> probe(const std::vector<V<D>>& p, int d, Rng& r)
{
    Probe<D> q; V<D> lo = p[0], hi = p[0]; for (auto& x : p) { lo = lo.cwiseMin(x); hi = hi.cwiseMax(x); }
    q.c = (lo+hi)/2; q.h = (hi-lo).norm()/2; if (q.h == 0) q.h = 1;
    for (size_t i = 0; i < D; i++) q.w(i) = std::max((hi-lo)(i)/2, 0.05*q.h);
    q.d = d; q.ridge = r.coin(0.4);
    int left = d; for (size_t i = 0; i+1 < D; i++) { q.e[i] = r.integer(0, left); left -= q.e[i]; } q.e[D-1] = left;
    std::array<int,D> e2 = q.e; std::vector<int> perm; for (size_t i = 0; i < D; i++) perm.push_back(i); r.shuffle(perm); for (size_t i = 0; i < D; i++) q.e[i] = e2[perm[i]];
    for (size_t i = 0; i < D; i++) q.a(i) = r.real(-1,1); q.a /= q.a.norm();
    return q;
}
template<typename M, typename E, typename Q>
void element(const M& m, const E& e, const Q& refq, T meas, size_t deg, const std::string& S, const std::string& desc, Rng& r)
{
    constexpr size_t D = M::dimension; auto p = vpts(m, e);
    auto qps = disk::integrate(m, e, deg);
    T h = diam<D>(p); if (p.size() < 2) h = 1; T big = 1; for (auto& q : p) big = std::max(big, q.norm()/h);
    T sw = 0, sa = 0; for (auto& q : qps) { sw += q.weight(); sa += std::abs(q.weight()); }
    T amp = sa/meas;
    near(S+"weights-sum", std::abs(sw-meas)/meas, 1e-12*(amp+big), cat(desc, " degree ", deg, " sum ", sw, " measure ", meas));
    V<D> lo = p[0], hi = p[0]; for (auto& x : p) { lo = lo.cwiseMin(x); hi = hi.cwiseMax(x); }
    bool in = true; for (auto& q : qps) { V<D> x = v<D>(q.point()); for (size_t i = 0; i < D; i++) if (x(i) < lo(i)-1e-9*h-1e-14*big*h || x(i) > hi(i)+1e-9*h+1e-14*big*h) in = false; }
    check(S+"points-in-box", in, cat(desc, " degree ", deg));
    for (int k = 0; k < 3; k++) {
        int d = k == 0 ? deg : r.integer(0, deg);
        auto f = probe<D>(p, d, r);
        T got = 0, want = 0, sc = 0, sc2 = 0;
        for (auto& q : qps) { T fv = f(v<D>(q.point())); got += q.weight()*fv; sc += std::abs(q.weight()*fv); }
        for (auto& [x, w] : refq) { T fv = f(v<D>(x)); want += w*fv; sc2 += std::abs(w*fv); }
        near(S+"exact", std::abs(got-want)/std::max({sc, sc2, 1e-2*meas}), 2e-12*(10+d*d*big*0.1), cat(desc, " integrand degree ", d, " rule degree ", deg, " got ", got, " want ", want, f.ridge ? " ridge" : ""));
    }
    sig(cat(S, "n", p.size(), "/d", deg));
}
template<typename M> constexpr size_t cellmax()
{ if (std::is_same_v<M,s3_t>) return 15; if (std::is_same_v<M,g3_t>) return 14; if (std::is_same_v<M,g2_t>) return 38; return 39; }

template<typename M> void family(size_t maxlvl, size_t reps, size_t maxels)
{
    constexpr size_t D = M::dimension; M dummy;
    for (size_t v = 0; v < nvariants(dummy); v++) for (size_t l = 0; l <= maxlvl; l++) for (size_t k = 0; k < reps; k++)
        run_case(cat(kind<M>(), "/v", v, "/l", l, "/", k), [&](Rng& r) {
            M m; auto d = make(m, r, v, l+(D==1)); std::string S = kind<M>()+".";
            std::vector<size_t> ids; size_t nc = m.cells_size(); for (size_t i = 0; i < nc; i++) ids.push_back(i); r.shuffle(ids); if (ids.size() > maxels) ids.resize(maxels);
            std::set<size_t> take(ids.begin(), ids.end()); size_t i = 0;
            for (auto& c : m) {
                if (!take.count(i++)) continue;
                std::vector<size_t> degs; 
                if (D == 3) { degs = {0, 1, (size_t)r.integer(2, 6), (size_t)r.integer(3, cellmax<M>())}; if (std::is_same_v<M,c3_t>) degs.back() = r.integer(3, 24); }
                else { degs = {0, 1, 2, 3, (size_t)r.integer(4, 12), (size_t)r.integer(5, cellmax<M>())}; }
                for (auto dg : degs) element(m, c, qps_cell(m, c, dg), meas_cell(m, c), dg, S+"cell-", d, r);
                for (auto& f : faces(m, c)) for (size_t q = 0; q < 2; q++) { size_t dg = q ? r.integer(0, 6) : r.integer(0, D == 1 ? 39 : std::is_same_v<M,s3_t> || std::is_same_v<M,g3_t> ? 34 : 39);
                    element(m, f, qps_face(m, f, dg), meas_face(m, f), dg, S+"face-", d, r); }
            }
        });
}
/* one cell, every degree */
template<typename M> void sweep(size_t top, size_t ftop, size_t reps)
{
    constexpr size_t D = M::dimension; M dummy; std::string S = kind<M>()+".";
    for (size_t v = 0; v < nvariants(dummy); v++) for (size_t k = 0; k < reps; k++) run_case(cat("sweep/", kind<M>(), "/v", v, "/", k), [&](Rng& r) {
        M m; auto d = make(m, r, v, 1+(D==1)); size_t n = m.cells_size(), pick = r.integer(0, n-1), i = 0;
        for (auto& c : m) { if (i++ != pick) continue;
            for (size_t dg = 0; dg <= top; dg++) element(m, c, qps_cell(m, c, dg), meas_cell(m, c), dg, S+"cell-", d, r);
            auto fs = faces(m, c); auto f = fs[r.integer(0, fs.size()-1)];
            for (size_t dg = 0; dg <= ftop; dg++) element(m, f, qps_face(m, f, dg), meas_face(m, f), dg, S+"face-", d, r);
            /* degrees that no rule provides must be refused, not answered wrongly */
            for (size_t dg : {size_t(16), size_t(31), size_t(40), size_t(41), size_t(45)}) {
                if (std::is_same_v<M,g3_t> && dg > 20) continue;
                auto res = isolated([&]() { 
                    try { auto q = disk::integrate(m, c, dg); T s = 0; for (auto& x : q) s += x.weight(); T amp = 0; for (auto& x : q) amp += std::abs(x.weight()); 
                        auto pr = probe<D>(vpts(m, c), dg, r); T got = 0, sc = 0, want = 0; for (auto& x : q) { T fv = pr(orc::v<D>(x.point())); got += x.weight()*fv; sc += std::abs(x.weight()*fv); }
                        for (auto& [x, w] : qps_cell(m, c, dg)) want += w*pr(orc::v<D>(x));
                        return std::abs(got-want) <= 1e-7*std::max(sc, meas_cell(m, c)) ? 0 : 7; }
                    catch (const std::invalid_argument&) { return 3; } });
                bool ok = !res.crashed && !res.hung && WIFEXITED(res.status) && (WEXITSTATUS(res.status) == 0 || WEXITSTATUS(res.status) == 3);
                check(S+"high-degree-exact-or-refused", ok, cat(d, " degree ", dg, " status ", res.status, " ", res.text.substr(0, 200)));
            }
        }
    });
}
int main(int argc, char **argv)
{
    init(argc, argv, "C04");
#if PART == 2
    family<g1_t>(4, n_of(2, 20), 6); family<s2_t>(1, n_of(2, 20), 6); family<c2_t>(2, n_of(2, 20), 6); family<g2_t>(2, n_of(3, 25), 10);
    for (size_t k = 0; k < n_of(20, 400); k++) run_case(cat("star/", k), [&](Rng& r) { g2_t m; auto d = make_star(m, r); auto c = *m.cells_begin(); for (size_t dg : std::vector<size_t>{0, 1, 2, 3, (size_t)r.integer(4, 12), (size_t)r.integer(13, 30)}) element(m, c, qps_cell(m, c, dg), meas_cell(m, c), dg, "poly.cell-", d, r); });
    sweep<g1_t>(39, 39, n_of(1, 5)); sweep<s2_t>(39, 39, n_of(1, 5)); sweep<c2_t>(39, 39, n_of(1, 5)); sweep<g2_t>(38, 39, n_of(1, 6));
#else
    family<s3_t>(1, n_of(2, 10), 4); family<c3_t>(2, n_of(2, 12), 3); family<g3_t>(2, n_of(2, 12), 3);
    sweep<s3_t>(15, 36, n_of(1, 5)); sweep<c3_t>(24, 39, n_of(1, 3)); sweep<g3_t>(14, 34, n_of(1, 4));
#endif
    return finish();
}
