// C05: the raw quadrature rules, on random simplices and boxes in any orientation.
#include "oracle.hpp"
#include "diskpp/quadratures/quadratures.hpp"
#include "diskpp/quadratures/bits/quad_raw_gauss_lobatto.hpp"
using namespace vm; using namespace orc; using namespace mon; namespace dq = disk::quadrature;

template<size_t D> struct Fn { std::function<T(const V<D>&)> f; std::string name; };
template<size_t D> Fn<D> fn(const std::vector<V<D>>& p, int d, Rng& r)
{
    V<D> lo = p[0], hi = p[0]; for (auto& x : p) { lo = lo.cwiseMin(x); hi = hi.cwiseMax(x); }
    V<D> c = (lo+hi)/2, w; T h = std::max((hi-lo).norm()/2, 1e-300); for (size_t i = 0; i < D; i++) w(i) = std::max((hi-lo)(i)/2, 0.05*h);
    if (r.coin(0.4)) { V<D> a; for (size_t i = 0; i < D; i++) a(i) = r.real(-1,1); a /= a.norm(); return {[=](const V<D>& x) { return legendre(d, a.dot(x-c)/h); }, cat("ridge", d)}; }
    std::array<int,D> e; int left = d; size_t o = r.integer(0, D-1);
    for (size_t i = 0; i < D; i++) { size_t j = (i+o)%D; e[j] = i+1 < D ? r.integer(0, left) : left; left -= e[j]; }
    return {[=](const V<D>& x) { T v = 1; for (size_t i = 0; i < D; i++) v *= legendre(e[i], (x(i)-c(i))/w(i)); return v; }, cat("product", d)};
}
template<size_t D, typename Q>
void compare(const std::string& rule, size_t deg, const Q& qps, const QP<D>& ref, const std::vector<V<D>>& p, T meas, T tol, Rng& r, bool inbox = true, int maxd = -1)
{
    T h = diam<D>(p), big = 1; for (auto& x : p) big = std::max(big, x.norm()/h);
    T sw = 0, sa = 0; for (auto& q : qps) { sw += q.weight(); sa += std::abs(q.weight()); }
    near(rule+".weights-sum", std::abs(sw-meas)/std::abs(meas), tol*(sa/std::abs(meas)+20*big), cat("degree ", deg, " got ", sw, " want ", meas));
    if (maxd < 0) maxd = deg;
    for (int k = 0; k < 4; k++) {
        int d = k < 2 ? maxd : r.integer(0, maxd); auto f = fn<D>(p, d, r); T got = 0, want = 0, sc = 0, s2 = 0;
        for (auto& q : qps) { T fv = f.f(v<D>(q.point())); got += q.weight()*fv; sc += std::abs(q.weight()*fv); }
        for (auto& [x, w] : ref) { T fv = f.f(v<D>(x)); want += w*fv; s2 += std::abs(w*fv); }
        near(rule+".exact", std::abs(got-want)/std::max({sc, s2, 1e-2*std::abs(meas)}), tol*(10+10*big+0.1*d*d*big), cat("degree ", deg, " integrand ", f.name, " got ", got, " want ", want));
    }
    if (inbox) { V<D> lo = p[0], hi = p[0]; for (auto& x : p) { lo = lo.cwiseMin(x); hi = hi.cwiseMax(x); } bool in = true;
        for (auto& q : qps) for (size_t i = 0; i < D; i++) if (v<D>(q.point())(i) < lo(i)-1e-10*h*big || v<D>(q.point())(i) > hi(i)+1e-10*h*big) in = false;
        check(rule+".points-in-box", in, cat("degree ", deg)); }
    sig(cat(rule, "/", deg));
}
template<size_t D> std::vector<V<D>> rnd(size_t n, Rng& r)
{
    T s = std::pow(10., r.real(-3,3)); V<D> o; for (size_t i = 0; i < D; i++) o(i) = r.coin() ? 0 : s*r.real(-10,10);
    for (;;) { std::vector<V<D>> p; for (size_t k = 0; k < n; k++) { V<D> x; for (size_t i = 0; i < D; i++) x(i) = r.real(0,1); p.push_back(o+s*x); }
        if (kmeasure<D>(p) > 1e-2*std::pow(diam<D>(p), n-1)) return p; }
}
template<size_t D> QP<D> ref(const std::vector<V<D>>& p, size_t deg) { QP<D> q; simplex_qps<D>({p, kmeasure<D>(p)}, deg, q); return q; }
template<typename F> void refuses(const std::string& key, size_t deg, F&& f)
{
    auto res = isolated([&]() { try { f(); return 5; } catch (const std::invalid_argument&) { return 3; } });
    check(key+".refuses", !res.crashed && !res.hung && WIFEXITED(res.status) && WEXITSTATUS(res.status) == 3, cat("degree ", deg, " is beyond the tables: expected std::invalid_argument, status ", res.status, " ", res.text.substr(0, 200)));
}
int main(int argc, char **argv)
{
    init(argc, argv, "C05"); size_t reps = n_of(3, 60);
    for (size_t deg = 0; deg <= 39; deg++) for (size_t k = 0; k < reps; k++) run_case(cat("edge/", deg, "/", k), [&](Rng& r) {
        { T a = r.real(-5,5), b = r.real(-5,5); std::vector<V<1>> p{V<1>(a), V<1>(b)}; QP<1> q; simplex_qps<1>({p, b-a}, deg, q);
          compare<1>("gauss_legendre-scalar", deg, dq::gauss_legendre(deg, a, b), q, p, b-a, 1e-13, r); if (deg <= 37) compare<1>("gauss_lobatto-scalar", deg, dq::gauss_lobatto(deg, a, b), q, p, b-a, 1e-13, r); }
        auto each = [&](auto tag) { constexpr size_t D = decltype(tag)::value; auto p = rnd<D>(2, r); auto q = ref<D>(p, deg);
          compare<D>(cat("gauss_legendre-", D), deg, dq::gauss_legendre(deg, P<D>(p[0]), P<D>(p[1])), q, p, kmeasure<D>(p), 1e-13, r);
          if (deg <= 37) compare<D>(cat("gauss_lobatto-", D), deg, dq::gauss_lobatto(deg, P<D>(p[0]), P<D>(p[1])), q, p, kmeasure<D>(p), 1e-13, r);
          auto gl = dq::gauss_lobatto(std::min<size_t>(deg, 37), P<D>(p[0]), P<D>(p[1])); if (gl.size() > 1) { bool e0 = false, e1 = false; for (auto& x : gl) { if ((v<D>(x.point())-p[0]).norm() < 1e-12*diam<D>(p)*(10+p[0].norm()/diam<D>(p))) e0 = true; if ((v<D>(x.point())-p[1]).norm() < 1e-12*diam<D>(p)*(10+p[0].norm()/diam<D>(p))) e1 = true; } check("gauss_lobatto.endpoints", e0 && e1, cat("degree ", deg)); } };
        each(std::integral_constant<size_t,1>{}); each(std::integral_constant<size_t,2>{}); each(std::integral_constant<size_t,3>{});
        { struct QQ { disk::point<T,1> p; T w; disk::point<T,1> point() const { return p; } T weight() const { return w; } };
          std::vector<V<1>> p{V<1>(-1.), V<1>(1.)}; auto q = ref<1>(p, deg);
          std::vector<QQ> a, b, c; for (auto& x : disk::edge_quadrature<T>(deg)) a.push_back({x.first, x.second}); for (auto& x : disk::golub_welsch<T>(deg)) b.push_back({x.first, x.second});
          compare<1>("edge_quadrature", deg, a, q, p, 2, 1e-13, r); compare<1>("golub_welsch", deg, b, q, p, 2, 1e-12, r);
          struct Q2 { disk::point<T,2> p; T w; disk::point<T,2> point() const { return p; } T weight() const { return w; } };
          std::vector<Q2> d; for (auto& x : disk::quadrangle_quadrature<T>(deg)) d.push_back({x.first, x.second});
          std::vector<V<2>> s{{-1,-1},{1,-1},{1,1},{-1,1}}; QP<2> q2; simplex_qps<2>({{s[0],s[1],s[2]}, 2}, deg, q2); simplex_qps<2>({{s[0],s[2],s[3]}, 2}, deg, q2);
          compare<2>("quadrangle_quadrature", deg, d, q2, s, 4, 1e-12, r); }
    });
    for (size_t deg = 0; deg <= 39; deg++) for (size_t k = 0; k < reps; k++) run_case(cat("quad/", deg, "/", k), [&](Rng& r) {
        /* parallelogram: every degree; general convex quadrilateral: the bilinear Jacobian adds one degree */
        T s = std::pow(10., r.real(-2,2)); V<2> o(r.real(-3,3)*s, r.real(-3,3)*s), a(s*r.real(0.5,2), s*r.real(-0.4,0.4)), b(s*r.real(-0.4,0.4), s*r.real(0.5,2)); if (r.coin()) std::swap(a, b);
        std::vector<V<2>> p{o, o+a, o+a+b, o+b}; QP<2> q; T A = std::abs(a(0)*b(1)-a(1)*b(0)); simplex_qps<2>({{p[0],p[1],p[2]}, A/2}, deg, q); simplex_qps<2>({{p[0],p[2],p[3]}, A/2}, deg, q);
        compare<2>("tensorized-parallelogram", deg, dq::tensorized_gauss_legendre(deg, P<2>(p[0]), P<2>(p[1]), P<2>(p[2]), P<2>(p[3])), q, p, A, 1e-13, r);
        std::array<disk::point<T,2>,4> pa{P<2>(p[0]), P<2>(p[1]), P<2>(p[2]), P<2>(p[3])}; compare<2>("tensorized-parallelogram", deg, dq::tensorized_gauss_legendre(deg, pa), q, p, A, 1e-13, r);
        std::vector<disk::point<T,2>> pv(pa.begin(), pa.end()); compare<2>("integrate_quadrangle_tens", deg, disk::priv::integrate_quadrangle_tens(deg, pv), q, p, A, 1e-12, r);
        std::vector<V<2>> g; for (auto& x : p) g.push_back(x + s*V<2>(r.real(-0.12,0.12), r.real(-0.12,0.12))); T sg = shoelace(g) < 0 ? -1 : 1; QP<2> q2; T A2 = std::abs(shoelace(g));
        auto t2 = [&](V<2> x, V<2> y, V<2> z) { V<2> u = y-x, w = z-x; return sg*(u(0)*w(1)-u(1)*w(0))/2; };
        simplex_qps<2>({{g[0],g[1],g[2]}, t2(g[0],g[1],g[2])}, deg, q2); simplex_qps<2>({{g[0],g[2],g[3]}, t2(g[0],g[2],g[3])}, deg, q2);
        compare<2>("tensorized-quadrilateral", deg, dq::tensorized_gauss_legendre(deg, P<2>(g[0]), P<2>(g[1]), P<2>(g[2]), P<2>(g[3])), q2, g, A2, 1e-13, r, true, deg%2 ? (int)deg-1 : (int)deg);
        /* 3D rectangle and box */
        auto Q = rotation<3>(r); V<3> o3(r.real(-2,2), r.real(-2,2), r.real(-2,2)), e0 = Q.col(0)*r.real(0.3,2), e1 = Q.col(1)*r.real(0.3,2), e2 = Q.col(2)*r.real(0.3,2);
        std::vector<V<3>> R{o3, o3+e0, o3+e0+e1, o3+e1}; QP<3> q3; T A3 = e0.norm()*e1.norm(); simplex_qps<3>({{R[0],R[1],R[2]}, A3/2}, deg, q3); simplex_qps<3>({{R[0],R[2],R[3]}, A3/2}, deg, q3);
        compare<3>("tensorized-rectangle3", deg, dq::tensorized_gauss_legendre(deg, P<3>(R[0]), P<3>(R[1]), P<3>(R[2]), P<3>(R[3])), q3, R, A3, 1e-13, r, false);
        if (deg <= 20) { std::vector<V<3>> B = R; for (auto& x : R) B.push_back(x+e2); std::array<disk::point<T,3>,8> ba; for (int i = 0; i < 8; i++) ba[i] = P<3>(B[i]);
          QP<3> qb; auto& gg = orc::gl(deg/2+2); for (auto& [x, wx] : gg) for (auto& [y, wy] : gg) for (auto& [z, wz] : gg) { V<3> c = o3 + (1+x)/2*e0 + (1+y)/2*e1 + (1+z)/2*e2; qb.push_back({P<3>(c), wx*wy*wz/8*A3*e2.norm()}); }
          compare<3>("tensorized-box", deg, dq::tensorized_gauss_legendre(deg, ba), qb, B, A3*e2.norm(), 1e-12, r, false); }
    });
    for (size_t deg = 0; deg <= 44; deg++) for (size_t k = 0; k < reps; k++) run_case(cat("triangle/", deg, "/", k), [&](Rng& r) {
        auto p = rnd<2>(3, r); auto q = ref<2>(p, deg); T A = kmeasure<2>(p); auto p3 = rnd<3>(3, r); auto q3 = ref<3>(p3, deg); T A3 = kmeasure<3>(p3);
        compare<2>("triangle_gauss-2", deg, dq::triangle_gauss(deg, P<2>(p[0]), P<2>(p[1]), P<2>(p[2])), q, p, A, 1e-12, r, false);
        compare<3>("triangle_gauss-3", deg, dq::triangle_gauss(deg, P<3>(p3[0]), P<3>(p3[1]), P<3>(p3[2])), q3, p3, A3, 1e-12, r, false);
        std::array<disk::point<T,2>,3> a2{P<2>(p[0]), P<2>(p[1]), P<2>(p[2])}; std::array<disk::point<T,3>,3> a3{P<3>(p3[0]), P<3>(p3[1]), P<3>(p3[2])};
        compare<2>("triangle_gauss-2", deg, dq::triangle_gauss(deg, a2), q, p, A, 1e-12, r, false);
        if (deg <= 20) { compare<2>("dunavant-2", deg, dq::dunavant(deg, a2), q, p, A, 1e-12, r, false); compare<3>("dunavant-3", deg, dq::dunavant(deg, a3), q3, p3, A3, 1e-12, r, false); }
        else refuses("dunavant", deg, [&]() { dq::dunavant(deg, a2); });
        if (deg <= 25) compare<2>("grundmann_moeller-2", deg, dq::grundmann_moeller(deg, a2[0], a2[1], a2[2]), q, p, A, 1e-12, r);
        if (deg >= 1 && deg <= 44) { Eigen::Matrix<double,3,2> vv; for (int i = 0; i < 3; i++) vv.row(i) = p[i].transpose(); auto [X, Y, W] = dq::triquad(deg, vv);
          struct Q2 { disk::point<T,2> p; T w; disk::point<T,2> point() const { return p; } T weight() const { return w; } }; std::vector<Q2> t; for (int i = 0; i < X.size(); i++) t.push_back({disk::point<T,2>(X(i), Y(i)), W(i)});
          compare<2>("triquad", deg, t, q, p, A, 1e-12, r); }
    });
    for (size_t deg = 0; deg <= 18; deg++) for (size_t k = 0; k < reps; k++) run_case(cat("tet/", deg, "/", k), [&](Rng& r) {
        auto p = rnd<3>(4, r); auto q = ref<3>(p, deg); T A = kmeasure<3>(p);
        if (deg <= 15) { compare<3>("arbq", deg, dq::arbq(deg, P<3>(p[0]), P<3>(p[1]), P<3>(p[2]), P<3>(p[3])), q, p, A, 1e-12, r); compare<3>("default-tet", deg, dq::default_tetrahedron_quadrature(deg, P<3>(p[0]), P<3>(p[1]), P<3>(p[2]), P<3>(p[3])), q, p, A, 1e-12, r); }
        else refuses("arbq", deg, [&]() { dq::arbq(deg, P<3>(p[0]), P<3>(p[1]), P<3>(p[2]), P<3>(p[3])); });
        if (deg <= 17) compare<3>("grundmann_moeller-3", deg, dq::grundmann_moeller(deg, P<3>(p[0]), P<3>(p[1]), P<3>(p[2]), P<3>(p[3])), q, p, A, 1e-12, r);
    });
    for (size_t deg : {40, 41, 50, 1000}) run_case(cat("too-high/", deg), [&](Rng& r) {
        disk::point<T,2> a(0,0), b(1,0), c(1,1), d(0,1); refuses("gauss_legendre", deg, [&]() { dq::gauss_legendre(deg, a, b); }); refuses("gauss_legendre", deg, [&]() { dq::gauss_legendre(deg, 0., 1.); }); refuses("gauss_lobatto", deg, [&]() { dq::gauss_lobatto(deg, a, b); });
        refuses("tensorized", deg, [&]() { dq::tensorized_gauss_legendre(deg, a, b, c, d); }); sig(cat("refuse", deg));
    });
    return finish();
}
