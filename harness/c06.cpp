// C06: scalar bases. Every family is observed only through its public
// evaluators at points of generated elements: size, the spanned space, the
// order by degree, gradients, orthonormality and harmonicity where claimed.
#include "oracle.hpp"
#include "diskpp/bases/bases.hpp"
#include "diskpp/bases/bases_new.hpp"
#include "diskpp/common/util.h"
using namespace vm; using namespace orc; using namespace mon;
using MX = Eigen::MatrixXd; using VX = Eigen::VectorXd;

inline size_t binom(size_t k, size_t d) { double r = 1; for (size_t i = 1; i <= d; i++) r = r*(k+i)/i; return (size_t)std::llround(r); }

/* Lagrange on Chebyshev nodes over [-1,1]: weights of value/1st/2nd derivative at t=x */
struct Line {
    std::vector<double> t; MX Vinv;
    explicit Line(size_t k) : t(k+1) { for (size_t i = 0; i <= k; i++) t[i] = k ? std::cos(M_PI*(i+0.5)/(k+1)) : 0.; MX A(k+1,k+1);
        for (size_t i = 0; i <= k; i++) for (size_t j = 0; j <= k; j++) A(i,j) = std::cos(j*std::acos(t[i])); Vinv = A.inverse(); }
    /* Chebyshev series coefficients from nodal values */
    VX coef(const VX& f) const { return Vinv*f; }
    static std::array<double,3> eval(const VX& c, double x) { /* value and two derivatives by recurrence */
        double T0 = 1, T1 = x, d0 = 0, d1 = 1, s0 = 0, s1 = 0; std::array<double,3> r{0,0,0};
        for (long j = 0; j < c.size(); j++) { r[0] += c(j)*T0; r[1] += c(j)*d0; r[2] += c(j)*s0;
            double T2 = 2*x*T1-T0, d2 = 2*T1+2*x*d1-d0, s2 = 4*d1+2*x*s1-s0; T0 = T1; T1 = T2; d0 = d1; d1 = d2; s0 = s1; s1 = s2; }
        return r; }
};

/* degree of function i as the hierarchical ordering promises */
inline std::vector<size_t> block_degrees(size_t k, size_t d) { std::vector<size_t> r; for (size_t j = 0; j <= k; j++) while (r.size() < binom(j,d)) r.push_back(j); return r; }

template<size_t D, typename F, typename G, typename S>
void observe(const std::string& fam, size_t k, size_t n, const std::vector<size_t>& degs, F&& f, G&& grad, bool has_grad, const std::vector<V<D>>& dirs, const std::vector<V<D>>& axes_dirs, V<D> c, T h, S&& sample, Rng& r, const std::vector<bool>& harm = {})
{
    /* the line oracle uses directions inside the element's own hyperplane */
    size_t kk = k+2; Line L(kk); VX scale = VX::Constant(n, 1e-300); std::vector<V<D>> xs; 
    for (size_t i = 0; i < 12; i++) { auto x = sample(); xs.push_back(x); VX v = f(x); if (!check(fam+".size", (size_t)v.size() == n, cat("k=", k, " evaluated ", v.size(), " functions, size() says ", n))) return; check(fam+".finite", v.allFinite(), cat("k=", k)); scale = scale.cwiseMax(v.cwiseAbs()); }
    for (auto& x0 : {xs[0], xs[1], c}) for (auto& d : dirs) {
        MX val(kk+1, n); for (size_t i = 0; i <= kk; i++) val.row(i) = VX(f(V<D>(x0+L.t[i]*h/2*d))).transpose();
        VX sc = val.cwiseAbs().colwise().maxCoeff().transpose().cwiseMax(scale); double big = 1+x0.norm()/h; MX C(kk+1, n);
        for (size_t j = 0; j < n; j++) { C.col(j) = L.coef(val.col(j));
            for (size_t q = degs[j]+1; q <= kk; q++) near(fam+".degree", std::abs(C(q,j))/sc(j), 1e-11*big, cat("k=", k, " function ", j, " has a component of degree ", q, " along a line, its degree is ", degs[j])); }
        if (has_grad) { double t = r.real(-0.9,0.9); MX g = grad(V<D>(x0+t*h/2*d)); if (!check(fam+".gradient-size", (size_t)g.rows() == n, cat("k=", k, " rows ", g.rows()))) return;
            for (size_t j = 0; j < n; j++) { double want = Line::eval(C.col(j), t)[1]/(h/2), got = g.row(j).dot(d); near(fam+".gradient", std::abs(got-want)*h/sc(j), 1e-10*(1+k*k)*big, cat("k=", k, " function ", j, " directional derivative got ", got, " want ", want)); } } }
    /* independence: sampled Gram matrix, columns normalised */
    { size_t N = 6*n+10; MX A(N, n); for (size_t i = 0; i < N; i++) A.row(i) = VX(f(sample())).transpose(); for (size_t j = 0; j < n; j++) A.col(j) /= std::max(A.col(j).norm(), 1e-300);
      auto sv = A.jacobiSvd().singularValues(); near(fam+".independent", 1e-10/std::max(sv(sv.size()-1)/sv(0), 1e-300), 1, cat("k=", k, " smallest/largest singular value ", sv(sv.size()-1)/sv(0))); }
    { VX a = f(xs[2]), b = f(xs[3]); near(fam+".first-constant", std::abs(a(0)-b(0))/std::abs(a(0)), 1e-13, cat("first function ", a(0), " ", b(0))); }
    if (!harm.empty()) for (auto& x0 : {xs[4], c}) { VX lap = VX::Zero(n); VX sc = scale; 
        for (auto& d : axes_dirs) { MX val(kk+1, n); for (size_t i = 0; i <= kk; i++) val.row(i) = VX(f(V<D>(x0+L.t[i]*h/2*d))).transpose(); sc = sc.cwiseMax(val.cwiseAbs().colwise().maxCoeff().transpose());
            for (size_t j = 0; j < n; j++) lap(j) += Line::eval(L.coef(val.col(j)), 0.)[2]/(h*h/4); }
        for (size_t j = 0; j < n; j++) if (harm[j]) near(fam+".harmonic", std::abs(lap(j))*h*h/sc(j), 1e-9*(1+x0.norm()/h), cat("k=", k, " function ", j, " laplacian ", lap(j))); }
}
template<size_t D> V<D> rdir(Rng& r) { V<D> d; do { for (size_t i = 0; i < D; i++) d(i) = r.real(-1,1); } while (d.norm() < 0.1); return d/d.norm(); }
template<typename B> auto old_f(const B& b) { constexpr size_t D = B::mesh_type::dimension; return [&b](const V<D>& x) -> VX { return b.eval_functions(P<D>(x)); }; }

template<typename M, typename B> void old_cell(const std::string& fam, const M& m, const typename M::cell& cl, const B& b, size_t k, Rng& r, bool curls = false)
{
    constexpr size_t D = M::dimension; auto p = vpts(m, cl); T h = diam<D>(p);
    check(fam+".size", b.size() == binom(k, D), cat("k=", k, " size() ", b.size())); check(fam+".degree()", b.degree() == k);
    check(fam+".scalar_basis_size", disk::scalar_basis_size(k, D) == binom(k, D));
    std::vector<V<D>> ax; for (size_t i = 0; i < D; i++) ax.push_back(V<D>::Unit(i)); auto ds = ax; ds.push_back(rdir<D>(r));
    observe<D>(fam, k, b.size(), block_degrees(k, D), old_f(b), [&](const V<D>& x) -> MX { return b.eval_gradients(P<D>(x)); }, true, ds, ax, mean<D>(p), h, [&]() { return random_in_cell(m, cl, r); }, r);
    if constexpr (D == 2) if constexpr (requires { b.eval_curls2(P<D>(p[0])); }) { auto x = P<D>(random_in_cell(m, cl, r)); MX g = b.eval_gradients(x), c = b.eval_curls2(x); T e = (c.col(0)-g.col(1)).norm()+(c.col(1)+g.col(0)).norm(); near(fam+".curls2", e/std::max(g.norm(), 1e-300), 1e-14); }
}
template<typename M, typename B> void old_face(const std::string& fam, const M& m, const typename M::face& fc, const B& b, size_t k, Rng& r)
{
    constexpr size_t D = M::dimension; auto p = vpts(m, fc); size_t fd = D-1;
    check(fam+".size", b.size() == binom(k, fd), cat("k=", k, " size() ", b.size()));
    if constexpr (D > 1) {
        T h = diam<D>(p); std::vector<V<D>> ds; if constexpr (D == 2) ds.push_back((p[1]-p[0])/(p[1]-p[0]).norm()); else { V<3> a, n = V<3>::Zero(); a = (p[1]-p[0]).normalized(); for (size_t i = 1; i+1 < p.size(); i++) n += (p[i]-p[0]).cross(p[i+1]-p[0]); V<3> q = n.normalized().cross(a); ds = {a, q, (a*r.real(-1,1)+q*r.real(0.2,1)).normalized()}; }
        observe<D>(fam, k, b.size(), block_degrees(k, fd), old_f(b), [&](const V<D>&) { return MX(); }, false, ds, ds, mean<D>(p), h, [&]() { return random_in_face(m, fc, r); }, r);
    } else { VX v = b.eval_functions(P<D>(p[0])); check(fam+".point-face", v.size() == 1 && v(0) == 1); }
}
template<typename M, typename E, typename B, typename Q> void orthonormal(const std::string& fam, const M& m, const E& e, const B& b, size_t k, Q&& qp)
{
    constexpr size_t D = M::dimension; MX A = MX::Zero(b.size(), b.size()); T big = 1; for (auto& [x, w] : qp) { VX v = b.eval_functions(x); A += w*v*v.transpose(); big = std::max(big, (T)orc::v<D>(x).norm()); }
    near(fam+".orthonormal", (A-MX::Identity(b.size(), b.size())).cwiseAbs().maxCoeff(), 1e-11*(1+k*k)*(1+big/diam<D>(vpts(m, e))), cat("k=", k, " mass matrix differs from the identity"));
}
template<typename M> void new_cell(const M& m, const typename M::cell& cl, size_t k, disk::basis::rescaling_strategy rs, const std::string& name, bool use_rs, Rng& r)
{
    constexpr size_t D = M::dimension; auto p = vpts(m, cl); T h = diam<D>(p); std::vector<V<D>> ax; for (size_t i = 0; i < D; i++) ax.push_back(V<D>::Unit(i)); auto ds = ax; ds.push_back(rdir<D>(r));
    auto go = [&](auto& b, const std::string& fam) {
        check(fam+".size", b.size() == binom(k, D) && b.size_of_degree(k) == binom(k, D) && b.degree() == k && b.integration_degree() == k, cat("k=", k, " size() ", b.size()));
        observe<D>(fam, k, b.size(), block_degrees(k, D), [&](const V<D>& x) -> VX { return b(P<D>(x)); }, [&](const V<D>& x) -> MX { return b.grad(P<D>(x)); }, true, ds, ax, mean<D>(p), h, [&]() { return random_in_cell(m, cl, r); }, r);
        /* L2 projector: identity on the spanned space, orthogonal error on anything else */
        disk::basis::L2_projector proj(m, cl, b); auto f = Poly<D>::random(k, r, mean<D>(p), h); auto dofs = proj([&](const disk::point<T,D>& x) { return f(x); });
        auto x = random_in_cell(m, cl, r); VX ph = b(P<D>(x)); T sc = 1; for (long i = 0; i < ph.size(); i++) sc += std::abs(ph(i)*dofs(i)); near(fam+".L2_projector", std::abs(ph.dot(dofs)-f(x))/sc, 1e-9*std::pow(10., k)*(1+mean<D>(p).norm()/h), cat("k=", k, " got ", ph.dot(dofs), " want ", f(x)));
        if constexpr (D == 1) { b.scalefactor(r.real(0.7,5)); observe<D>(fam+"-scalefactor", k, b.size(), block_degrees(k, D), [&](const V<D>& x) -> VX { return b(P<D>(x)); }, [&](const V<D>& x) -> MX { return b.grad(P<D>(x)); }, true, ds, ax, mean<D>(p), h, [&]() { return random_in_cell(m, cl, r); }, r); }
    };
    if constexpr (D == 2) { if (use_rs) { auto b = disk::basis::scaled_monomial_basis(m, cl, k, rs); go(b, "new"+name); return; } }
    auto b = disk::basis::scaled_monomial_basis(m, cl, k); go(b, "new");
}
template<typename M> void new_face(const M& m, const typename M::face& fc, size_t k, Rng& r)
{
    constexpr size_t D = M::dimension; auto p = vpts(m, fc); T h = diam<D>(p); auto b = disk::basis::scaled_monomial_basis(m, fc, k);
    check("new-face.size", b.size() == binom(k, D-1) && b.degree() == k, cat("k=", k)); std::vector<V<D>> ds; bool g = false;
    if constexpr (D == 2) ds.push_back((p[1]-p[0])/(p[1]-p[0]).norm()); else { V<3> a = (p[1]-p[0]).normalized(), n = V<3>::Zero(); for (size_t i = 1; i+1 < p.size(); i++) n += (p[i]-p[0]).cross(p[i+1]-p[0]); V<3> q = n.normalized().cross(a); ds = {a, q, (a*r.real(-1,1)+q*r.real(0.2,1)).normalized()}; g = true; }
    observe<D>("new-face", k, b.size(), block_degrees(k, D-1), [&](const V<D>& x) -> VX { return b(P<D>(x)); }, [&](const V<D>& x) -> MX { if constexpr (D == 3) return b.grad(P<D>(x)); else return MX(); }, g, ds, ds, mean<D>(p), h, [&]() { return random_in_face(m, fc, r); }, r);
    disk::basis::L2_projector proj(m, fc, b); auto f = Poly<D>::random(k, r, mean<D>(p), h); auto dofs = proj([&](const disk::point<T,D>& x) { return f(x); });
    auto x = random_in_face(m, fc, r); VX ph = b(P<D>(x)); T sc = 1; for (long i = 0; i < ph.size(); i++) sc += std::abs(ph(i)*dofs(i)); near("new-face.L2_projector", std::abs(ph.dot(dofs)-f(x))/sc, 1e-9*std::pow(10., k)*(1+mean<D>(p).norm()/h), cat("k=", k));
}
template<typename M> void run(size_t levels)
{
    constexpr size_t D = M::dimension; M proto;
    for (size_t v = 0; v < nvariants(proto); v++) for (size_t l = 1; l <= levels; l++) run_case(cat(kind<M>(), "/", v, "/", l), [&](Rng& r) {
        M m; auto desc = make(m, r, v, D == 3 ? 1 : l); size_t nc = m.cells_size(), nf = m.faces_size(), maxk = D == 1 ? 6 : D == 2 ? 5 : 4;
        size_t reps = n_of(D == 3 ? 4 : 6, 20);
        std::vector<typename M::cell> cs(m.cells_begin(), m.cells_end()); std::vector<typename M::face> fs(m.faces_begin(), m.faces_end());
        /* cells sitting at special positions matter: barycentres on points with zero coordinates are always tried (c in observe) */
        for (auto& cl : pick(m, cs, reps, r, 5)) { size_t k = r.integer(0, maxk); bool in = D > 1 && r.coin(0.4);
            if constexpr (D == 1) { disk::scaled_monomial_scalar_basis<M, typename M::cell, T> b(m, cl, k, false); old_cell("monomial", m, cl, b, k, r); }
            else { auto b = disk::make_scalar_monomial_basis(m, cl, k, in); old_cell(in ? "monomial-inertia" : "monomial", m, cl, b, k, r);
                size_t kl = r.integer(0, D == 2 ? 10 : 7); auto bl = disk::make_scalar_legendre_basis(m, cl, kl, false); 
                if (kl <= 6) old_cell("legendre", m, cl, bl, kl, r);
                if constexpr (std::is_same_v<M, c2_t> || std::is_same_v<M, c3_t>) orthonormal("legendre-box", m, cl, bl, kl, qps_cell(m, cl, 2*kl));
                /* harmonic top */
                size_t kh = r.integer(1, D == 2 ? 6 : 5), pd = r.integer(0, kh); disk::scaled_harmonic_top_scalar_basis<M, typename M::cell, T> bh(m, cl, kh);
                check("harmonic-top.defaults", bh.size() == binom(kh, D) && bh.maximum_polynomial_degree() == kh && bh.degree() == kh && bh.harmonic_size() == 0);
                bh.maximum_polynomial_degree(pd); auto hs = [&](size_t q) { return D == 2 ? 2*q+1 : (q+1)*(q+1); };
                check("harmonic-top.sizes", bh.maximum_polynomial_degree() == pd && bh.poly_size() == binom(pd, D) && bh.harmonic_size() == hs(kh)-hs(pd) && bh.size() == binom(pd, D)+hs(kh)-hs(pd), cat("k=", kh, " pd=", pd, " size ", bh.size()));
                std::vector<size_t> dg = block_degrees(pd, D); std::vector<bool> hm(dg.size(), false); for (size_t q = pd+1; q <= kh; q++) while (dg.size() < binom(pd, D)+hs(q)-hs(pd)) { dg.push_back(q); hm.push_back(true); }
                auto p = vpts(m, cl); std::vector<V<D>> ax; for (size_t i = 0; i < D; i++) ax.push_back(V<D>::Unit(i)); auto ds = ax; ds.push_back(rdir<D>(r));
                if (bh.size() == dg.size()) observe<D>("harmonic-top", kh, bh.size(), dg, old_f(bh), [&](const V<D>& x) -> MX { return bh.eval_gradients(P<D>(x)); }, true, ds, ax, orc::v<D>(disk::barycenter(m, cl)), diam<D>(p), [&]() { return random_in_cell(m, cl, r); }, r, hm);
                sig(cat(kind<M>(), "/harmonic/", kh, "/", pd)); }
            int rsi = r.integer(0, 3); using RS = disk::basis::rescaling_strategy; RS rs[] = {RS::unspecified, RS::none, RS::gram_schmidt, RS::inertial};
            const char *nm[] = {"-unspecified", "-none", "-gram_schmidt", "-inertial"}; new_cell(m, cl, k, rs[rsi], nm[rsi], r.coin(0.8), r);
            sig(cat(kind<M>(), "/cell/", cell_sig(m, cl), "/", k));
        }
        for (auto& fc : pick(m, fs, reps, r)) { size_t k = r.integer(0, maxk); bool in = D > 1 && r.coin(0.4);
            { disk::scaled_monomial_scalar_basis<M, typename M::face, T> b(m, fc, k, in); old_face(in ? "monomial-face-inertia" : "monomial-face", m, fc, b, k, r); }
            if constexpr (D > 1) { auto b = disk::make_scalar_legendre_basis(m, fc, k, false); old_face("legendre-face", m, fc, b, k, r); new_face(m, fc, k, r);
                if constexpr (D == 2) { check("legendre-face.is_orthonormal", b.is_orthonormal()); orthonormal("legendre-face", m, fc, b, k, qps_face(m, fc, 2*k)); } }
            sig(cat(kind<M>(), "/face/", vpts(m, fc).size(), "/", k)); }
    });
}
int main(int argc, char **argv)
{
    init(argc, argv, "C06");
#if PART == 2
    run<g1_t>(n_of(3, 12)); run<s2_t>(n_of(3, 12)); run<c2_t>(n_of(3, 12)); run<g2_t>(n_of(3, 12));
    for (size_t k = 0; k <= 10; k++) run_case(cat("legendre1d/", k), [&](Rng& r) {
        disk::legendre_1D<T> L(k); check("legendre_1D.size", L.size() == k+1 && L.degree() == k); MX A = MX::Zero(k+1, k+1); for (auto& [x, w] : gl(k+2)) { VX f = L.eval_functions(x); A += w*f*f.transpose(); }
        near("legendre_1D.orthonormal", (A-MX::Identity(k+1, k+1)).cwiseAbs().maxCoeff(), 1e-11); Line ln(k+1);
        MX val(k+2, k+1); for (size_t i = 0; i < k+2; i++) val.row(i) = VX(L.eval_functions(ln.t[i])).transpose();
        for (int q = 0; q < 10; q++) { T x = q == 0 ? -1 : q == 1 ? 1 : r.real(-1,1); VX g = L.eval_gradients(x); for (size_t j = 0; j <= k; j++) near("legendre_1D.gradient", std::abs(g(j)-Line::eval(ln.coef(val.col(j)), x)[1])/(1+j*j*j), 1e-11, cat("degree ", j, " at ", x, " got ", g(j))); } });
    for (size_t k = 11; k < 15; k++) run_case(cat("legendre1d/", k), [&](Rng&) { bool t = false; try { disk::legendre_1D<T> L(k); } catch (const std::invalid_argument&) { t = true; } check("legendre_1D.refuses", t, cat("degree ", k)); });
    run_case("iexp_pow", [&](Rng& r) { for (int i = 0; i < 200; i++) { T x = r.real(-3,3); size_t n = r.integer(0, 20); same("iexp_pow", iexp_pow(x, n), std::pow(x, (double)n), 1e-13); } });
    run_case("sizes", [&](Rng&) { for (size_t d = 1; d <= 3; d++) for (size_t k = 0; k <= 20; k++) check("scalar_basis_size", disk::scalar_basis_size(k, d) == binom(k, d), cat(k, " ", d)); });
#else
    run<s3_t>(n_of(2, 10)); run<c3_t>(n_of(2, 10)); run<g3_t>(n_of(2, 10));
#endif
    return finish();
}
