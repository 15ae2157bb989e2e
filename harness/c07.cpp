// C07: vector and matrix bases. Values are sampled at points of generated
// elements; the spanned space is compared with an independently built one, the
// differential operators with derivatives of the interpolated values.
#include "oracle.hpp"
#include "diskpp/bases/bases.hpp"
#include "diskpp/bases/bases_new.hpp"
#include "diskpp/bases/bases_operations.hpp"
using namespace vm; using namespace orc; using namespace mon;
using MX = Eigen::MatrixXd; using VX = Eigen::VectorXd;
inline size_t binom(long k, size_t d) { if (k < 0) return 0; double r = 1; for (size_t i = 1; i <= d; i++) r = r*(k+i)/i; return (size_t)std::llround(r); }

/* values of all functions at x: n x ncomp */
template<size_t D> using Fun = std::function<MX(const V<D>&)>;
/* oracle spaces as functions of x, rows = generators */
inline void monos(size_t d, int lo, int hi, std::vector<std::array<int,3>>& out)
{ for (int k = lo; k <= hi; k++) { if (d == 1) out.push_back({k,0,0}); else if (d == 2) for (int i = 0; i <= k; i++) out.push_back({k-i,i,0}); else for (int i = 0; i <= k; i++) for (int j = 0; i+j <= k; j++) out.push_back({i,j,k-i-j}); } }
inline T mono(const std::array<int,3>& e, const VX& s) { T v = 1; for (long i = 0; i < s.size(); i++) v *= std::pow(s(i), e[i]); return v; }
/* all vectors in gens times the monomials of degree lo..hi in the local coordinates loc(x) */
template<size_t D> Fun<D> tensor_space(std::function<VX(const V<D>&)> loc, size_t d, int lo, int hi, std::vector<VX> gens)
{ std::vector<std::array<int,3>> e; monos(d, lo, hi, e); return [=](const V<D>& x) { VX s = loc(x); MX r(e.size()*gens.size(), gens[0].size()); size_t p = 0; for (auto& m : e) for (auto& g : gens) r.row(p++) = (mono(m, s)*g).transpose(); return r; }; }
template<size_t D> Fun<D> sum_space(Fun<D> a, Fun<D> b) { return [=](const V<D>& x) { MX A = a(x), B = b(x); MX r(A.rows()+B.rows(), std::max(A.cols(), B.cols())); if (A.rows()) r.topRows(A.rows()) = A; r.bottomRows(B.rows()) = B; return r; }; }

inline MX orth(const MX& A, long& rank) { Eigen::ColPivHouseholderQR<MX> qr(A); qr.setThreshold(1e-10); rank = qr.rank(); MX Q = qr.householderQ()*MX::Identity(A.rows(), rank); return Q; }
template<size_t D> void space(const std::string& fam, size_t k, size_t n, size_t dim, const Fun<D>& f, const Fun<D>& ora, const std::function<V<D>()>& sample, T big)
{
    if (!check(fam+".dimension", n == dim, cat("degree ", k, " size() ", n, " dimension of the space ", dim))) return;
    size_t N = 3*n+12; std::vector<V<D>> xs; for (size_t i = 0; i < N; i++) xs.push_back(sample()); MX f0 = f(xs[0]); if (!check(fam+".size", (size_t)f0.rows() == n, cat("degree ", k, " evaluates ", f0.rows(), " functions, size() ", n))) return;
    size_t c = f0.cols(); MX A(N*c, n), S(N*c, dim);
    for (size_t i = 0; i < N; i++) { MX a = f(xs[i]), s = ora(xs[i]); check(fam+".finite", a.allFinite()); A.middleRows(i*c, c) = a.transpose(); S.middleRows(i*c, c) = s.transpose(); }
    for (size_t j = 0; j < n; j++) { T q = A.col(j).norm(); check(fam+".nonzero", q > 0, cat("degree ", k, " function ", j, " vanishes")); A.col(j) /= std::max(q, 1e-300); S.col(j) /= std::max(S.col(j).norm(), 1e-300); }
    auto sv = A.jacobiSvd().singularValues(); near(fam+".independent", 1e-9/std::max(sv(sv.size()-1)/sv(0), 1e-300), 1, cat("degree ", k, " singular value ratio ", sv(sv.size()-1)/sv(0)));
    long rk; MX Q = orth(S, rk); if ((size_t)rk != dim) { skip("oracle space numerically rank deficient"); return; }
    MX R = A - Q*(Q.transpose()*A); for (size_t j = 0; j < n; j++) near(fam+".space", R.col(j).norm(), 1e-9*big, cat("degree ", k, " function ", j, " is not in the named space"));
}
/* jacobian of every function from its values on coordinate lines: n entries of ncomp x D */
template<size_t D> std::vector<MX> jac(const Fun<D>& f, size_t k, const V<D>& x, T h, std::vector<T>& scale)
{
    size_t m = k+2; std::vector<MX> J; MX f0 = f(x); size_t n = f0.rows(), c = f0.cols(); J.assign(n, MX::Zero(c, D)); scale.assign(n, 1e-300);
    for (size_t d = 0; d < D; d++) { std::vector<T> t(m), w(m), dw(m); for (size_t i = 0; i < m; i++) t[i] = std::cos(M_PI*(i+0.5)/m);
        /* derivative at 0 of the Lagrange interpolant */
        for (size_t i = 0; i < m; i++) { T den = 1; for (size_t j = 0; j < m; j++) if (j != i) den *= t[i]-t[j]; T num = 0; for (size_t q = 0; q < m; q++) if (q != i) { T pr = 1; for (size_t j = 0; j < m; j++) if (j != i && j != q) pr *= -t[j]; num += pr; } dw[i] = num/den; }
        for (size_t i = 0; i < m; i++) { MX v = f(V<D>(x+t[i]*h/2*V<D>::Unit(d))); for (size_t j = 0; j < n; j++) { J[j].col(d) += dw[i]/(h/2)*v.row(j).transpose(); scale[j] = std::max(scale[j], v.row(j).cwiseAbs().maxCoeff()/h); } } }
    return J;
}
template<typename B, size_t D> Fun<D> vf(const B& b) { return [&b](const V<D>& x) -> MX { return b.eval_functions(P<D>(x)).real(); }; }
template<typename B, size_t D> Fun<D> mf(const B& b) { return [&b](const V<D>& x) -> MX { auto f = b.eval_functions(P<D>(x)); MX r(f.size(), D*D); for (size_t i = 0; i < f.size(); i++) for (size_t a = 0; a < D; a++) for (size_t c = 0; c < D; c++) r(i, a*D+c) = f[i](a,c); return r; }; }

template<typename M> void vector_cell(const M& m, const typename M::cell& cl, size_t k, bool inertia, bool cplx, Rng& r)
{
    constexpr size_t D = M::dimension; auto p = vpts(m, cl); V<D> c = mean<D>(p); T h = diam<D>(p), big = 1+c.norm()/h; std::string fam = inertia ? "vector-inertia" : "vector";
    std::vector<VX> un; for (size_t i = 0; i < D; i++) un.push_back(VX::Unit(D, i));
    auto loc = [=](const V<D>& x) -> VX { return (x-c)/h; }; std::function<V<D>()> smp = [&]() { return random_in_cell(m, cl, r); };
    auto b = disk::make_vector_monomial_basis(m, cl, k, inertia); check(fam+".degree()", b.degree() == k); check(fam+".vector_basis_size", disk::vector_basis_size(k, D, D) == D*binom(k, D));
    Fun<D> f = vf<decltype(b), D>(b); space<D>(fam, k, b.size(), D*binom(k, D), f, tensor_space<D>(loc, D, 0, k, un), smp, big);
    for (size_t j = 0; j < k; j++) { /* hierarchical: the first block spans the lower degree */
        size_t nj = D*binom(j, D); Fun<D> fj = [&](const V<D>& x) -> MX { return MX(f(x).topRows(nj)); }; space<D>(fam+"-block", j, nj, nj, fj, tensor_space<D>(loc, D, 0, j, un), smp, big); if (j >= 1) break; }
    auto x = random_in_cell(m, cl, r); auto pt = P<D>(x); std::vector<T> sc; auto J = jac<D>(f, k, x, h, sc); T tol = 1e-10*(1+k*k)*big;
    auto cmp = [&](auto& bb, const std::string& fm) {
        auto g = bb.eval_gradients(pt); auto s = bb.eval_sgradients(pt); auto dv = bb.eval_divergences(pt); auto cu = bb.eval_curls(pt);
        check(fm+".operator-sizes", g.size() == J.size() && s.size() == J.size() && (size_t)dv.size() == J.size() && (size_t)cu.rows() == J.size());
        for (size_t i = 0; i < J.size() && i < g.size(); i++) { MX G(D, D), S(D, D); for (size_t a = 0; a < D; a++) for (size_t e = 0; e < D; e++) { G(a,e) = std::real(g[i](a,e)); S(a,e) = std::real(s[i](a,e)); }
            near(fm+".gradient", (G-J[i]).norm()/sc[i], tol, cat("function ", i)); near(fm+".symmetric-gradient", (S-0.5*(J[i]+J[i].transpose())).norm()/sc[i], tol, cat("function ", i)); near(fm+".divergence", std::abs(std::real(dv(i))-J[i].trace())/sc[i], tol, cat("function ", i));
            if constexpr (D == 2) near(fm+".skew-gradient", std::abs(std::real(cu(i,0))-(J[i](0,1)-J[i](1,0)))/sc[i], tol, cat("function ", i));
            else { V<3> want(J[i](0,1)-J[i](1,0), J[i](0,2)-J[i](2,0), J[i](1,2)-J[i](2,1)), got(std::real(cu(i,0)), std::real(cu(i,1)), std::real(cu(i,2))); near(fm+".skew-gradient", (got-want).norm()/sc[i], tol, cat("function ", i));
                auto c2 = bb.eval_curls2(pt); V<3> w2(J[i](2,1)-J[i](1,2), J[i](0,2)-J[i](2,0), J[i](1,0)-J[i](0,1)), g2(std::real(c2(i,0)), std::real(c2(i,1)), std::real(c2(i,2))); near(fm+".curl", (g2-w2).norm()/sc[i], tol, cat("function ", i)); } } };
    cmp(b, fam);
    if (cplx) { auto bc = disk::make_vector_monomial_basis_complex(m, cl, k, inertia); check(fam+"-complex.size", bc.size() == b.size()); near(fam+"-complex.values", (bc.eval_functions(pt).real()-b.eval_functions(pt)).norm()+bc.eval_functions(pt).imag().norm(), 1e-14*(1+b.eval_functions(pt).norm())); cmp(bc, fam+"-complex"); }
    /* matrix bases */
    std::vector<VX> um, us; for (size_t a = 0; a < D; a++) for (size_t e = 0; e < D; e++) { um.push_back(VX::Unit(D*D, a*D+e)); if (e >= a) { VX q = VX::Zero(D*D); q(a*D+e) = 1; q(e*D+a) = 1; us.push_back(q); } }
    size_t km = std::min<size_t>(k, D == 3 ? 2 : 3);
    { auto mb = disk::make_matrix_monomial_basis(m, cl, km, inertia); space<D>("matrix", km, mb.size(), D*D*binom(km, D), mf<decltype(mb), D>(mb), tensor_space<D>(loc, D, 0, km, um), smp, big); check("matrix.sizes", mb.degree() == km && disk::matrix_basis_size(km, D, D) == mb.size()); }
    { auto sb = disk::make_sym_matrix_monomial_basis(m, cl, km, inertia); space<D>("sym-matrix", km, sb.size(), D*(D+1)/2*binom(km, D), mf<decltype(sb), D>(sb), tensor_space<D>(loc, D, 0, km, us), smp, big); check("sym-matrix.sizes", sb.degree() == km && disk::sym_matrix_basis_size(km, D, D) == sb.size());
      auto fs = sb.eval_functions(pt); auto ph = disk::make_scalar_monomial_basis(m, cl, km, inertia).eval_functions(pt); size_t ns = D*(D+1)/2; for (size_t i = 0; i < fs.size(); i++) { near("sym-matrix.symmetric", (fs[i]-fs[i].transpose()).norm(), 0.); near("sym-matrix.frobenius-unit", std::abs(fs[i].norm()-std::abs(ph(i/ns))), 1e-13*(1+std::abs(ph(i/ns))), cat("function ", i)); for (size_t j = 0; j < i; j++) if (i/ns == j/ns) near("sym-matrix.frobenius-orthogonal", std::abs(fs[i].cwiseProduct(fs[j]).sum()), 1e-14*(1+fs[i].norm()*fs[j].norm())); } }
    /* new-style operators on the new scalar basis */
    { namespace db = disk::basis; auto phi = db::scaled_monomial_basis(m, cl, k); MX g = phi.grad(pt); auto ge = db::grad(phi); MX g2 = ge(pt); near("operations.grad", (g-g2).norm(), 1e-14*(1+g.norm())); check("operations.degrees", ge.size() == phi.size() && ge.degree() == k && ge.integration_degree() == (k ? k-1 : 0));
      V<D> n; for (size_t i = 0; i < D; i++) n(i) = r.real(-1,1); VX gn = ge.dot(n)(pt); near("operations.dot", (gn-g*n).norm(), 1e-13*(1+gn.norm()));
      VX dofs(phi.size()); for (long i = 0; i < dofs.size(); i++) dofs(i) = r.real(-1,1); VX pv = phi(pt); T ev = db::eval(pt, dofs, phi); near("operations.eval", std::abs(ev-pv.dot(dofs)), 1e-13*(1+pv.cwiseAbs().sum()));
      MX mass = db::integrate(m, cl, phi, phi), st = db::integrate(m, cl, ge, ge); MX A = MX::Zero(phi.size(), phi.size()), K = A; for (auto& [q, w] : qps_cell(m, cl, 2*k)) { VX v = phi(q); MX gg = phi.grad(q); A += w*v*v.transpose(); K += w*gg*gg.transpose(); }
      near("operations.integrate-mass", (mass-A).norm()/A.norm(), 1e-11*big); if (k) near("operations.integrate-stiffness", (st-K).norm()/K.norm(), 1e-10*big);
      auto fp = Poly<D>::random(k, r, c, h); db::fun<decltype(phi)> fu = [&](disk::point<T,D> q) -> T { return fp(q); }; VX pd = db::L2_project(m, cl, fu, phi); T got = pd.dot(pv), s1 = 1; for (long i = 0; i < pd.size(); i++) s1 += std::abs(pd(i)*pv(i)); near("operations.L2_project", std::abs(got-fp(pt))/s1, 1e-9*std::pow(10., k)*big); }
    sig(cat(kind<M>(), "/cell/", cell_sig(m, cl), "/", k, inertia));
}
template<typename M> void rt(const M& m, const typename M::cell& cl, size_t k, Rng& r)
{
    constexpr size_t D = M::dimension; auto p = vpts(m, cl); V<D> c = mean<D>(p); T h = diam<D>(p), big = 1+c.norm()/h; auto loc = [=](const V<D>& x) -> VX { return (x-c)/h; }; std::function<V<D>()> smp = [&]() { return random_in_cell(m, cl, r); };
    std::vector<VX> un, um, us; for (size_t i = 0; i < D; i++) un.push_back(VX::Unit(D, i)); for (size_t a = 0; a < D; a++) for (size_t e = 0; e < D; e++) { um.push_back(VX::Unit(D*D, a*D+e)); if (e >= a) { VX q = VX::Zero(D*D); q(a*D+e) = 1; q(e*D+a) = 1; us.push_back(q); } }
    std::vector<std::array<int,3>> e; monos(D, k-1, k-1, e);
    Fun<D> xh = [=](const V<D>& x) { VX s = loc(x); MX o(e.size(), D); for (size_t i = 0; i < e.size(); i++) o.row(i) = mono(e[i], s)*s.transpose(); return o; };
    Fun<D> xm = [=](const V<D>& x) { VX s = loc(x); MX o = MX::Zero(e.size()*D, D*D); for (size_t i = 0; i < e.size(); i++) for (size_t a = 0; a < D; a++) for (size_t q = 0; q < D; q++) o(i*D+a, a*D+q) = mono(e[i], s)*s(q); return o; };
    Fun<D> xs = [=](const V<D>& x) { VX s = loc(x); MX o = MX::Zero(e.size()*D, D*D); for (size_t i = 0; i < e.size(); i++) for (size_t a = 0; a < D; a++) for (size_t q = 0; q < D; q++) { o(i*D+a, a*D+q) += mono(e[i], s)*s(q)/2; o(i*D+a, q*D+a) += mono(e[i], s)*s(q)/2; } return o; };
    size_t nh = e.size();
    { auto b = disk::make_vector_monomial_basis_RT(m, cl, k); Fun<D> f = vf<decltype(b), D>(b); space<D>("RT", k, b.size(), D*binom(long(k)-1, D)+nh, f, sum_space<D>(tensor_space<D>(loc, D, 0, k-1, un), xh), smp, big); check("RT.sizes", b.degree() == k && disk::vector_basis_size_RT(k, D, D) == b.size());
      auto x = random_in_cell(m, cl, r); std::vector<T> sc; auto J = jac<D>(f, k, x, h, sc); VX dv = b.eval_divergences(P<D>(x)); for (size_t i = 0; i < J.size(); i++) near("RT.divergence", std::abs(dv(i)-J[i].trace())/sc[i], 1e-10*(1+k*k)*big, cat("function ", i)); }
    { auto b = disk::make_matrix_monomial_basis_RT(m, cl, k); space<D>("RT-matrix", k, b.size(), D*D*binom(long(k)-1, D)+D*nh, mf<decltype(b), D>(b), sum_space<D>(tensor_space<D>(loc, D, 0, k-1, um), xm), smp, big); check("RT-matrix.sizes", b.degree() == k && disk::matrix_basis_size_RT(k, D, D) == b.size()); }
    { auto b = disk::make_sym_matrix_monomial_basis_RT(m, cl, k); space<D>("RT-sym-matrix", k, b.size(), D*(D+1)/2*binom(long(k)-1, D)+D*nh, mf<decltype(b), D>(b), sum_space<D>(tensor_space<D>(loc, D, 0, k-1, us), xs), smp, big); check("RT-sym-matrix.sizes", b.degree() == k && disk::sym_matrix_basis_size_RT(k, D, D) == b.size());
      for (auto& q : b.eval_functions(P<D>(random_in_cell(m, cl, r)))) near("RT-sym-matrix.symmetric", (q-q.transpose()).norm(), 0.); }
    sig(cat(kind<M>(), "/RT/", k));
}
template<typename M> void vector_face(const M& m, const typename M::face& fc, size_t k, bool inertia, Rng& r)
{
    constexpr size_t D = M::dimension; auto p = vpts(m, fc); V<D> c = mean<D>(p); T h = diam<D>(p), big = 1+c.norm()/h; std::vector<VX> un; for (size_t i = 0; i < D; i++) un.push_back(VX::Unit(D, i));
    MX Tn(D, D-1); V<D> nrm = V<D>::Zero(); if constexpr (D == 2) Tn.col(0) = (p[1]-p[0]).normalized(); else { V<3> a = (p[1]-p[0]).normalized(), n = V<3>::Zero(); for (size_t i = 1; i+1 < p.size(); i++) n += (p[i]-p[0]).cross(p[i+1]-p[0]); nrm = n.normalized(); Tn.col(0) = a; Tn.col(1) = nrm.cross(a); }
    std::function<VX(const V<D>&)> loc = [=](const V<D>& x) -> VX { return Tn.transpose()*(x-c)/h; }; std::function<V<D>()> smp = [&]() { return random_in_face(m, fc, r); };
    { auto b = disk::make_vector_monomial_basis(m, fc, k, inertia); check("vector-face.degree()", b.degree() == k); space<D>("vector-face", k, b.size(), D*binom(k, D-1), vf<decltype(b), D>(b), tensor_space<D>(loc, D-1, 0, k, un), smp, big); }
    if constexpr (D == 3) {
        std::vector<VX> tn{Tn.col(0), Tn.col(1)}; auto tang = [&](const std::string& fam, const MX& F) { near(fam+".tangential", (F*nrm).cwiseAbs().maxCoeff(), 1e-11*(1+F.cwiseAbs().maxCoeff())*big); };
        { auto b = disk::make_vector_monomial_tangential_basis(m, fc, k); Fun<D> f = vf<decltype(b), D>(b); space<D>("tangential", k, b.size(), 2*binom(k, 2), f, tensor_space<D>(loc, 2, 0, k, tn), smp, big); tang("tangential", f(smp())); check("tangential.degree()", b.degree() == k); }
        { size_t kn = std::max<size_t>(k, 1); auto b = disk::make_vector_monomial_nedelec_tangential_basis(m, fc, kn); Fun<D> f = vf<decltype(b), D>(b); std::vector<std::array<int,3>> e; monos(2, kn+1, kn+1, e);
          Fun<D> gr = [=](const V<D>& x) { VX s = loc(x); MX o(e.size(), 3); for (size_t i = 0; i < e.size(); i++) { auto ea = e[i], eb = e[i]; T ga = 0, gb = 0; if (ea[0]) { ea[0]--; ga = (ea[0]+1)*mono(ea, s); } if (eb[1]) { eb[1]--; gb = (eb[1]+1)*mono(eb, s); } o.row(i) = (ga*Tn.col(0)+gb*Tn.col(1)).transpose(); } return o; };
          space<D>("nedelec-tangential", kn, b.size(), 2*binom(long(kn)-1, 2)+kn+2, f, sum_space<D>(tensor_space<D>(loc, 2, 0, kn-1, tn), gr), smp, big); tang("nedelec-tangential", f(smp())); check("nedelec-tangential.sizes", b.degree() == kn && disk::nedelec_tangential_basis_size(kn) == b.size()); }
    }
    sig(cat(kind<M>(), "/face/", p.size(), "/", k, inertia));
}
template<typename M> void run(size_t levels)
{
    constexpr size_t D = M::dimension; M proto;
    for (size_t v = 0; v < nvariants(proto); v++) for (size_t l = 1; l <= levels; l++) run_case(cat(kind<M>(), "/", v, "/", l), [&](Rng& r) {
        M m; make(m, r, v, D == 3 ? 1 : l); std::vector<typename M::cell> cs(m.cells_begin(), m.cells_end()); std::vector<typename M::face> fs(m.faces_begin(), m.faces_end());
        for (auto& fc : pick(m, fs, n_of(4, 14), r)) vector_face(m, fc, r.integer(0, 4), r.coin(0.4), r);
        for (auto& cl : pick(m, cs, n_of(3, 12), r, 4)) { size_t k = r.integer(0, D == 2 ? 4 : 3); vector_cell(m, cl, k, r.coin(0.4), r.coin(0.4), r);
            if constexpr (std::is_same_v<M, s2_t> || std::is_same_v<M, s3_t>) rt(m, cl, r.integer(1, D == 2 ? 4 : 3), r);
            else { auto refuses = [&](auto&& f) { try { f(); return false; } catch (const std::invalid_argument&) { return true; } };
                if (vpts(m, cl).size() != D+1) { check("RT.refuses", refuses([&]() { disk::make_vector_monomial_basis_RT(m, cl, 2); })); check("RT-matrix.refuses", refuses([&]() { disk::make_matrix_monomial_basis_RT(m, cl, 2); })); check("RT-sym-matrix.refuses", refuses([&]() { disk::make_sym_matrix_monomial_basis_RT(m, cl, 2); })); } }
        }
    });
}
int main(int argc, char **argv)
{
    init(argc, argv, "C07");
#if PART == 2
    run<s2_t>(n_of(3, 10)); run<c2_t>(n_of(2, 10)); run<g2_t>(n_of(2, 10));
#else
    run<s3_t>(n_of(2, 8)); run<c3_t>(n_of(2, 8)); run<g3_t>(n_of(3, 6));
#endif
    return finish();
}
