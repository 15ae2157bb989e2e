// C08: L2 projections, mass and stiffness matrices, on cells, faces and the
// hybrid space of a cell. Moments are recomputed with the oracle's quadrature.
#include "hho.hpp"

template<size_t D, typename B> MX vals(const B& b, const pt<D>& x)
{
    auto f = b.eval_functions(x);
    if constexpr (std::is_same_v<std::decay_t<decltype(f)>, disk::eigen_compatible_stdvector<disk::static_matrix<T,D,D>>>) return flat<D>(f); else return MX(f);
}
template<size_t D, typename B> MX grads(const B& b, const pt<D>& x)
{
    auto f = b.eval_gradients(x);
    if constexpr (std::is_same_v<std::decay_t<decltype(f)>, disk::eigen_compatible_stdvector<disk::static_matrix<T,D,D>>>) return flat<D>(f); else return MX(f);
}
template<typename M, typename E> QP<M::dimension> qps(const M& m, const E& e, size_t d) { if constexpr (std::is_same_v<E, typename M::cell>) return qps_cell(m, e, d); else return qps_face(m, e, d); }

template<typename M, typename E, typename B> MX mass(const std::string& fam, const M& m, const E& e, const B& b, T tol, Rng& r)
{
    constexpr size_t D = M::dimension; MX A = MX::Zero(b.size(), b.size()); for (auto& [q, w] : qps(m, e, 2*b.degree())) { MX v = vals<D>(b, q); A += w*v*v.transpose(); }
    MX L = disk::make_mass_matrix(m, e, b); same_matrix(fam+".mass", L, A, tol, cat("degree ", b.degree())); symmetric_check(fam+".mass-symmetric", L, 1e-14); posdef_check(fam+".mass-definite", L, 1e-13);
    check(fam+".mass-ldlt", L.ldlt().isPositive()); size_t di = r.integer(1,2); same_matrix(fam+".mass-extra-degree", disk::make_mass_matrix(m, e, b, di), A, tol);
    return A;
}
template<typename M, typename E, typename B> void stiff(const std::string& fam, const M& m, const E& e, const B& b, size_t kernel, T tol)
{
    constexpr size_t D = M::dimension; size_t k = b.degree(); MX A = MX::Zero(b.size(), b.size()); for (auto& [q, w] : qps(m, e, 2*k)) { MX v = grads<D>(b, q); A += w*v*v.transpose(); }
    MX L = disk::make_stiffness_matrix(m, e, b); if (k == 0) { near(fam+".stiffness-zero", L.norm(), 0.); return; }
    same_matrix(fam+".stiffness", L, A, tol, cat("degree ", k)); symmetric_check(fam+".stiffness-symmetric", L, 1e-14); posdef_check(fam+".stiffness-semidefinite", L, 1e-13);
    near(fam+".stiffness-kernel", L.topRows(kernel).norm()/L.norm(), 1e-13, "constants have energy"); VX dg = A.diagonal().tail(A.rows()-kernel).cwiseSqrt().cwiseInverse(); MX S = dg.asDiagonal()*L.block(kernel, kernel, A.rows()-kernel, A.rows()-kernel)*dg.asDiagonal();
    Eigen::SelfAdjointEigenSolver<MX> es(S, Eigen::EigenvaluesOnly); near(fam+".stiffness-only-constants", 1e-12/std::max(es.eigenvalues()(0), 1e-300), 1, cat("smallest eigenvalue ", es.eigenvalues()(0)));
}
/* f is a function of degree fd; p the coefficients returned */
template<typename M, typename E, typename B, typename F> void projection(const std::string& fam, const M& m, const E& e, const B& b, const VX& p, const F& f, size_t fd, T tol)
{
    constexpr size_t D = M::dimension; size_t n = b.size(); if (!check(fam+".projection-size", (size_t)p.size() == n, cat("got ", p.size(), " want ", n))) return;
    MX A = MX::Zero(n, n); VX c = VX::Zero(n); T ff = 0; auto qq = qps(m, e, std::max(2*b.degree(), b.degree()+fd)); for (auto& [q, w] : qq) { MX v = vals<D>(b, q); VX g = f(q); A += w*v*v.transpose(); c += w*v*g; ff += w*g.squaredNorm(); }
    /* orthogonality of the error: |(f - p, phi_i)| against |f| |phi_i| */
    VX R = A*p-c; T worst = 0; for (size_t i = 0; i < n; i++) worst = std::max(worst, std::abs(R(i))/std::sqrt(std::max(ff*A(i,i), 1e-300))); near(fam+".orthogonal", worst, tol, cat("degree ", b.degree(), " of a function of degree ", fd));
    if (fd <= b.degree()) { T err = 0; for (auto& [q, w] : qq) { VX d = vals<D>(b, q).transpose()*p-VX(f(q)); err += w*d.squaredNorm(); } near(fam+".reproduces", std::sqrt(std::max(err, 0.)/std::max(ff, 1e-300)), tol*std::pow(10., b.degree()), cat("degree ", b.degree(), " of a polynomial of degree ", fd)); }
}
template<typename M, typename E> void scalar_elem(const std::string& fam, const M& m, const E& e, size_t k, Rng& r)
{
    constexpr size_t D = M::dimension; auto fr = lframe(m, e); T tol = itol(m, e)*fr.big*(1+k*k); bool isc = std::is_same_v<E, typename M::cell>;
    auto b = disk::make_scalar_monomial_basis(m, e, k); mass(fam, m, e, b, tol, r); if constexpr (std::is_same_v<E, typename M::cell>) stiff(fam, m, e, b, 1, tol*10);
    size_t fd = r.coin() ? r.integer(0, k) : k+r.integer(1, 3); size_t di = fd > k ? (fd-k+1)/2 : r.integer(0, 2); auto f = Poly<D>::random(fd, r, fr.c, fr.h); auto fn = [&](const pt<D>& x) -> T { return f(x); }; auto fv = [&](const pt<D>& x) { return VX::Constant(1, f(x)); };
    VX rhs = disk::make_rhs(m, e, b, fn, di), want = VX::Zero(b.size()); T sc = 0; for (auto& [q, w] : qps(m, e, k+fd)) { VX v = b.eval_functions(q); want += w*f(q)*v; sc += w*std::abs(f(q)); } near(fam+".rhs", (rhs-want).norm()/std::max(sc, 1e-300), tol, cat("degrees ", k, " ", fd));
    VX p1 = disk::project_function(m, e, k, disk::scalar_rhs_function<M>(fn), di), p2 = disk::project_function(m, e, b, disk::scalar_rhs_function<M>(fn), di); projection(fam, m, e, b, p1, fv, fd, tol); projection(fam+"-basis", m, e, b, p2, fv, fd, tol);
    /* twice */ auto again = [&](const pt<D>& x) -> T { return disk::eval(p1, VX(b.eval_functions(x))); }; VX p3 = disk::project_function(m, e, k, disk::scalar_rhs_function<M>(again)); near(fam+".twice", (p3-p1).norm()/std::max(p1.norm(), 1e-300), tol*std::pow(10., k)*10);
    { T kap = r.real(0.5, 3); auto mat = [&](const pt<D>&) -> T { return kap; };
_Pragma("GCC diagnostic push") _Pragma("GCC diagnostic ignored \"-Wdeprecated-declarations\"")
      same_matrix(fam+".mass-material", disk::make_mass_matrix(m, e, b, mat), kap*MX(disk::make_mass_matrix(m, e, b)), 1e-13);
_Pragma("GCC diagnostic pop") }
    sig(cat(kind<M>(), isc ? "/cell/" : "/face/", shape_sig(m, e), "/", k, "/", fd));
}
template<typename M, typename E> void vector_elem(const std::string& fam, const M& m, const E& e, size_t k, Rng& r)
{
    constexpr size_t D = M::dimension; auto fr = lframe(m, e); T tol = itol(m, e)*fr.big*(1+k*k); auto b = disk::make_vector_monomial_basis(m, e, k); mass(fam, m, e, b, tol, r);
    size_t fd = r.coin() ? r.integer(0, k) : k+r.integer(1, 3); size_t di = fd > k ? (fd-k+1)/2 : 0; auto f = vpoly<D>(fd, r, fr.c, fr.h); auto fn = [&](const pt<D>& x) -> V<D> { return veval<D>(f, x); }; auto fv = [&](const pt<D>& x) { return VX(veval<D>(f, x)); };
    VX p1 = disk::project_function(m, e, k, disk::vector_rhs_function<M>(fn), di), p2 = disk::project_function(m, e, b, disk::vector_rhs_function<M>(fn), di); projection(fam, m, e, b, p1, fv, fd, tol); projection(fam+"-basis", m, e, b, p2, fv, fd, tol);
    if constexpr (std::is_same_v<E, typename M::cell>) {
        stiff(fam, m, e, b, D, tol*10);
        { Eigen::Matrix<T,D,D> K = spd(D, r); auto mat = [&](const pt<D>&) -> Eigen::Matrix<T,D,D> { return K; }; MX A = MX::Zero(b.size(), b.size()); for (auto& [q, w] : qps(m, e, 2*k)) { MX v = vals<D>(b, q); A += w*v*K*v.transpose(); }
_Pragma("GCC diagnostic push") _Pragma("GCC diagnostic ignored \"-Wdeprecated-declarations\"")
          same_matrix(fam+".mass-tensor", disk::make_mass_matrix(m, e, b, mat), A, tol);
_Pragma("GCC diagnostic pop") }
        if (k >= 1) { /* gradient projection: (grad p - F, grad w) = 0 */
            size_t gd = r.integer(0, k), gi = 0; std::array<VPoly<D>, D> F; for (auto& row : F) row = vpoly<D>(gd, r, fr.c, fr.h); auto Fn = [&](const pt<D>& x) -> Eigen::Matrix<T,D,D> { Eigen::Matrix<T,D,D> g; for (size_t i = 0; i < D; i++) g.row(i) = veval<D>(F[i], x).transpose(); return g; };
            VX p = disk::project_gradient(m, e, k, disk::matrix_rhs_function<M>(Fn), gi); size_t n = b.size(); if (check(fam+".gradient-size", (size_t)p.size() == n-D)) { MX A = MX::Zero(n, n); VX c = VX::Zero(n); T ff = 0; for (auto& [q, w] : qps(m, e, 2*k)) { MX g = grads<D>(b, q); auto Q = Fn(q); VX y(D*D); for (size_t i = 0; i < D; i++) for (size_t j = 0; j < D; j++) y(i*D+j) = Q(i,j); A += w*g*g.transpose(); c += w*g*y; ff += w*y.squaredNorm(); }
                VX R = A.bottomRightCorner(n-D, n-D)*p-c.tail(n-D); T worst = 0; for (size_t i = 0; i < n-D; i++) worst = std::max(worst, std::abs(R(i))/std::sqrt(std::max(ff*A(i+D,i+D), 1e-300))); near(fam+".gradient-orthogonal", worst, tol*10, cat("degree ", k)); }
        }
        /* matrix bases */
        size_t km = std::min<size_t>(k, D == 3 ? 2 : 3); T t2 = tol*10; auto mb = disk::make_matrix_monomial_basis(m, e, km); mass("matrix-cell", m, e, mb, t2, r); auto sb = disk::make_sym_matrix_monomial_basis(m, e, km); mass("sym-matrix-cell", m, e, sb, t2, r);
        auto Fn = [&](const pt<D>& x) -> Eigen::Matrix<T,D,D> { return vgrad<D>(f, x); }; VX rhs = disk::make_rhs(m, e, mb, Fn, (fd+1)/2), want = VX::Zero(mb.size()); T sc = 0; for (auto& [q, w] : qps(m, e, km+fd)) { auto Q = Fn(q); MX g = vals<D>(mb, q); VX y(D*D); for (size_t i = 0; i < D; i++) for (size_t j = 0; j < D; j++) y(i*D+j) = Q(i,j); want += w*g*y; sc += w*y.norm(); } near("matrix-cell.rhs", (rhs-want).norm()/std::max(sc, 1e-300), t2);
        VX tr = disk::trace(mb.eval_functions(P<D>(fr.c))); auto ev = mb.eval_functions(P<D>(random_in_cell(m, e, r))); VX te = disk::trace(ev), co = rvec(mb.size(), r); Eigen::Matrix<T,D,D> acc = disk::eval(co, ev), ac2 = Eigen::Matrix<T,D,D>::Zero(); T wt = 0; for (size_t i = 0; i < ev.size(); i++) { ac2 += co(i)*ev[i]; T t = 0; for (size_t a = 0; a < D; a++) t += ev[i](a,a); wt = std::max(wt, std::abs(t-te(i))); } near("eval.matrix", (acc-ac2).norm(), 1e-12*co.size()*(1+ac2.norm())); near("eval.trace", wt, 1e-12);
        if constexpr (std::is_same_v<M, s2_t> || std::is_same_v<M, s3_t>) { size_t kr = std::max<size_t>(1, km); mass("RT", m, e, disk::make_vector_monomial_basis_RT(m, e, kr), t2, r); mass("RT-matrix", m, e, disk::make_matrix_monomial_basis_RT(m, e, kr), t2, r); mass("RT-sym-matrix", m, e, disk::make_sym_matrix_monomial_basis_RT(m, e, kr), t2, r); }
    }
}
template<typename M> void hybrid(const M& m, const typename M::cell& cl, size_t cd, size_t fd, Rng& r)
{
    constexpr size_t D = M::dimension; auto fr = lframe(m, cl); auto fcs = faces(m, cl); disk::hho_degree_info hdi(cd, fd); size_t pd = std::max(cd, fd)+r.integer(0, 2), di = 2; auto f = Poly<D>::random(pd, r, fr.c, fr.h); auto g = vpoly<D>(pd, r, fr.c, fr.h);
    auto fs = disk::scalar_rhs_function<M>([&](const pt<D>& x) -> T { return f(x); }); auto fvv = disk::vector_rhs_function<M>([&](const pt<D>& x) -> V<D> { return veval<D>(g, x); });
    auto s1 = [&](const pt<D>& x) { return VX::Constant(1, f(x)); }; auto v1 = [&](const pt<D>& x) { return VX(veval<D>(g, x)); };
    /* degrees, possibly different on every face */
    disk::MeshDegreeInfo<M> mdi(m, cd, fd); std::vector<disk::DegreeInfo> fdi; for (auto& fc : fcs) { bool has = !r.coin(0.2); size_t k = r.integer(0, 3); mdi.degree(m, fc, k); mdi.hasUnknowns(m, fc, has); fdi.push_back(disk::DegreeInfo(has, k)); }
    auto split = [&](const std::string& fam, const VX& p, auto vec, auto degs, auto proj) { /* check every block of a hybrid vector */
        size_t nc = vec ? D*binom(cd, D) : binom(cd, D), tot = nc; std::vector<size_t> off; for (size_t i = 0; i < fcs.size(); i++) { off.push_back(tot); auto d = degs(i); if (d.hasUnknowns()) tot += (vec ? D : 1)*binom(d.degree(), D-1); }
        if (!check(fam+".size", (size_t)p.size() == tot, cat("got ", p.size(), " want ", tot))) return; proj(fam+".cell", cl, cd, VX(p.head(nc))); for (size_t i = 0; i < fcs.size(); i++) if (degs(i).hasUnknowns()) proj(fam+".face", fcs[i], degs(i).degree(), VX(p.segment(off[i], (vec ? D : 1)*binom(degs(i).degree(), D-1)))); };
    auto ps = [&](const std::string& fam, auto& e, size_t k, const VX& p) { auto lf = lframe(m, e); projection(fam, m, e, disk::make_scalar_monomial_basis(m, e, k), p, s1, pd, itol(m, e)*(1+pd*pd)*lf.big); };
    auto pv = [&](const std::string& fam, auto& e, size_t k, const VX& p) { auto lf = lframe(m, e); projection(fam, m, e, disk::make_vector_monomial_basis(m, e, k), p, v1, pd, itol(m, e)*(1+pd*pd)*lf.big); };
    auto uni = [&](size_t) { return disk::DegreeInfo(fd); }; auto var = [&](size_t i) { return fdi[i]; };
    split("hybrid-scalar", disk::project_function(m, cl, hdi, fs, di), false, uni, ps); split("hybrid-vector", disk::project_function(m, cl, hdi, fvv, di), true, uni, pv);
    split("hybrid-scalar-degrees", disk::project_function(m, cl, mdi, fs, (pd+1)/2), false, var, ps); split("hybrid-vector-degrees", disk::project_function(m, cl, mdi, fvv, (pd+1)/2), true, var, pv);
    if constexpr (D == 3) { /* tangential traces: the face part is the projection of n x (u x n) */
        auto tang = [&](const std::string& fam, const VX& p, bool ned, auto mk, size_t fbs) { size_t nc = 3*binom(cd, 3); if (!check(fam+".size", (size_t)p.size() == nc+fbs*fcs.size(), cat("got ", p.size(), " want ", nc+fbs*fcs.size()))) return; pv(fam+".cell", cl, cd, VX(p.head(nc)));
            for (size_t i = 0; i < fcs.size(); i++) { V<3> n = outward(m, cl, fcs[i]); auto tf = [&](const pt<3>& x) { V<3> u = veval<3>(g, x); return VX(u-n*n.dot(u)); }; auto b = mk(fcs[i]); auto lf = lframe(m, fcs[i]); VX q = p.segment(nc+i*fbs, fbs); projection(fam+".face", m, fcs[i], b, q, tf, ned ? 99 : pd, itol(m, fcs[i])*(1+pd*pd)*lf.big); } };
        tang("tangent", disk::project_tangent(m, cl, hdi, fvv, di), false, [&](auto& fc) { return disk::make_vector_monomial_tangential_basis(m, fc, fd); }, 2*binom(fd, 2));
        size_t fn = std::max<size_t>(fd, 1); disk::hho_degree_info h2(cd, fn); if (h2.cell_degree() == cd) tang("tangent-nedelec", disk::project_tangent_nedelec(m, cl, h2, fvv, di), true, [&](auto& fc) { return disk::make_vector_monomial_nedelec_tangential_basis(m, fc, fn); }, 2*binom(long(fn)-1, 2)+fn+2);
        auto& fc = fcs[r.integer(0, fcs.size()-1)]; VX p = disk::project_tangent(m, fc, fd, fvv, di); V<3> n = outward(m, cl, fc); auto tf = [&](const pt<3>& x) { V<3> u = veval<3>(g, x); return VX(u-n*n.dot(u)); }; projection("tangent-face", m, fc, disk::make_vector_monomial_tangential_basis(m, fc, fd), p, tf, pd, itol(m, fc)*(1+pd*pd)*lframe(m, fc).big);
    }
}
template<typename M> void run(size_t levels)
{
    constexpr size_t D = M::dimension; M proto;
    for (size_t v = 0; v < nvariants(proto); v++) for (size_t l = 1; l <= levels; l++) run_case(cat(kind<M>(), "/", v, "/", l), [&](Rng& r) {
        M m; make(m, r, v, D == 3 ? 1 : l); std::vector<typename M::cell> cs(m.cells_begin(), m.cells_end()); std::vector<typename M::face> fs(m.faces_begin(), m.faces_end());
        for (auto& cl : pick(m, cs, n_of(2, 10), r, 4)) { scalar_elem("scalar-cell", m, cl, r.integer(0, D == 3 ? 4 : 5), r); if constexpr (D > 1) { vector_elem("vector-cell", m, cl, r.integer(0, D == 3 ? 2 : 3), r); size_t fd = r.integer(0, D == 3 ? 2 : 3), cd = fd == 0 ? r.integer(0, 1) : r.integer(fd-1, fd+1); hybrid(m, cl, cd, fd, r); } }
        if constexpr (D > 1) for (auto& fc : pick(m, fs, n_of(3, 14), r)) { scalar_elem("scalar-face", m, fc, r.integer(0, 4), r); vector_elem("vector-face", m, fc, r.integer(0, 3), r); }
    });
}
int main(int argc, char **argv)
{
    init(argc, argv, "C08");
#if PART == 2
    run<g1_t>(n_of(3, 8)); run<s2_t>(n_of(3, 10)); run<c2_t>(n_of(2, 10)); run<g2_t>(n_of(2, 10));
#else
    run<s3_t>(n_of(2, 8)); run<c3_t>(n_of(2, 8)); run<g3_t>(n_of(3, 6));
#endif
    return finish();
}
