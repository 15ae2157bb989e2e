// C11: static condensation and recovery against the uncondensed solution.
#include "hho.hpp"
#include "diskpp/methods/hho_assemblers.hpp"
#include "diskpp/methods/implementation_hho/curl.hpp"
#include "diskpp/methods/vem"
/* local system: symmetric positive definite cell block, any coupling, invertible */
struct Sys { MX A; VX b; size_t nt, nf; VX x; bool sym; };
inline Sys system(size_t nt, size_t nf, bool sym, T spread, Rng& r)
{
    Sys s; s.nt = nt; s.nf = nf; s.sym = sym; size_t n = nt+nf; VX d(n); for (size_t i = 0; i < n; i++) d(i) = std::pow(10., r.real(-spread, spread)); MX A;
    if (sym) A = spd(n, r); else { A = MX(n, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) A(i,j) = r.normal()*0.5; A.topLeftCorner(nt, nt) = spd(nt, r); A.bottomRightCorner(nf, nf) += MX::Identity(nf, nf)*(2.*std::sqrt(T(n))+n*0.3); }
    s.A = d.asDiagonal()*A*d.asDiagonal(); s.b = d.asDiagonal()*rvec(n, r); Eigen::FullPivLU<MX> lu(A); s.x = d.cwiseInverse().asDiagonal()*VX(lu.solve(VX(d.cwiseInverse().asDiagonal()*s.b))); return s;
}
/* relative to the size of each unknown's own scale */
inline T relerr(const VX& a, const VX& b, const MX& A) { T e = 0, s = 0; for (long i = 0; i < a.size(); i++) { T d = std::sqrt(std::abs(A(i,i))); e = std::max(e, std::abs(a(i)-b(i))*d); s = std::max(s, std::abs(b(i))*d); } return e/std::max(s, 1e-300); }
inline void condensed(const std::string& fam, const Sys& s, const MX& AC, const VX& bC, T tol, const std::string& d)
{
    if (!check(fam+".shape", AC.rows() == (long)s.nf && AC.cols() == (long)s.nf && bC.size() == (long)s.nf, d)) return; VX xf = s.x.tail(s.nf); VX res = AC*xf-bC; T sc = 0, e = 0; for (size_t i = 0; i < s.nf; i++) { T di = std::sqrt(std::abs(s.A(s.nt+i,s.nt+i))); e = std::max(e, std::abs(res(i))/di); sc = std::max({sc, std::abs(s.b(s.nt+i))/di, std::abs(bC(i))/di}); for (size_t j = 0; j < s.nf; j++) sc = std::max(sc, std::abs(AC(i,j)*xf(j))/di); }
    near(fam+".solution", e/sc, tol, d); VX sf(s.nf); for (size_t i = 0; i < s.nf; i++) sf(i) = 1/std::sqrt(std::abs(s.A(s.nt+i,s.nt+i))); MX N = sf.asDiagonal()*AC*sf.asDiagonal();
    if (s.sym) { symmetric_check(fam+".symmetric", N, tol, d); Eigen::SelfAdjointEigenSolver<MX> es((N+N.transpose())/2, Eigen::EigenvaluesOnly); check(fam+".definite", es.eigenvalues().minCoeff() > 0, d); }
}
template<typename F> bool refuses(F&& f) { try { f(); } catch (const std::exception&) { return true; } return false; }
template<typename M> void cell(const M& m, const typename M::cell& cl, Rng& r)
{
    constexpr size_t D = M::dimension; size_t fd = r.integer(0, D == 3 ? 1 : 3), cd = fd == 0 ? r.integer(0, 1) : r.integer(fd-1, fd+1); disk::hho_degree_info hdi(cd, fd); bool sym = r.coin(); T spread = r.coin() ? 0 : r.real(0, 3), tol = 1e-9; std::string d = cat("cd=", cd, " fd=", fd, sym ? " sym" : " nonsym");
    { Hyb<M> h(m, cl, cd, fd); Sys s = system(h.nc, h.n-h.nc, sym, spread, r); bool real = sym && r.coin(0.4); /* a genuine local problem */
      if (real) { auto [R, A] = disk::make_scalar_hho_laplacian(m, cl, hdi); MX S = disk::make_scalar_hho_stabilization(m, cl, R, hdi); s.A = A+S; for (size_t i = 0; i < h.n; i++) s.A(i,i) *= 1.5; VX sc = s.A.diagonal().cwiseSqrt().cwiseInverse(); s.b = sc.cwiseInverse().asDiagonal()*rvec(h.n, r); s.x = sc.asDiagonal()*VX((sc.asDiagonal()*s.A*sc.asDiagonal()).eval().fullPivLu().solve(VX(sc.asDiagonal()*s.b))); d += " real"; }
      auto t = disk::make_scalar_static_condensation_withMatrix(m, cl, hdi, s.A, s.b); condensed("scalar", s, std::get<0>(t).first, std::get<0>(t).second, tol, d); auto c = disk::make_scalar_static_condensation(m, cl, hdi, s.A, s.b); check("scalar.same", c.first == std::get<0>(t).first && c.second == std::get<0>(t).second, d);
      VX xf = s.x.tail(s.nf); near("scalar.recover", relerr(disk::make_scalar_static_decondensation(m, cl, hdi, s.A, s.b, xf), s.x, s.A), tol, d); near("scalar.recover-matrix", relerr(disk::make_scalar_static_decondensation_withMatrix(std::get<1>(t), std::get<2>(t), xf), s.x, s.A), tol, d);
      /* load on the cell only */
      VX bz = s.b; bz.tail(s.nf).setZero(); VX bc = s.b.head(s.nt); auto c1 = disk::make_scalar_static_condensation(m, cl, hdi, s.A, bc), c2 = disk::make_scalar_static_condensation(m, cl, hdi, s.A, bz); check("scalar.cell-load", c1.first == c2.first && (c1.second-c2.second).norm() <= 1e-12*c2.second.norm(), d); VX any = rvec(s.nf, r); VX d1 = disk::make_scalar_static_decondensation(m, cl, hdi, s.A, bc, any), d2 = disk::make_scalar_static_decondensation(m, cl, hdi, s.A, bz, any); check("scalar.cell-load-recover", (d1-d2).norm() <= 1e-12*d2.norm() && d1.tail(s.nf) == any, d);
      VX bad(s.nt+s.nf+1); bad.setOnes(); check("scalar.size", refuses([&] { disk::make_scalar_static_condensation(m, cl, hdi, s.A, bad); }), d); if (s.nt > 1) { VX few = VX::Ones(s.nt-1); check("scalar.size-few", refuses([&] { disk::make_scalar_static_condensation(m, cl, hdi, s.A, few); }) && refuses([&] { disk::make_scalar_static_decondensation(m, cl, hdi, s.A, few, xf); }), d); }
      /* the same through the other interfaces */
      auto sb = disk::make_scalar_monomial_basis(m, cl, cd); auto sc = disk::hho::schur(s.A, s.b, sb); condensed("schur", s, sc.first, sc.second, tol, d); near("schur.recover", relerr(disk::hho::deschur(s.A, s.b, xf, sb), s.x, s.A), tol, d);
      disk::dynamic_matrix<T> DA = s.A, DF = xf; disk::dynamic_vector<T> DB = s.b, DX = xf; auto sp = disk::static_condensation(DA, DB, s.nt); condensed("split", s, sp.first, sp.second, tol, d); near("split.recover", relerr(disk::static_decondensation(DA, DB, DX), s.x, s.A), tol, d); MX only = disk::static_condensation(DA, s.nt); same_matrix("split.matrix", only, sp.first, 1e-14, d);
      /* several columns, no load on the cells */
      { disk::dynamic_matrix<T> UF = MX::Zero(s.nf, 3); for (int k = 0; k < 3; k++) UF.col(k) = xf.norm()*rvec(s.nf, r); MX U = disk::static_decondensation(DA, UF); VX z = VX::Zero(s.nt); if (check("split.columns-shape", U.rows() == s.A.rows() && U.cols() == 3)) for (int k = 0; k < 3; k++) { VX one = disk::make_scalar_static_decondensation(m, cl, hdi, s.A, z, VX(UF.col(k))); near("split.columns", relerr(U.col(k), one, s.A), tol, d); } }
      { /* boundary unknowns first */ size_t nt = s.nt, nf = s.nf, n = nt+nf; MX P = MX::Zero(n, n); for (size_t i = 0; i < nf; i++) P(i, nt+i) = 1; for (size_t i = 0; i < nt; i++) P(nf+i, i) = 1; disk::dynamic_matrix<T> PA = P*s.A*P.transpose(); disk::dynamic_vector<T> Pb = P*s.b; auto v = disk::vem::schur(PA, Pb, nf); condensed("bordered", s, v.first, v.second, tol, d); VX back = disk::vem::deschur<int, T>(PA, Pb, DX, nf); near("bordered.recover", relerr(P.transpose()*back, s.x, s.A), tol, d); }
      sig(cat(kind<M>(), "/scalar/", h.fcs.size(), "/", cd, fd, sym, real)); }
    { size_t fv = r.integer(fd == 0 ? 1 : 1, D == 3 ? 1 : 2), cv = r.integer(fv-1 < 1 ? 0 : fv-1, fv+1); if (cv+1 < fv) cv = fv; disk::hho_degree_info hv(cv, fv); Hyb<M> h(m, cl, cv, fv, true); Sys s = system(h.nc, h.n-h.nc, sym, spread, r); std::string dv = cat("vector cd=", cv, " fd=", fv); VX xf = s.x.tail(s.nf);
      auto t = disk::make_vector_static_condensation_withMatrix(m, cl, hv, s.A, s.b); condensed("vector", s, std::get<0>(t).first, std::get<0>(t).second, tol, dv); auto c = disk::make_vector_static_condensation(m, cl, hv, s.A, s.b); check("vector.same", c.first == std::get<0>(t).first && c.second == std::get<0>(t).second, dv);
      near("vector.recover", relerr(disk::make_vector_static_decondensation(m, cl, hv, s.A, s.b, xf), s.x, s.A), tol, dv); near("vector.recover-matrix", relerr(disk::make_vector_static_decondensation_withMatrix(std::get<1>(t), std::get<2>(t), xf), s.x, s.A), tol, dv);
      VX bc = s.b.head(s.nt); VX bz = s.b; bz.tail(s.nf).setZero(); auto c1 = disk::make_vector_static_condensation(m, cl, hv, s.A, bc), c2 = disk::make_vector_static_condensation(m, cl, hv, s.A, bz); check("vector.cell-load", c1.first == c2.first && (c1.second-c2.second).norm() <= 1e-12*c2.second.norm(), dv); VX bad = VX::Ones(s.nt+s.nf+2); check("vector.size", refuses([&] { disk::make_vector_static_condensation(m, cl, hv, s.A, bad); }), dv);
      sig(cat(kind<M>(), "/vector/", h.fcs.size(), "/", cv, fv, sym)); }
    { /* a degree per face */ size_t cv = r.integer(0, 1); auto dg = random_degrees(m, cl, 2, true, r); Hyb<M> h(m, cl, cv, dg, true); if (h.n > h.nc) { disk::MeshDegreeInfo<M> mdi(m, cv, 1, 1); degrees_into(mdi, m, cl, dg); Sys s = system(h.nc, h.n-h.nc, sym, spread, r); auto t = disk::make_vector_static_condensation_withMatrix(m, cl, mdi, s.A, s.b); condensed("degrees", s, std::get<0>(t).first, std::get<0>(t).second, tol, h.str()); VX xf = s.x.tail(s.nf); near("degrees.recover", relerr(disk::make_vector_static_decondensation_withMatrix(std::get<1>(t), std::get<2>(t), xf), s.x, s.A), tol, h.str());
      Sys s2 = system(h.nc, h.n-h.nc+3, sym, spread, r); auto t2 = disk::make_vector_static_condensation_withMatrix(m, cl, mdi, s2.A, s2.b, false); condensed("extra-unknowns", s2, std::get<0>(t2).first, std::get<0>(t2).second, tol, h.str()); sig(cat(kind<M>(), "/degrees/", h.str())); } }
}
template<typename M> void run(size_t levels)
{
    constexpr size_t D = M::dimension; M proto;
    for (size_t v = 0; v < nvariants(proto); v++) for (size_t l = 1; l <= levels; l++) run_case(cat(kind<M>(), "/", v, "/", l), [&](Rng& r) {
        M m; make(m, r, v, D == 3 ? 1 : l); std::vector<typename M::cell> cs(m.cells_begin(), m.cells_end()); for (auto& cl : pick(m, cs, n_of(3, 12), r, 4)) cell(m, cl, r); });
}
int main(int argc, char **argv)
{
    init(argc, argv, "C11");
    run<s2_t>(n_of(4, 10)); run<c2_t>(n_of(3, 10)); run<g2_t>(n_of(3, 10)); run<s3_t>(n_of(2, 6)); run<g3_t>(n_of(1, 4));
    return finish();
}
