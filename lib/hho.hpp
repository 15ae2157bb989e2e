// Shared pieces of the HHO harnesses: hybrid spaces evaluated through the
// library's bases (monitored by C06 and C07), integrated with the oracle's own
// quadrature and normals.
#pragma once
#include "oracle.hpp"
#include "diskpp/bases/bases.hpp"
#include "diskpp/methods/hho"
using namespace vm; using namespace orc; using namespace mon;
using MX = Eigen::MatrixXd; using VX = Eigen::VectorXd;
inline size_t binom(long k, size_t d) { if (k < 0) return 0; double r = 1; for (size_t i = 1; i <= d; i++) r = r*(k+i)/i; return (size_t)std::llround(r); }
template<typename M> struct LocalFrame { V<M::dimension> c; T h, big; };
template<typename M, typename E> LocalFrame<M> lframe(const M& m, const E& e) { constexpr size_t D = M::dimension; auto p = vpts(m, e); LocalFrame<M> f; f.c = mean<D>(p); f.h = diam<D>(p); f.big = 1+f.c.norm()/f.h; return f; }
/* ratio between the largest and smallest extents: ill shaped elements amplify rounding */
template<typename M> T aspect(const M& m, const typename M::cell& cl) { constexpr size_t D = M::dimension; T h = diam<D>(vpts(m, cl)); T a = std::pow(h, T(D))/meas_cell(m, cl); for (auto& f : faces(m, cl)) a = std::max(a, h/std::max(diam<D>(vpts(m, f)), 1e-300)); return a; }
inline MX spd(size_t n, mon::Rng& r, T lo = 0.2, T hi = 5) { MX A(n, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) A(i,j) = r.normal(); Eigen::HouseholderQR<MX> q(A); MX Q = q.householderQ(); VX d(n); for (size_t i = 0; i < n; i++) d(i) = r.real(lo, hi); MX K = Q*d.asDiagonal()*Q.transpose(); return (K+K.transpose())/2; }
inline VX rvec(size_t n, mon::Rng& r) { VX v(n); for (size_t i = 0; i < n; i++) v(i) = r.real(-1,1); return v; }
inline bool posdef_check(const std::string& key, const MX& A, T tol, const std::string& msg = "")
{ Eigen::SelfAdjointEigenSolver<MX> es((A+A.transpose())/2, Eigen::EigenvaluesOnly); T mx = std::max(std::abs(es.eigenvalues().maxCoeff()), 1e-300); return near(key, std::max(T(0), -es.eigenvalues().minCoeff())/mx, tol, msg); }
inline bool symmetric_check(const std::string& key, const MX& A, T tol, const std::string& msg = "") { return near(key, (A-A.transpose()).norm()/std::max(A.norm(), 1e-300), tol, msg); }
/* residual of K*X = B relative to its terms, column by column */
inline bool residual_check(const std::string& key, const MX& K, const MX& X, const MX& B, T tol, const std::string& msg = "")
{ if (!check(key+".shape", K.cols() == X.rows() && K.rows() == B.rows() && X.cols() == B.cols(), cat(msg, " got ", X.rows(), "x", X.cols(), " want ", K.cols(), "x", B.cols()))) return false; MX R = K*X-B; T s = std::max(B.norm(), K.norm()*X.norm()*1e-3); return near(key, R.norm()/std::max(s, 1e-300), tol, msg); }
inline bool same_matrix(const std::string& key, const MX& A, const MX& B, T tol, const std::string& msg = "")
{ if (!check(key+".shape", A.rows() == B.rows() && A.cols() == B.cols(), cat(msg, " got ", A.rows(), "x", A.cols(), " want ", B.rows(), "x", B.cols()))) return false; return near(key, (A-B).norm()/std::max(B.norm(), 1e-300), tol, msg); }
inline VX weighted_solve(const MX& A, const VX& b) { VX s = A.diagonal().cwiseAbs().cwiseSqrt().cwiseInverse(); MX B = s.asDiagonal()*A*s.asDiagonal(); VX c = s.cwiseProduct(b); return s.cwiseProduct(VX(B.ldlt().solve(c))); }
inline MX weighted_solve(const MX& A, const MX& b) { VX s = A.diagonal().cwiseAbs().cwiseSqrt().cwiseInverse(); MX B = s.asDiagonal()*A*s.asDiagonal(); MX c = s.asDiagonal()*b; return s.asDiagonal()*MX(B.ldlt().solve(c)); }
template<size_t D> using VPoly = std::array<Poly<D>, D>;
template<size_t D> VPoly<D> vpoly(int deg, mon::Rng& r, const V<D>& c, T h) { VPoly<D> p; for (auto& q : p) q = Poly<D>::random(deg, r, c, h); return p; }
template<size_t D> V<D> veval(const VPoly<D>& p, const pt<D>& x) { V<D> v; for (size_t i = 0; i < D; i++) v(i) = p[i](x); return v; }
template<size_t D> Eigen::Matrix<T,D,D> vgrad(const VPoly<D>& p, const pt<D>& x) { Eigen::Matrix<T,D,D> g; for (size_t i = 0; i < D; i++) g.row(i) = p[i].grad(x).transpose(); return g; }
/* values of a matrix basis as n x D*D rows */
template<size_t D, typename F> MX flat(const F& f) { MX r(f.size(), D*D); for (size_t i = 0; i < (size_t)f.size(); i++) for (size_t a = 0; a < D; a++) for (size_t c = 0; c < D; c++) r(i, a*D+c) = f[i](a,c); return r; }
/* relative accuracy of the library's integrals: areas of slender triangles come from edge lengths, which loses half of the digits */
template<typename M, typename E> T itol(const M& m, const E& e) { if constexpr (std::is_same_v<M, g3_t>) { auto bad = [&](auto& f) { return f.point_ids().size() > 4 || shape_sig(m, f).find('a') != std::string::npos; }; if constexpr (std::is_same_v<E, typename M::face>) return bad(e) ? 2e-7 : 1e-11; else { for (auto& f : faces(m, e)) if (bad(f)) return 2e-7; } } return 1e-11; }
/* hybrid space of a cell, possibly with a degree per face */
template<typename M> struct Hyb {
    static constexpr size_t D = M::dimension; const M& m; typename M::cell cl; std::vector<typename M::face> fcs; size_t cd; std::vector<disk::DegreeInfo> fdi; std::vector<size_t> off; size_t nc, n, vec;
    Hyb(const M& m_, const typename M::cell& c, size_t cd_, std::vector<disk::DegreeInfo> f, bool vec_ = false) : m(m_), cl(c), cd(cd_), fdi(f), vec(vec_ ? D : 1) { for (auto& x : faces(m, cl)) fcs.push_back(x); nc = vec*binom(cd, D); n = nc; for (auto& d : fdi) { off.push_back(n); if (d.hasUnknowns()) n += vec*binom(d.degree(), D-1); } }
    Hyb(const M& m_, const typename M::cell& c, size_t cd_, size_t fd, bool vec_ = false) : Hyb(m_, c, cd_, std::vector<disk::DegreeInfo>(howmany_faces(m_, c), disk::DegreeInfo(fd)), vec_) {}
    size_t nf(size_t i) const { return fdi[i].hasUnknowns() ? vec*binom(fdi[i].degree(), D-1) : 0; }
    size_t maxfd() const { size_t k = 0; for (auto& d : fdi) if (d.hasUnknowns()) k = std::max(k, d.degree()); return k; }
    disk::CellDegreeInfo<M> info(size_t rd, size_t gd) const { return disk::CellDegreeInfo<M>(cd, rd, gd, fdi); }
    std::string str() const { std::string s = mon::cat("cd=", cd, " fd="); for (auto& d : fdi) s += d.hasUnknowns() ? std::to_string(d.degree()) : std::string("-"); return s; }
    /* rows of the hybrid unknowns as functions: jump u_F - u_T on face i (nf+nc unknowns at off/0) */
    MX cellv(const pt<D>& x) const { if (vec == 1) return disk::make_scalar_monomial_basis(m, cl, cd).eval_functions(x); return disk::make_vector_monomial_basis(m, cl, cd).eval_functions(x); }
    MX facev(size_t i, const pt<D>& x) const { if (vec == 1) return disk::make_scalar_monomial_basis(m, fcs[i], fdi[i].degree()).eval_functions(x); return disk::make_vector_monomial_basis(m, fcs[i], fdi[i].degree()).eval_functions(x); }
    /* trace of u_T on face i replaced by its projection on the face space: matrix nf x nc of coefficients */
    MX face_mass(size_t i) const { MX A = MX::Zero(nf(i), nf(i)); for (auto& [q, w] : qps_face(m, fcs[i], 2*fdi[i].degree())) { MX f = facev(i, q); A += w*f*f.transpose(); } return A; }
    MX proj_trace(size_t i) const { MX B = MX::Zero(nf(i), nc); for (auto& [q, w] : qps_face(m, fcs[i], fdi[i].degree()+cd)) B += w*facev(i, q)*cellv(q).transpose(); return weighted_solve(face_mass(i), B); }
};
/* random degrees per face; unknowns may be absent on some */
template<typename M> std::vector<disk::DegreeInfo> random_degrees(const M& m, const typename M::cell& cl, size_t kmax, bool absent, mon::Rng& r) { std::vector<disk::DegreeInfo> v; for (size_t i = 0; i < howmany_faces(m, cl); i++) v.push_back(disk::DegreeInfo(!(absent && r.coin(0.2)), (size_t)r.integer(0, kmax))); return v; }
template<typename M> void degrees_into(disk::MeshDegreeInfo<M>& mdi, const M& m, const typename M::cell& cl, const std::vector<disk::DegreeInfo>& f) { size_t i = 0; for (auto& fc : faces(m, cl)) { mdi.degree(m, fc, f[i].degree()); mdi.hasUnknowns(m, fc, f[i].hasUnknowns()); i++; } }
