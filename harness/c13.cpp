// C13: vector, elasticity and divergence operators of HHO, compared with their
// defining equations (integrated by the oracle) and applied to interpolates of
// polynomial displacements and of rigid motions.
#include "hho.hpp"
template<size_t D> using DT = Eigen::Matrix<T,D,D>;
template<size_t D> DT<D> sym(const DT<D>& g) { return (g+g.transpose())/2; }
template<size_t D> DT<D> spin(mon::Rng& r, T h) { DT<D> W = DT<D>::Zero(); for (size_t i = 0; i < D; i++) for (size_t j = 0; j < i; j++) { W(i,j) = r.real(0.3,1)*(r.coin() ? 1 : -1)/h; W(j,i) = -W(i,j); } return W; }
template<typename M> VX vinterp(const M& m, const typename M::cell& cl, const disk::hho_degree_info& hdi, const VPoly<M::dimension>& p) { constexpr size_t D = M::dimension; return disk::project_function(m, cl, hdi, disk::vector_rhs_function<M>([&](const pt<D>& x) -> V<D> { return veval<D>(p, x); }), 2); }
/* interpolate in a space with a degree per face, by the oracle's integrals */
template<typename M> VX hinterp(const Hyb<M>& h, const VPoly<M::dimension>& p, int deg)
{
    VX u = VX::Zero(h.n); MX A = MX::Zero(h.nc, h.nc); VX b = VX::Zero(h.nc); for (auto& [q, w] : qps_cell(h.m, h.cl, h.cd+std::max<int>(h.cd, deg))) { MX c = h.cellv(q); A += w*c*c.transpose(); b += w*c*veval<M::dimension>(p, q); } u.head(h.nc) = weighted_solve(A, b);
    for (size_t i = 0; i < h.fcs.size(); i++) if (h.nf(i)) { VX f = VX::Zero(h.nf(i)); for (auto& [q, w] : qps_face(h.m, h.fcs[i], h.fdi[i].degree()+deg)) f += w*MX(h.facev(i, q))*veval<M::dimension>(p, q); u.segment(h.off[i], h.nf(i)) = weighted_solve(h.face_mass(i), f); }
    return u;
}
template<size_t D> MX flats(const std::vector<DT<D>>& f, bool s) { MX r(f.size(), D*D); for (size_t i = 0; i < f.size(); i++) { DT<D> g = s ? sym<D>(f[i]) : f[i]; for (size_t a = 0; a < D; a++) for (size_t c = 0; c < D; c++) r(i, a*D+c) = g(a,c); } return r; }
template<size_t D, typename F> std::vector<DT<D>> dts(const F& f) { std::vector<DT<D>> r; for (size_t i = 0; i < (size_t)f.size(); i++) r.push_back(f[i]); return r; }
template<size_t D> VX flat1(const DT<D>& g) { VX v(D*D); for (size_t a = 0; a < D; a++) for (size_t c = 0; c < D; c++) v(a*D+c) = g(a,c); return v; }
/* n applied on the right: values of the trace of tau*n */
template<size_t D> MX tn(const std::vector<DT<D>>& f, const V<D>& n) { MX r(f.size(), D); for (size_t i = 0; i < f.size(); i++) r.row(i) = (f[i]*n).transpose(); return r; }

/* (A, B): A X = B with test functions tau = g_i: int tau:grad uT + sum int tau n . (uF - uT) */
template<typename M, typename G> std::pair<MX, MX> system(const Hyb<M>& h, G&& test, size_t ntest, int tdeg, bool s)
{
    constexpr size_t D = M::dimension; MX A = MX::Zero(ntest, ntest), B = MX::Zero(ntest, h.n); auto cb = disk::make_vector_monomial_basis(h.m, h.cl, h.cd);
    for (auto& [q, w] : qps_cell(h.m, h.cl, tdeg+std::max<int>(tdeg, h.cd))) { MX t = flats<D>(test(q), s); MX g = flats<D>(dts<D>(cb.eval_gradients(q)), s); A += w*t*t.transpose(); B.leftCols(h.nc) += w*t*g.transpose(); }
    for (size_t i = 0; i < h.fcs.size(); i++) if (h.fdi[i].hasUnknowns()) { V<D> n = outward(h.m, h.cl, h.fcs[i]); for (auto& [q, w] : qps_face(h.m, h.fcs[i], tdeg+std::max(h.cd, h.fdi[i].degree()))) { auto tt = test(q); if (s) for (auto& x : tt) x = sym<D>(x); MX t = tn<D>(tt, n); B.middleCols(h.off[i], h.nf(i)) += w*t*MX(h.facev(i, q)).transpose(); B.leftCols(h.nc) -= w*t*MX(h.cellv(q)).transpose(); } }
    return {A, B};
}
template<typename M> std::pair<MX, MX> divergence(const Hyb<M>& h, size_t sd)
{
    constexpr size_t D = M::dimension; size_t ns = binom(sd, D); auto sb = disk::make_scalar_monomial_basis(h.m, h.cl, sd); MX A = MX::Zero(ns, ns), B = MX::Zero(ns, h.n); auto cb = disk::make_vector_monomial_basis(h.m, h.cl, h.cd);
    for (auto& [q, w] : qps_cell(h.m, h.cl, sd+std::max(sd, h.cd))) { VX s = sb.eval_functions(q); auto g = dts<D>(cb.eval_gradients(q)); A += w*s*s.transpose(); VX d(g.size()); for (size_t i = 0; i < g.size(); i++) d(i) = g[i].trace(); B.leftCols(h.nc) += w*s*d.transpose(); }
    for (size_t i = 0; i < h.fcs.size(); i++) if (h.fdi[i].hasUnknowns()) { V<D> n = outward(h.m, h.cl, h.fcs[i]); for (auto& [q, w] : qps_face(h.m, h.fcs[i], sd+std::max(h.cd, h.fdi[i].degree()))) { VX s = sb.eval_functions(q); B.middleCols(h.off[i], h.nf(i)) += w*s*VX(MX(h.facev(i, q))*n).transpose(); B.leftCols(h.nc) -= w*s*VX(MX(h.cellv(q))*n).transpose(); } }
    return {A, B};
}
/* stabilisations: HDG, DG and HHO jumps of vector unknowns */
enum Kind { HDG, DG, HHO };
template<typename M> MX stab(const Hyb<M>& h, Kind k, size_t rd, const MX *R, bool hF)
{
    constexpr size_t D = M::dimension; MX S = MX::Zero(h.n, h.n); T hT = lframe(h.m, h.cl).h; MX PT; size_t nr = 0; auto rb = disk::make_vector_monomial_basis(h.m, h.cl, std::max<size_t>(rd, 1));
    if (k == HHO) { nr = rb.size()-D; MX A = MX::Zero(h.nc, h.nc), B = MX::Zero(h.nc, nr); for (auto& [q, w] : qps_cell(h.m, h.cl, h.cd+std::max(h.cd, rd))) { MX c = h.cellv(q), rr = MX(rb.eval_functions(q)).bottomRows(nr); A += w*c*c.transpose(); B += w*c*rr.transpose(); } PT = weighted_solve(A, B); }
    for (size_t i = 0; i < h.fcs.size(); i++) if (h.fdi[i].hasUnknowns()) { T w0 = 1/(hF ? diam<D>(vpts(h.m, h.fcs[i])) : hT); if (k == DG) { MX s = MX::Zero(h.n, h.n); for (auto& [q, w] : qps_face(h.m, h.fcs[i], 2*std::max(h.cd, h.fdi[i].degree()))) { MX d = MX::Zero(h.n, D); d.middleRows(h.off[i], h.nf(i)) = h.facev(i, q); d.topRows(h.nc) -= h.cellv(q); s += w*d*d.transpose(); } S += w0*s; continue; }
        MX d = MX::Zero(h.nf(i), h.n); d.middleCols(h.off[i], h.nf(i)).setIdentity(); d.leftCols(h.nc) -= h.proj_trace(i); MX MF = h.face_mass(i);
        if (k == HHO) { MX C = MX::Zero(h.nf(i), nr); for (auto& [q, w] : qps_face(h.m, h.fcs[i], h.fdi[i].degree()+std::max(rd, h.cd))) { MX rr = MX(rb.eval_functions(q)).bottomRows(nr)-PT.transpose()*MX(h.cellv(q)); C += w*MX(h.facev(i, q))*rr.transpose(); } d -= weighted_solve(MF, C)*(*R); }
        S += w0*d.transpose()*MF*d; }
    return S;
}
template<typename M> struct Case { const Hyb<M>& h; T tol; std::vector<VX> rigid, translations; };
/* energies: symmetric, nonnegative, zero on the given motions */
template<typename M> void energy(const std::string& fam, const Hyb<M>& h, const MX& A, T tol, const std::vector<VX>& null, T scale = 0)
{
    std::string d = h.str(); if (!check(fam+".finite", A.allFinite(), d) || !check(fam+".shape", A.rows() == (long)h.n && A.cols() == (long)h.n, d)) return; scale = std::max(scale, A.norm()); if (scale == 0) return; near(fam+".symmetric", (A-A.transpose()).norm()/scale, tol, d); Eigen::SelfAdjointEigenSolver<MX> es((A+A.transpose())/2, Eigen::EigenvaluesOnly); near(fam+".semidefinite", std::max(T(0), -es.eigenvalues().minCoeff())/scale, tol, d);
    for (auto& v : null) { T s = 0; for (size_t i = 0; i < h.n; i++) for (size_t j = 0; j < h.n; j++) s = std::max(s, std::abs(A(i,j)*v(j))); near(fam+".rigid", (A*v).cwiseAbs().maxCoeff()/std::max({s, 1e-12*scale*v.cwiseAbs().maxCoeff(), 1e-300}), tol*10, d); }
}
template<typename M> void judge_stab(const std::string& fam, const Hyb<M>& h, const MX& S, const MX& W, T tol, const VX *Ip, T ptol, T scale)
{
    std::string d = h.str(); if (!check(fam+".finite", S.allFinite(), d) || !check(fam+".shape", S.rows() == (long)h.n && S.cols() == (long)h.n, d)) return; scale = std::max(scale, W.norm()); if (scale == 0) { check(fam+".zero", S.norm() < 1e-9, d); return; }
    near(fam+".definition", (S-W).norm()/scale, tol, d); near(fam+".symmetric", (S-S.transpose()).norm()/scale, tol, d); { Eigen::SelfAdjointEigenSolver<MX> es((S+S.transpose())/2, Eigen::EigenvaluesOnly); near(fam+".semidefinite", std::max(T(0), -es.eigenvalues().minCoeff())/scale, tol, d); }
    if (Ip) { T s = 0; for (size_t i = 0; i < h.n; i++) for (size_t j = 0; j < h.n; j++) s = std::max(s, std::abs(S(i,j)*(*Ip)(j))); near(fam+".consistent", (S*(*Ip)).cwiseAbs().maxCoeff()/std::max({s, 1e-12*scale, 1e-300}), ptol, d); }
}
/* dimension of the space of motions without energy */
template<typename M> void kernel(const std::string& fam, const Hyb<M>& h, const MX& A, const MX& S, size_t want)
{
    MX L = A+S; L = (L+L.transpose())/2; VX sc = L.diagonal().cwiseAbs().cwiseSqrt().cwiseInverse(); if (!sc.allFinite()) { check(fam+".wellposed", false, h.str()); return; } MX B = sc.asDiagonal()*L*sc.asDiagonal(); Eigen::SelfAdjointEigenSolver<MX> es(B, Eigen::EigenvaluesOnly); check(fam+".wellposed", es.eigenvalues()(want) > 1e-11*es.eigenvalues()(h.n-1), cat(h.str(), " eigenvalue ", want, ": ", es.eigenvalues()(want)));
}
template<typename M> void cell(const M& m, const typename M::cell& cl, Rng& r)
{
    constexpr size_t D = M::dimension; auto fr = lframe(m, cl); T asp = aspect(m, cl); size_t fd = r.integer(0, D == 3 ? (std::is_same_v<M, g3_t> ? 1 : 2) : 3), cd = fd == 0 ? r.integer(0, 1) : r.integer(fd-1, fd+1); disk::hho_degree_info hdi(cd, fd); size_t rd = fd+1; T tol = itol(m, cl)*10*fr.big*(1+rd*rd)*asp, ptol = tol*std::pow(10., rd)*asp;
    Hyb<M> h(m, cl, cd, fd, true); auto p = vpoly<D>(rd, r, fr.c, fr.h), pc = vpoly<D>(cd, r, fr.c, fr.h), pm = vpoly<D>(std::min(cd, fd), r, fr.c, fr.h); VX Ip = vinterp(m, cl, hdi, p), Ic = vinterp(m, cl, hdi, pc), Im = vinterp(m, cl, hdi, pm);
    check("interpolate.size", (size_t)Ip.size() == h.n, h.str()); if ((size_t)Ip.size() != h.n) return; { VX W = hinterp(h, p, rd); near("interpolate", (Ip-W).norm()/std::max(W.norm(), 1e-300), ptol, h.str()); }
    /* translations, and rotations where the space contains them (or when they are tested with constants only: lowest) */
    auto motions = [&](const Hyb<M>& hy, bool lowest) { std::pair<std::vector<VX>, std::vector<VX>> out; for (int k = 0; k < 2; k++) { V<D> a; for (size_t i = 0; i < D; i++) a(i) = r.real(0.3, 1); DT<D> W = k ? spin<D>(r, fr.h) : DT<D>::Zero(); VPoly<D> q; for (size_t i = 0; i < D; i++) { Poly<D> z = Poly<D>::random(1, r, fr.c, fr.h); q[i] = z; }
            VX u = VX::Zero(hy.n); auto f = [&](const pt<D>& x) -> V<D> { return a+W*(v<D>(x)-fr.c); }; MX A = MX::Zero(hy.nc, hy.nc); VX b = VX::Zero(hy.nc); for (auto& [q2, w] : qps_cell(m, cl, hy.cd+std::max<size_t>(hy.cd, 1))) { MX c = hy.cellv(q2); A += w*c*c.transpose(); b += w*c*f(q2); } u.head(hy.nc) = weighted_solve(A, b); bool ok = hy.cd >= 1 || !k; if (k && !lowest) { bool exact = hy.cd >= 1; for (size_t i = 0; i < hy.fcs.size(); i++) if (hy.fdi[i].hasUnknowns() && hy.fdi[i].degree() < 1) exact = false; if (!exact) return out; } for (size_t i = 0; i < hy.fcs.size(); i++) if (hy.fdi[i].hasUnknowns()) { VX fv = VX::Zero(hy.nf(i)); for (auto& [q2, w] : qps_face(m, hy.fcs[i], hy.fdi[i].degree()+1)) fv += w*MX(hy.facev(i, q2))*f(q2); u.segment(hy.off[i], hy.nf(i)) = weighted_solve(hy.face_mass(i), fv); } else if (!ok) return out; if (!k) out.second.push_back(u); out.first.push_back(u); } return out; };
    auto [rigid, trans] = motions(h, true); auto rigx = motions(h, false).first; auto at = [&]() { return P<D>(random_in_cell(m, cl, r)); };
    disk::CellDegreeInfo<M> ci(m, cl, cd, fd, fd); disk::MeshDegreeInfo<M> mdi(m, cd, fd);
    T hdgnorm = 0;
    /* symmetric displacement reconstruction */
    auto symrec = [&](const std::string& fam, const Hyb<M>& hy, size_t rdeg, const std::pair<MX, MX>& o, T t, const VX *I, const VPoly<D> *pp, const std::vector<VX>& rg) {
        auto rb = disk::make_vector_monomial_basis(m, cl, rdeg); size_t nr = rb.size()-D; auto test = [&](const pt<D>& q) { auto g = dts<D>(rb.eval_gradients(q)); return std::vector<DT<D>>(g.begin()+D, g.end()); }; auto [A, B] = system(hy, test, nr, rdeg-1, true); std::string d = cat(hy.str(), " rec=", rdeg); if (!residual_check(fam+".definition", A, o.first, B, t, d)) return;
        MX rot = MX::Zero(D*D, nr), tot = rot; for (auto& [q, w] : qps_cell(m, cl, rdeg-1)) { MX g = flats<D>(test(q), false); tot += w*g.transpose().cwiseAbs(); for (size_t a = 0; a < D; a++) for (size_t c = 0; c < D; c++) rot.row(a*D+c) += w*(g.col(a*D+c)-g.col(c*D+a)).transpose(); } MX mean = rot*o.first, sz = tot*o.first.cwiseAbs(); near(fam+".no-mean-rotation", mean.norm()/std::max(sz.norm(), 1e-300), t, d);
        MX data = o.first.transpose()*A*o.first; if (data.norm() > 0) same_matrix(fam+".energy", o.second, data, t*10, d); energy(fam, hy, o.second, t*10, rg);
        if (I) { VX c = o.first*(*I); T e = 0, s = 0.1/fr.h; for (int k = 0; k < 4; k++) { auto x = at(); auto g = test(x); DT<D> got = DT<D>::Zero(); for (size_t i = 0; i < nr; i++) got += c(i)*g[i]; DT<D> want = vgrad<D>(*pp, x); e = std::max(e, (sym<D>(got)-sym<D>(want)).norm()); s = std::max(s, want.norm()); } near(fam+".exact", e/s, ptol, d); } };
    MX Rsym, Asym; { auto o = disk::make_vector_hho_symmetric_laplacian(m, cl, hdi); Rsym = o.first; Asym = o.second; symrec("symmetric", h, rd, o, tol*asp, &Ip, &p, rigid); }
    if (r.coin()) symrec("symmetric-cellinfo", h, rd, disk::make_vector_hho_symmetric_laplacian(m, cl, ci), tol*asp, &Ip, &p, rigid); else symrec("symmetric-meshinfo", h, rd, disk::make_vector_hho_symmetric_laplacian(m, cl, mdi), tol*asp, &Ip, &p, rigid);
    /* a degree per face */
    size_t kmax = D == 3 ? 2 : 3; Hyb<M> hv(m, cl, cd, random_degrees(m, cl, kmax, r.coin(), r), true); size_t rv = std::max<size_t>(r.integer(1, kmax+1), cd), gv = r.integer(0, kmax); auto cinf = hv.info(rv, gv); auto [rigv, trav] = motions(hv, false); T tv = itol(m, cl)*30*fr.big*(1+(kmax+1)*(kmax+1))*asp*asp;
    MX Rv; { auto o = disk::make_vector_hho_symmetric_laplacian(m, cl, cinf); Rv = o.first; symrec("symmetric-degrees", hv, rv, o, tv, nullptr, nullptr, rigv); }
    /* componentwise reconstruction and gradient */
    auto vecrec = [&](const std::string& fam, const std::pair<MX, MX>& o) { auto rb = disk::make_vector_monomial_basis(m, cl, rd); size_t nr = rb.size()-D; auto test = [&](const pt<D>& q) { auto g = dts<D>(rb.eval_gradients(q)); return std::vector<DT<D>>(g.begin()+D, g.end()); }; auto [A, B] = system(h, test, nr, rd-1, false); if (!residual_check(fam+".definition", A, o.first, B, tol, h.str())) return; MX data = o.first.transpose()*A*o.first; same_matrix(fam+".energy", o.second, data, tol*10, h.str()); energy(fam, h, o.second, tol*10, trans);
        VX c = o.first*Ip; T e = 0, s = 0.1/fr.h; for (int k = 0; k < 4; k++) { auto x = at(); auto g = test(x); DT<D> got = DT<D>::Zero(); for (size_t i = 0; i < nr; i++) got += c(i)*g[i]; DT<D> want = vgrad<D>(p, x); e = std::max(e, (got-want).norm()); s = std::max(s, want.norm()); } near(fam+".exact", e/s, ptol, h.str()); };
    vecrec("laplacian", disk::make_vector_hho_laplacian(m, cl, hdi)); vecrec("laplacian-meshinfo", disk::make_vector_hho_laplacian(m, cl, mdi)); { auto sc = disk::make_scalar_hho_laplacian(m, cl, hdi); if (r.coin()) vecrec("laplacian-given", disk::make_vector_hho_laplacian(m, cl, hdi, sc)); else vecrec("laplacian-meshinfo-given", disk::make_vector_hho_laplacian(m, cl, mdi, sc)); }
    /* gradients in matrix polynomials */
    auto gradrec = [&](const std::string& fam, const Hyb<M>& hy, const auto& gb, const std::pair<MX, MX>& o, T t, bool s, bool ex, const VX *I, const VPoly<D> *pp, const std::vector<VX>& rg) {
        size_t ng = gb.size(); auto test = [&](const pt<D>& q) { return dts<D>(gb.eval_functions(q)); }; auto [A, B] = system(hy, test, ng, gb.degree(), false); std::string d = cat(hy.str(), " grad=", gb.degree()); if (!residual_check(fam+".definition", A, o.first, B, t, d)) return; MX E = A; if (s) E = system(hy, test, ng, gb.degree(), true).first; MX data = o.first.transpose()*E*o.first; if (data.norm() > 0) same_matrix(fam+".energy", o.second, data, t*10, d); energy(fam, hy, o.second, t*10, rg);
        if (ex) { VX c = o.first*(*I); T e = 0, sc = 0.1/fr.h; for (int k = 0; k < 4; k++) { auto x = at(); auto g = test(x); DT<D> got = DT<D>::Zero(); for (size_t i = 0; i < ng; i++) got += c(i)*g[i]; DT<D> want = vgrad<D>(*pp, x); if (s) { got = sym<D>(got); want = sym<D>(want); } e = std::max(e, (got-want).norm()); sc = std::max(sc, vgrad<D>(*pp, x).norm()); } near(fam+".exact", e/sc, ptol, d); } };
    bool gex = cd+1 >= fd;
    { auto gb = disk::make_sym_matrix_monomial_basis(m, cl, fd); gradrec("symgrad", h, gb, disk::make_matrix_hho_symmetric_gradrec(m, cl, hdi), tol, true, gex, &Ip, &p, rigid); gradrec("symgrad-meshinfo", h, gb, disk::make_matrix_hho_symmetric_gradrec(m, cl, mdi), tol, true, gex, &Ip, &p, rigid); gradrec("symgrad-degrees", hv, disk::make_sym_matrix_monomial_basis(m, cl, gv), disk::make_matrix_hho_symmetric_gradrec(m, cl, cinf), tv, true, false, nullptr, nullptr, rigv); }
    MX G; { auto gb = disk::make_matrix_monomial_basis(m, cl, fd); auto o = disk::make_matrix_hho_gradrec(m, cl, hdi); G = o.first; gradrec("grad", h, gb, o, tol, false, gex, &Ip, &p, trans); gradrec("grad-meshinfo", h, gb, disk::make_matrix_hho_gradrec(m, cl, mdi), tol, false, gex, &Ip, &p, trans); gradrec("symgrad-given", h, gb, disk::make_matrix_hho_symmetric_gradrec(m, cl, hdi, G), tol, true, gex, &Ip, &p, rigid); }
    { /* richer gradients */ size_t gd = fd+1; disk::hho_degree_info hg(cd, fd, gd); if (hg.cell_degree() == cd && hg.grad_degree() == gd) { gradrec("grad-richer", h, disk::make_matrix_monomial_basis(m, cl, gd), disk::make_matrix_hho_gradrec(m, cl, hg), tol*4, false, false, &Ip, &p, trans); gradrec("symgrad-richer", h, disk::make_sym_matrix_monomial_basis(m, cl, gd), disk::make_matrix_hho_symmetric_gradrec(m, cl, hg), tol*4, true, false, &Ip, &p, rigx);
        if constexpr (std::is_same_v<M, s2_t> || std::is_same_v<M, s3_t>) gradrec("symgrad-RT", h, disk::make_sym_matrix_monomial_basis_RT(m, cl, gd), disk::make_matrix_hho_symmetric_gradrec_RT(m, cl, hg), tol*4, true, false, &Ip, &p, rigx); } }
    /* divergence */
    auto divrec = [&](const std::string& fam, const Hyb<M>& hy, size_t sd, const std::pair<MX, MX>& o, const MX& rhs, T t, bool ex, const std::vector<VX>& rg) { auto [A, B] = divergence(hy, sd); std::string d = cat(hy.str(), " div=", sd); if (!residual_check(fam+".definition", A, o.first, B, t, d)) return; if (B.norm() > 0) same_matrix(fam+".rhs", rhs, B, t, d); MX data = o.first.transpose()*A*o.first; if (data.norm() > 0) same_matrix(fam+".energy", o.second, data, t*10, d); energy(fam, hy, o.second, t*10, rg);
        if (ex) { auto sb = disk::make_scalar_monomial_basis(m, cl, sd); VX c = o.first*Ip; T e = 0, s = 0.1/fr.h; for (int k = 0; k < 4; k++) { auto x = at(); T want = vgrad<D>(p, x).trace(); e = std::max(e, std::abs(VX(sb.eval_functions(x)).dot(c)-want)); s = std::max(s, vgrad<D>(p, x).norm()); } near(fam+".exact", e/s, ptol, d); } };
    divrec("div", h, fd, disk::make_hho_divergence_reconstruction(m, cl, hdi), disk::make_hho_divergence_reconstruction_rhs(m, cl, hdi), tol, gex, rigid); divrec("div-meshinfo", h, fd, disk::make_hho_divergence_reconstruction(m, cl, mdi), disk::make_hho_divergence_reconstruction_rhs(m, cl, mdi), tol, gex, rigid); divrec("div-degrees", hv, gv, disk::make_hho_divergence_reconstruction(m, cl, cinf), disk::make_hho_divergence_reconstruction_rhs(m, cl, cinf), tv, false, rigv);
    /* stabilisations */
    bool hF = r.coin(); std::string s = hF ? "/face" : "/cell"; MX Whdg = stab(h, HDG, 0, nullptr, hF), Wdg = stab(h, DG, 0, nullptr, hF), Whho = stab(h, HHO, rd, &Rsym, hF); hdgnorm = Whdg.norm(); MX Whv = stab(hv, HDG, 0, nullptr, hF);
    judge_stab("hdg"+s, h, disk::make_vector_hdg_stabilization(m, cl, hdi, hF), Whdg, tol, &Ic, ptol, 0); judge_stab("hdg-meshinfo"+s, h, disk::make_vector_hdg_stabilization(m, cl, mdi, hF), Whdg, tol, &Ic, ptol, 0); judge_stab("dg"+s, h, disk::make_vector_dg_stabilization(m, cl, hdi, hF), Wdg, tol, &Im, ptol, 0); judge_stab("dg-meshinfo"+s, h, disk::make_vector_dg_stabilization(m, cl, mdi, hF), Wdg, tol, &Im, ptol, 0);
    const VX *Iq = cd >= 1 ? &Ip : nullptr; { MX S = disk::make_vector_hho_stabilization(m, cl, Rsym, hdi, hF); judge_stab("hho"+s, h, S, Whho, ptol, Iq, ptol, hdgnorm); if (fd >= 1) kernel("hho", h, Asym, S, D*(D+1)/2); } judge_stab("hho-cellinfo"+s, h, disk::make_vector_hho_stabilization(m, cl, Rsym, ci, hF), Whho, ptol, Iq, ptol, hdgnorm); judge_stab("hho-meshinfo"+s, h, disk::make_vector_hho_stabilization(m, cl, Rsym, mdi, hF), Whho, ptol, Iq, ptol, hdgnorm); judge_stab("hho-degrees"+s, hv, disk::make_vector_hho_stabilization(m, cl, Rv, cinf, hF), stab(hv, HHO, rv, &Rv, hF), ptol*100, nullptr, 0, Whv.norm());
    { auto [Rs, As] = disk::make_scalar_hho_laplacian(m, cl, hdi); auto [Rg, Ag] = disk::make_vector_hho_laplacian(m, cl, hdi); MX Wo = stab(h, HHO, rd, &Rg, hF), WoT = stab(h, HHO, rd, &Rg, false); /* this overload always scales with the cell */ MX So = disk::make_vector_hho_stabilization_optim(m, cl, Rs, hdi, hF); judge_stab("hho-componentwise", h, So, WoT, ptol, &Ip, ptol, hdgnorm); judge_stab("hho-componentwise-meshinfo"+s, h, disk::make_vector_hho_stabilization_optim(m, cl, Rs, mdi, hF), Wo, ptol, &Ip, ptol, hdgnorm); kernel("hho-componentwise", h, Ag, So, D); }
    /* degrees stored per face in the mesh */
    if (r.coin()) { disk::MeshDegreeInfo<M> md(m, cd, fd); auto kept = hv.fdi; degrees_into(md, m, cl, kept); judge_stab("hdg-meshinfo-degrees"+s, hv, disk::make_vector_hdg_stabilization(m, cl, md, hF), Whv, tv, nullptr, 0, 0); }
    sig(cat(kind<M>(), "/", cell_sig(m, cl), "/", cd, fd, "/", gv, rv)); sig(cat(kind<M>(), "/", hv.str()));
}
template<typename M> void run(size_t levels)
{
    constexpr size_t D = M::dimension; M proto;
    for (size_t v = 0; v < nvariants(proto); v++) for (size_t l = 1; l <= levels; l++) run_case(cat(kind<M>(), "/", v, "/", l), [&](Rng& r) {
        M m; make(m, r, v, D == 3 ? 1 : l); std::vector<typename M::cell> cs(m.cells_begin(), m.cells_end()); for (auto& cl : pick(m, cs, n_of(D == 3 ? 1 : 2, D == 3 ? 3 : 6), r, 3)) cell(m, cl, r); });
}
int main(int argc, char **argv)
{
    init(argc, argv, "C13");
#if PART == 2
    run<s2_t>(n_of(3, 8)); run<c2_t>(n_of(2, 8));
#elif PART == 5
    run<g2_t>(n_of(2, 8));
#elif PART == 3
    run<s3_t>(n_of(2, 5)); run<c3_t>(n_of(2, 4));
#else
    run<g3_t>(n_of(1, 3));
#endif
    return finish();
}
