// C10: scalar stabilisations, compared with sums over the faces of the squared
// jumps that define them, and applied to hybrid interpolates of polynomials.
#include "hho.hpp"
#include "diskpp/methods/hho_slapl.hpp"
template<size_t D> using DT = Eigen::Matrix<T,D,D>;
enum Kind { HDG, DG, HHO };
template<typename M> struct Jump { std::vector<MX> delta; };
/* sum over faces of weight * int delta^2, where delta = u_F - pi_F(u_T) (HDG), u_F - u_T (DG), u_F - pi_F(u_T + R - pi_T R) (HHO) */
template<typename M, typename RB> MX oracle(const Hyb<M>& h, Kind k, const RB *rb, const MX *R, const std::vector<T>& w)
{
    MX S = MX::Zero(h.n, h.n); MX PT; size_t nr = 0; if (k == HHO) { nr = rb->size()-1; MX Mt = MX::Zero(h.nc, h.nc), B = MX::Zero(h.nc, nr); for (auto& [q, ww] : qps_cell(h.m, h.cl, h.cd+std::max(h.cd, rb->degree()))) { VX c = h.cellv(q), rr = rb->eval_functions(q); Mt += ww*c*c.transpose(); B += ww*c*rr.tail(nr).transpose(); } PT = weighted_solve(Mt, B); }
    for (size_t i = 0; i < h.fcs.size(); i++) if (h.fdi[i].hasUnknowns()) { if (k == DG) { MX s = MX::Zero(h.n, h.n); for (auto& [q, ww] : qps_face(h.m, h.fcs[i], 2*std::max(h.cd, h.fdi[i].degree()))) { VX d = VX::Zero(h.n); d.segment(h.off[i], h.nf(i)) = h.facev(i, q); d.head(h.nc) -= VX(h.cellv(q)); s += ww*d*d.transpose(); } S += w[i]*s; continue; }
        MX d = MX::Zero(h.nf(i), h.n); d.middleCols(h.off[i], h.nf(i)).setIdentity(); d.leftCols(h.nc) -= h.proj_trace(i); MX MF = h.face_mass(i);
        if (k == HHO) { MX C = MX::Zero(h.nf(i), nr); for (auto& [q, ww] : qps_face(h.m, h.fcs[i], h.fdi[i].degree()+std::max(rb->degree(), h.cd))) { VX rr = rb->eval_functions(q); VX v = rr.tail(nr)-PT.transpose()*VX(h.cellv(q)); C += ww*VX(h.facev(i, q))*v.transpose(); } d -= weighted_solve(MF, C)*(*R); }
        S += w[i]*d.transpose()*MF*d; }
    return S;
}
template<typename M> void judge(const std::string& fam, const Hyb<M>& h, const MX& S, const MX& W, T tol, const VX *Ip, T ptol, const MX *A, T scale = 0)
{
    std::string d = h.str(); if (!check(fam+".finite", S.allFinite(), d) || !check(fam+".shape", S.rows() == (long)h.n && S.cols() == (long)h.n, d)) return;
    if (W.norm() == 0) { check(fam+".zero", S.norm() < 1e-9, d); return; }
    scale = std::max(scale, W.norm()); near(fam+".definition", (S-W).norm()/scale, tol, d); near(fam+".symmetric", (S-S.transpose()).norm()/scale, tol, d); { Eigen::SelfAdjointEigenSolver<MX> es((S+S.transpose())/2, Eigen::EigenvaluesOnly); near(fam+".semidefinite", std::max(T(0), -es.eigenvalues().minCoeff())/scale, tol, d); }
    if (Ip) { T s = 0; for (size_t i = 0; i < h.n; i++) for (size_t j = 0; j < h.n; j++) s = std::max(s, std::abs(S(i,j)*(*Ip)(j))); near(fam+".consistent", (S*(*Ip)).cwiseAbs().maxCoeff()/std::max(s, 1e-300), ptol, d); }
    if (A) { /* nothing but constants is left without energy */
        MX L = *A+S; VX sc = L.diagonal().cwiseAbs().cwiseSqrt().cwiseInverse(); MX B = sc.asDiagonal()*L*sc.asDiagonal(); Eigen::SelfAdjointEigenSolver<MX> es((B+B.transpose())/2, Eigen::EigenvaluesOnly); check(fam+".wellposed", es.eigenvalues()(1) > 1e-11*es.eigenvalues()(h.n-1), cat(d, " second eigenvalue ", es.eigenvalues()(1)));
        VX one = VX::Zero(h.n); one(0) = 1; for (size_t i = 0; i < h.fcs.size(); i++) if (h.nf(i)) one(h.off[i]) = 1; near(fam+".constants", (L*one).norm()/L.norm(), tol*10, d); }
}
template<typename M> void cell(const M& m, const typename M::cell& cl, Rng& r)
{
    constexpr size_t D = M::dimension; auto fr = lframe(m, cl); T asp = aspect(m, cl); size_t fd = r.integer(0, D == 3 ? 2 : 3), cd = fd == 0 ? r.integer(0, 1) : r.integer(fd-1, fd+1); disk::hho_degree_info hdi(cd, fd); size_t rd = fd+1; T tol = itol(m, cl)*3*fr.big*(1+rd*rd)*asp, ptol = tol*std::pow(10., rd)*asp;
    Hyb<M> h(m, cl, cd, fd); DT<D> K = spd(D, r); auto rb = disk::make_scalar_monomial_basis(m, cl, rd); auto p = Poly<D>::random(rd, r, fr.c, fr.h), pc = Poly<D>::random(cd, r, fr.c, fr.h), pm = Poly<D>::random(std::min(cd, fd), r, fr.c, fr.h);
    auto I = [&](const Poly<D>& f) -> VX { return disk::project_function(m, cl, hdi, disk::scalar_rhs_function<M>([&](const pt<D>& x) -> T { return f(x); }), 2); }; VX Ip = I(p), Ic = I(pc), Im = I(pm);
    std::vector<T> wT, wF, wK; for (auto& f : h.fcs) { wT.push_back(1/fr.h); wF.push_back(1/diam<D>(vpts(m, f))); V<D> n = outward(m, cl, f); wK.push_back(n.dot(K*n)/fr.h); }
    auto [R, A] = disk::make_scalar_hho_laplacian(m, cl, hdi); auto [RK, AK] = disk::make_scalar_hho_laplacian(m, cl, hdi, disk::diffusion_tensor<M>(K)); const decltype(rb) *none = nullptr;
    disk::CellDegreeInfo<M> ci(m, cl, cd, fd, fd); disk::MeshDegreeInfo<M> mdi(m, cd, fd); bool hF = r.coin(); auto& w = hF ? wF : wT; std::string s = hF ? "/face" : "/cell";
    MX Whdg = oracle(h, HDG, none, nullptr, w), Wdg = oracle(h, DG, none, nullptr, w), Whho = oracle(h, HHO, &rb, &R, w), WhhoT = hF ? oracle(h, HHO, &rb, &R, wT) : Whho; MX A0 = A, AK0 = AK;
    judge("hdg"+s, h, disk::make_scalar_hdg_stabilization(m, cl, hdi, hF), Whdg, tol, &Ic, ptol, &A0); if (hF) same_matrix("hdg.default", disk::make_scalar_hdg_stabilization(m, cl, hdi), Whdg, tol);
    judge("hdg-cellinfo"+s, h, disk::make_scalar_hdg_stabilization(m, cl, ci, hF), Whdg, tol, &Ic, ptol, &A0); judge("hdg-meshinfo"+s, h, disk::make_scalar_hdg_stabilization(m, cl, mdi, hF), Whdg, tol, &Ic, ptol, &A0);
    judge("hdg-tensor", h, disk::make_scalar_hdg_stabilization2(m, cl, hdi, K), oracle(h, HDG, none, nullptr, wK), tol, &Ic, ptol, &AK0);
    judge("dg"+s, h, disk::make_scalar_dg_stabilization(m, cl, hdi, hF), Wdg, tol, &Im, ptol, &A0); judge("dg-meshinfo"+s, h, disk::make_scalar_dg_stabilization(m, cl, mdi, hF), Wdg, tol, &Im, ptol, &A0);
    judge("hho", h, disk::make_scalar_hho_stabilization(m, cl, R, hdi), WhhoT, ptol, &Ip, ptol, &A0); judge("hho-basis", h, disk::make_scalar_hho_stabilization(m, cl, rb, R, hdi), WhhoT, ptol, &Ip, ptol, &A0);
    judge("hho-cellinfo"+s, h, disk::make_scalar_hho_stabilization(m, cl, R, ci, hF), Whho, ptol, &Ip, ptol, &A0); judge("hho-meshinfo"+s, h, disk::make_scalar_hho_stabilization(m, cl, R, mdi, hF), Whho, ptol, &Ip, ptol, &A0); if (hF) same_matrix("hho.default", disk::make_scalar_hho_stabilization(m, cl, R, ci), Whho, ptol);
    judge("hho-tensor", h, disk::make_scalar_hho_stabilization2(m, cl, RK, hdi, K), oracle(h, HHO, &rb, &RK, wK), ptol, &Ip, ptol, &AK0);
    /* richer reconstructions, harmonic ones */
    if (r.coin(0.5)) { size_t hr = cd+2+r.integer(0, D == 3 ? 0 : 1); disk::hho_degree_info hh(disk::priv::hdi_named_args{.rd = hr, .cd = cd, .fd = fd}); auto hb = disk::make_scalar_harmonic_top_basis(m, cl, hr); hb.maximum_polynomial_degree(cd+2); auto [RH, AH] = disk::make_shl_harmonic(m, cl, hh); judge("hho-harmonic", h, disk::make_scalar_hho_stabilization(m, cl, hb, RH, hh), oracle(h, HHO, &hb, &RH, wT), ptol*100, nullptr, 0, nullptr, Whdg.norm()); }
    /* a degree per face, faces without unknowns, jumps as operators */
    for (int k = 0; k < 2; k++) { size_t kmax = D == 3 ? 2 : 3; size_t cv = r.integer(0, kmax), rv = std::max<size_t>(r.integer(1, kmax+1), cv); Hyb<M> hv(m, cl, cv, k ? random_degrees(m, cl, kmax, true, r) : std::vector<disk::DegreeInfo>(h.fdi)); auto rbv = disk::make_scalar_monomial_basis(m, cl, rv); auto cinf = hv.info(rv, rv-1); MX Rv = disk::make_scalar_hho_laplacian(m, cl, cinf).first; T tv = itol(m, cl)*30*fr.big*(1+kmax*kmax)*asp*asp;
        MX Sh = disk::make_scalar_hdg_stabilization(m, cl, cinf, hF), Sd = disk::make_scalar_dg_stabilization(m, cl, cinf, hF); judge("hdg-degrees"+s, hv, Sh, oracle(hv, HDG, none, nullptr, w), tv, nullptr, 0, nullptr); judge("dg-degrees"+s, hv, Sd, oracle(hv, DG, none, nullptr, w), tv, nullptr, 0, nullptr); judge("hho-degrees"+s, hv, disk::make_scalar_hho_stabilization(m, cl, Rv, cinf, hF), oracle(hv, HHO, &rbv, &Rv, w), tv*std::pow(10., rv), nullptr, 0, nullptr, Sh.norm());
        MX Df = disk::make_scalar_hho_difference(m, cl, cinf); size_t nd = 0; for (auto& f : hv.fdi) if (f.hasUnknowns()) nd += binom(std::max(f.degree(), cv), D-1); if (!check("difference.shape", Df.rows() == (long)nd && Df.cols() == (long)hv.n, hv.str()) || nd == 0) continue; VX u = rvec(hv.n, r), du = Df*u; size_t o = 0;
        for (size_t i = 0; i < hv.fcs.size(); i++) if (hv.fdi[i].hasUnknowns()) { size_t dd = std::max(hv.fdi[i].degree(), cv); auto db = disk::make_scalar_monomial_basis(m, hv.fcs[i], dd); auto x = P<D>(random_in_face(m, hv.fcs[i], r)); VX b = db.eval_functions(x); T got = b.dot(du.segment(o, b.size())), want = VX(hv.facev(i, x)).dot(u.segment(hv.off[i], hv.nf(i)))-VX(hv.cellv(x)).dot(u.head(hv.nc)); near("difference.trace", std::abs(got-want)/(1+std::abs(want)), tv*std::pow(10., dd), hv.str()); o += b.size(); }
        MX SD = disk::make_scalar_hdg_stabilization_diff(m, cl, cinf, hF); same_matrix("difference.hdg"+s, Df.transpose()*SD*Df, Sh, tv*10, hv.str()); same_matrix("difference.dg"+s, Df.transpose()*disk::make_scalar_dg_stabilization_diff(m, cl, cinf, hF)*Df, Sd, tv*10, hv.str()); sig(cat(kind<M>(), "/degrees/", cv, "/", hv.str()));
        if (k == 0) { same_matrix("difference.hdi", disk::make_scalar_hho_difference(m, cl, hdi), disk::make_scalar_hho_difference(m, cl, ci), tol); same_matrix("difference.hdg-hdi", disk::make_scalar_hdg_stabilization_diff(m, cl, hdi, hF), disk::make_scalar_hdg_stabilization_diff(m, cl, ci, hF), tol); } }
    /* fluxes: the stabilisation written against the jumps u_F - u_T */
    { MX J = MX::Zero(h.n-h.nc, h.n); for (size_t i = 0; i < h.fcs.size(); i++) for (auto& [q, ww] : qps_face(m, h.fcs[i], fd+cd+fd)) { VX f = h.facev(i, q), c = h.cellv(q); J.block(h.off[i]-h.nc, h.off[i], h.nf(i), h.nf(i)) += w[i]*ww*f*f.transpose(); J.block(h.off[i]-h.nc, 0, h.nf(i), h.nc) -= w[i]*ww*f*c.transpose(); }
      for (int k = 0; k < 2; k++) { MX X = k ? disk::make_scalar_hho_stabilization_fluxes(m, cl, R, hdi, hF) : disk::make_scalar_hho_stabilization_fluxes(m, cl, R, ci, hF); residual_check("hho-fluxes"+s, J.transpose(), X, Whho, ptol*10, h.str()); }
      for (int k = 0; k < 2; k++) { MX X = k ? disk::make_scalar_dg_stabilization_fluxes(m, cl, hdi, hF) : disk::make_scalar_dg_stabilization_fluxes(m, cl, ci, hF); MX Df = disk::make_scalar_hho_difference(m, cl, hdi), Q = disk::make_scalar_dg_stabilization_diff(m, cl, ci, hF); residual_check("dg-fluxes"+s, Df.transpose()*Q, X, Wdg, tol*100, h.str()); } }
    sig(cat(kind<M>(), "/", cell_sig(m, cl), "/", cd, fd, hF));
}
/* the same operators of the simplified interface, in its own bases */
template<typename M> void simple(const M& m, const typename M::cell& cl, Rng& r)
{
    constexpr size_t D = M::dimension; namespace sl = disk::hho::slapl; using SP = sl::hho_space<M>; auto fr = lframe(m, cl); T asp = aspect(m, cl); size_t fd = r.integer(0, D == 3 ? 1 : 3), cd = fd == 0 ? r.integer(0, 1) : r.integer(fd-1, fd+1); size_t rd = fd+1; sl::degree_info di(cd, fd); check("simple.degrees", di.cell == cd && di.face == fd && di.reco == rd && sl::degree_info(fd).cell == fd && sl::degree_info(fd).reco == fd+1);
    T tol = itol(m, cl)*10*fr.big*(1+rd*rd)*asp, ptol = tol*std::pow(10., rd)*asp; typename SP::cell_basis_type phiT(m, cl, cd), phiR(m, cl, rd); std::vector<typename SP::face_basis_type> phiF; for (auto f : faces(m, cl)) phiF.emplace_back(m, f, fd);
    Hyb<M> h(m, cl, cd, fd); auto [szT, szF, szR] = sl::space_dimensions<SP>(di); if (!check("simple.sizes", szT == h.nc && szF == binom(fd, D-1) && szR == binom(rd, D))) return; size_t nr = szR-1;
    MX A = MX::Zero(nr, nr), B = MX::Zero(nr, h.n), Mt = MX::Zero(szT, szT), C = MX::Zero(szT, nr); auto gR = grad(phiR); auto gT = grad(phiT);
    for (auto& [q, w] : qps_cell(m, cl, 2*std::max(rd, cd))) { MX g = MX(gR(q)).bottomRows(nr), c = gT(q); VX t = phiT(q), rr = phiR(q); A += w*g*g.transpose(); B.leftCols(szT) += w*g*c.transpose(); Mt += w*t*t.transpose(); C += w*t*rr.tail(nr).transpose(); }
    for (size_t i = 0; i < h.fcs.size(); i++) { V<D> n = outward(m, cl, h.fcs[i]); for (auto& [q, w] : qps_face(m, h.fcs[i], rd+std::max(cd, fd))) { VX gn = MX(gR(q)).bottomRows(nr)*n, t = phiT(q), f = phiF[i](q); B.middleCols(h.off[i], szF) += w*gn*f.transpose(); B.leftCols(szT) -= w*gn*t.transpose(); } }
    auto [R, L] = sl::local_operator(m, cl, di); residual_check("simple.operator", A, R, B, tol, h.str()); same_matrix("simple.energy", L, R.transpose()*A*R, tol*10, h.str()); MX S = sl::local_stabilization(m, cl, di, R), W = MX::Zero(h.n, h.n), Wh = W; MX PT = weighted_solve(Mt, C);
    for (size_t i = 0; i < h.fcs.size(); i++) { MX MF = MX::Zero(szF, szF), F1 = MX::Zero(szF, szT), F2 = MX::Zero(szF, nr); for (auto& [q, w] : qps_face(m, h.fcs[i], fd+std::max({fd, rd, cd}))) { VX f = phiF[i](q), t = phiT(q), rr = phiR(q); MF += w*f*f.transpose(); F1 += w*f*t.transpose(); F2 += w*f*(rr.tail(nr)-PT.transpose()*t).transpose(); } MX d = MX::Zero(szF, h.n); d.middleCols(h.off[i], szF).setIdentity(); d.leftCols(szT) -= weighted_solve(MF, F1); Wh += d.transpose()*MF*d/fr.h; d -= weighted_solve(MF, F2)*R; W += d.transpose()*MF*d/fr.h; }
    auto p = Poly<D>::random(rd, r, fr.c, fr.h), pc = Poly<D>::random(cd, r, fr.c, fr.h); auto interp = [&](const Poly<D>& f) { VX I = VX::Zero(h.n), b = VX::Zero(szT); for (auto& [q, w] : qps_cell(m, cl, cd+rd)) b += w*f(q)*VX(phiT(q)); I.head(szT) = weighted_solve(Mt, b); for (size_t i = 0; i < h.fcs.size(); i++) { MX MF = MX::Zero(szF, szF); VX bf = VX::Zero(szF); for (auto& [q, w] : qps_face(m, h.fcs[i], fd+std::max(fd, rd))) { VX f_ = phiF[i](q); MF += w*f_*f_.transpose(); bf += w*f(q)*f_; } I.segment(h.off[i], szF) = weighted_solve(MF, bf); } return I; };
    VX Ip = interp(p), Ic = interp(pc); { auto pm = Poly<D>::random(std::min(cd, fd), r, fr.c, fr.h); VX got = sl::local_reduction(m, cl, di, [&](const pt<D>& x) -> T { return pm(x); }), want = interp(pm); near("simple.reduction", (got-want).norm()/want.norm(), ptol, h.str()); }
    MX L0 = L; judge("simple.stabilisation", h, S, W, ptol, &Ip, ptol, &L0); judge("simple.hdg", h, sl::local_stabilization_hdg(m, cl, di), Wh, ptol, &Ic, ptol, &L0);
    { VX c = R*Ip; T s = 0.1/fr.h, e = 0; for (int k = 0; k < 4; k++) { auto x = P<D>(random_in_cell(m, cl, r)); V<D> got = MX(gR(x)).bottomRows(nr).transpose()*c, want = p.grad(x); e = std::max(e, (got-want).norm()); s = std::max(s, want.norm()); } near("simple.exact", e/s, ptol, h.str()); }
    sig(cat(kind<M>(), "/simple/", cell_sig(m, cl), "/", cd, fd));
}
template<typename M> void run(size_t levels)
{
    constexpr size_t D = M::dimension; M proto;
    for (size_t v = 0; v < nvariants(proto); v++) for (size_t l = 1; l <= levels; l++) run_case(cat(kind<M>(), "/", v, "/", l), [&](Rng& r) {
        M m; make(m, r, v, D == 3 ? 1 : l); std::vector<typename M::cell> cs(m.cells_begin(), m.cells_end()); for (auto& cl : pick(m, cs, n_of(2, 8), r, 4)) { cell(m, cl, r); simple(m, cl, r); } });
}
int main(int argc, char **argv)
{
    init(argc, argv, "C10");
#if PART == 2
    run<s2_t>(n_of(3, 10)); run<c2_t>(n_of(2, 10)); run<g2_t>(n_of(2, 10));
#elif PART == 3
    run<s3_t>(n_of(2, 8)); run<c3_t>(n_of(2, 6));
#else
    run<g3_t>(n_of(2, 4));
#endif
    return finish();
}
