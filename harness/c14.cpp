// C14: curl reconstructions, their stabilisations and the boundary terms of the
// Maxwell discretisations, against the identities that define them.
#include "hho.hpp"
#include <complex>
#include "diskpp/methods/implementation_hho/curl.hpp"
using C = std::complex<double>; using MC = Eigen::MatrixXcd; using VC = Eigen::VectorXcd;
template<typename X> MX real_part(const std::string& key, const X& A) { MC B = A; near(key+".real", B.imag().cwiseAbs().maxCoeff(), 0, ""); return B.real(); }

/* D=2: scalar unknowns; D=3: vector unknowns with tangential (or Nedelec) face unknowns */
template<typename M> struct Sp {
    static constexpr size_t D = M::dimension; const M& m; typename M::cell cl; std::vector<typename M::face> fcs; size_t cd, fd; bool ned; size_t nc, nf, n;
    Sp(const M& m_, const typename M::cell& c, size_t cd_, size_t fd_, bool ned_ = false) : m(m_), cl(c), cd(cd_), fd(fd_), ned(ned_) { for (auto& f : faces(m, cl)) fcs.push_back(f); if constexpr (D == 2) { nc = binom(cd, 2); nf = fd+1; } else { nc = 3*binom(cd, 3); nf = ned ? 2*binom(long(fd)-1, 2)+fd+2 : 2*binom(fd, 2); } n = nc+fcs.size()*nf; }
    size_t off(size_t i) const { return nc+i*nf; }
    MX cellv(const pt<D>& x) const { if constexpr (D == 2) return disk::make_scalar_monomial_basis(m, cl, cd).eval_functions(x); else return disk::make_vector_monomial_basis(m, cl, cd).eval_functions(x); }
    MX facev(size_t i, const pt<D>& x) const { if constexpr (D == 2) return disk::make_scalar_monomial_basis(m, fcs[i], fd).eval_functions(x); else { if (ned) return disk::make_vector_monomial_nedelec_tangential_basis(m, fcs[i], fd).eval_functions(x); return disk::make_vector_monomial_tangential_basis(m, fcs[i], fd).eval_functions(x); } }
    size_t fdeg() const { return fd+ned; }
    MX face_mass(size_t i) const { MX A = MX::Zero(nf, nf); for (auto& [q, w] : qps_face(m, fcs[i], 2*fdeg())) { MX f = facev(i, q); A += w*f*f.transpose(); } return A; }
    MX trace(size_t i) const { MX B = MX::Zero(nf, nc); for (auto& [q, w] : qps_face(m, fcs[i], fdeg()+cd)) B += w*facev(i, q)*cellv(q).transpose(); return B; } /* tangential: the normal part is orthogonal */
};
/* rows of w x n */
inline MX xn(const MX& W, const V<3>& n) { MX R(W.rows(), 3); for (int i = 0; i < W.rows(); i++) { V<3> w = W.row(i); R.row(i) = V<3>(w(1)*n(2)-w(2)*n(1), w(2)*n(0)-w(0)*n(2), w(0)*n(1)-w(1)*n(0)).transpose(); } return R; }
inline MX xn2(const MX& W, const V<2>& n) { return W.col(1)*n(0)-W.col(0)*n(1); } /* (n x w) */
template<typename M> VX interp(const Sp<M>& s, const std::function<VX(const pt<M::dimension>&)>& f, int deg)
{
    VX r(s.n); { MX A = MX::Zero(s.nc, s.nc); VX b = VX::Zero(s.nc); for (auto& [q, w] : qps_cell(s.m, s.cl, s.cd+std::max<size_t>(s.cd, deg))) { MX c = s.cellv(q); A += w*c*c.transpose(); b += w*c*f(q); } r.head(s.nc) = weighted_solve(A, b); }
    for (size_t i = 0; i < s.fcs.size(); i++) { VX b = VX::Zero(s.nf); for (auto& [q, w] : qps_face(s.m, s.fcs[i], s.fdeg()+deg)) b += w*s.facev(i, q)*f(q); r.segment(s.off(i), s.nf) = weighted_solve(s.face_mass(i), b); } return r;
}
template<typename M> void energy(const std::string& fam, const MX& data, const MX& W, T tol, const std::string& d) { if (W.norm() > 0) { same_matrix(fam+".energy", data, W, tol, d); symmetric_check(fam+".symmetric", data, tol, d); posdef_check(fam+".semidefinite", data, tol, d); } }
template<typename M> V<3> curl3(const VPoly<3>& p, const pt<3>& x) { auto g = vgrad<3>(p, x); return V<3>(g(2,1)-g(1,2), g(0,2)-g(2,0), g(1,0)-g(0,1)); }

/* potential of prescribed curl: (curl R, curl w) = (curl u_T, curl w) + <u_F-u_T, curl w x n> */
template<typename M> void potential(const M& m, const typename M::cell& cl, size_t cd, size_t fd, size_t rd, T tol, T ptol, Rng& r)
{
    constexpr size_t D = M::dimension; disk::hho_degree_info hdi(disk::priv::hdi_named_args{.rd = rd, .cd = cd, .fd = fd}); Sp<M> s(m, cl, cd, fd); auto fr = lframe(m, cl); std::string d = cat("cd=", cd, " fd=", fd, " rd=", rd);
    size_t z = D == 2 ? 1 : 3; auto rb = [&] { if constexpr (D == 2) return disk::make_scalar_monomial_basis(m, cl, rd); else return disk::make_vector_monomial_basis(m, cl, rd); }(); size_t nr = rb.size()-z; auto cb = [&] { if constexpr (D == 2) return disk::make_scalar_monomial_basis(m, cl, cd); else return disk::make_vector_monomial_basis(m, cl, cd); }();
    auto lib = [&] { return disk::curl_reconstruction(m, cl, hdi); }(); MX X = lib.first, data = lib.second;
    if (!check("potential.shape", size_t(X.rows()) == nr && size_t(X.cols()) == s.n && size_t(data.rows()) == s.n && size_t(data.cols()) == s.n, d)) return;
    MX A = MX::Zero(nr, nr), B = MX::Zero(nr, s.n); for (auto& [q, w] : qps_cell(m, cl, 2*rd)) { MX g = rb.eval_curls2(q); g = g.bottomRows(nr).eval(); MX c = cb.eval_curls2(q); A += w*g*g.transpose(); B.leftCols(s.nc) += w*g*c.transpose(); }
    for (size_t i = 0; i < s.fcs.size(); i++) { V<D> n = outward(m, cl, s.fcs[i]); for (auto& [q, w] : qps_face(m, s.fcs[i], rd+std::max(cd, fd))) { MX g = rb.eval_curls2(q); g = g.bottomRows(nr).eval(); MX gn; if constexpr (D == 2) gn = -xn2(g, n); else gn = xn(g, n); B.leftCols(s.nc) -= w*gn*s.cellv(q).transpose(); B.middleCols(s.off(i), s.nf) += w*gn*s.facev(i, q).transpose(); } }
    if (!residual_check("potential.definition", A, X, B, tol, d)) return; energy<M>("potential", data, MX(X.transpose()*A*X), tol*10, d);
    if constexpr (D == 2) { auto p = Poly<2>::random(rd, r, fr.c, fr.h); VX I = interp<M>(s, [&](const pt<2>& x) { VX v(1); v(0) = p(x); return v; }, rd); VX c = X*I; T e = 0, sc = 0.1/fr.h; for (int k = 0; k < 4; k++) { auto x = P<2>(random_in_cell(m, cl, r)); MX g = rb.eval_curls2(x); V<2> got = g.bottomRows(nr).transpose()*c, gr = p.grad(x), want(gr(1), -gr(0)); e = std::max(e, (got-want).norm()); sc = std::max(sc, want.norm()); } near("potential.exact", e/sc, ptol, d); }
    else { auto p = vpoly<3>(rd, r, fr.c, fr.h); auto f = [&](const pt<3>& x) { return VX(veval<3>(p, x)); }; VX I = interp<M>(s, f, rd), c = X*I; T e = 0, sc = 0.1/fr.h; for (int k = 0; k < 4; k++) { auto x = P<3>(random_in_cell(m, cl, r)); MX g = rb.eval_curls2(x); V<3> got = g.bottomRows(nr).transpose()*c, want = curl3<M>(p, x); e = std::max(e, (got-want).norm()); sc = std::max(sc, want.norm()); } near("potential.exact", e/sc, ptol, d);
        auto u = Poly<3>::random(rd+1, r, fr.c, fr.h); VX G = interp<M>(s, [&](const pt<3>& x) { return VX(u.grad(x)); }, rd); near("potential.gradients", (data*G).norm()/(data.norm()*G.norm()), ptol, d);
        if (r.coin(0.3)) { auto lc = disk::curl_reconstruction<C>(m, cl, hdi); same_matrix("potential.complex", real_part("potential.complex", lc.second), data, tol*100, d); } }
    { VX one; if constexpr (D == 2) { one = interp<M>(s, [](const pt<2>&) { return VX(VX::Ones(1)); }, 0); } else { VX k = rvec(3, r); one = interp<M>(s, [k](const pt<3>&) { return k; }, 0); } near("potential.constants", (data*one).norm()/(data.norm()*one.norm()), ptol, d); }
    sig(cat(kind<M>(), "/potential/", cell_sig(m, cl), "/", d));
}
/* penalisation of the jumps of the tangential traces */
template<typename M> void jumps(const M& m, const typename M::cell& cl, size_t cd, size_t fd, bool ned, T tol, T ptol, Rng& r)
{
    constexpr size_t D = M::dimension; disk::hho_degree_info hdi(disk::priv::hdi_named_args{.rd = fd, .cd = cd, .fd = fd}); Sp<M> s(m, cl, cd, fd, ned); auto fr = lframe(m, cl); std::string d = cat("cd=", cd, " fd=", fd), fam = ned ? "jumps-nedelec" : "jumps";
    MX S; if constexpr (D == 3) S = ned ? disk::curl_hdg_stabilization_nedelec(m, cl, hdi) : disk::curl_hdg_stabilization(m, cl, hdi); else S = disk::curl_hdg_stabilization(m, cl, hdi);
    if (!check(fam+".shape", size_t(S.rows()) == s.n && size_t(S.cols()) == s.n, d)) return; MX W = MX::Zero(s.n, s.n);
    for (size_t i = 0; i < s.fcs.size(); i++) { MX Mf = s.face_mass(i), J = MX::Zero(s.nf, s.n); J.middleCols(s.off(i), s.nf).setIdentity(); J.leftCols(s.nc) = -weighted_solve(Mf, s.trace(i)); T sc = D == 2 ? 1/diam<D>(vpts(m, s.fcs[i])) : ned ? 1/diam<D>(vpts(m, cl)) : 1; W += sc*J.transpose()*Mf*J; }
    energy<M>(fam, S, W, tol*10, d);
    int k = std::min(cd, fd); VX I; if constexpr (D == 2) { auto p = Poly<2>::random(k, r, fr.c, fr.h); I = interp<M>(s, [&](const pt<2>& x) { VX v(1); v(0) = p(x); return v; }, k); } else { if (ned) k = std::min<int>(cd, fd-1); auto p = vpoly<3>(k, r, fr.c, fr.h); I = interp<M>(s, [&](const pt<3>& x) { return VX(veval<3>(p, x)); }, k); } near(fam+".polynomials", (S*I).norm()/(S.norm()*I.norm()), ptol, d);
    if constexpr (D == 3) if (r.coin(0.3)) { MC Sc; if (ned) Sc = disk::curl_hdg_stabilization_nedelec<C>(m, cl, hdi); else Sc = disk::curl_hdg_stabilization<C>(m, cl, hdi); same_matrix(fam+".complex", real_part(fam+".complex", Sc), S, tol, d); }
    sig(cat(kind<M>(), "/", fam, "/", cell_sig(m, cl), "/", d));
}
/* the curl itself: (C u, w) = (u_T, curl w) + <u_F, w x n> */
template<typename M> void full(const M& m, const typename M::cell& cl, size_t cd, size_t fd, size_t rd, bool ned, T tol, T ptol, Rng& r)
{
    disk::hho_degree_info hdi(disk::priv::hdi_named_args{.rd = rd, .cd = cd, .fd = fd}); Sp<M> s(m, cl, cd, fd, ned); auto fr = lframe(m, cl); std::string d = cat("cd=", cd, " fd=", fd, " rd=", rd), fam = ned ? "curl-nedelec" : "curl";
    auto rb = disk::make_vector_monomial_basis(m, cl, rd); size_t nr = rb.size(); auto lib = ned ? disk::curl_reconstruction_nedelec(m, cl, hdi) : disk::curl_reconstruction_pk(m, cl, hdi); MX X = lib.first, data = lib.second;
    if (!check(fam+".shape", size_t(X.rows()) == nr && size_t(X.cols()) == s.n && size_t(data.rows()) == s.n, d)) return;
    MX A = MX::Zero(nr, nr), B = MX::Zero(nr, s.n); for (auto& [q, w] : qps_cell(m, cl, rd+std::max(rd, cd))) { MX f = rb.eval_functions(q), g = rb.eval_curls2(q); A += w*f*f.transpose(); B.leftCols(s.nc) += w*g*s.cellv(q).transpose(); }
    for (size_t i = 0; i < s.fcs.size(); i++) { V<3> n = outward(m, cl, s.fcs[i]); for (auto& [q, w] : qps_face(m, s.fcs[i], rd+s.fdeg())) { MX f = rb.eval_functions(q); B.middleCols(s.off(i), s.nf) += w*xn(f, n)*s.facev(i, q).transpose(); } }
    if (!residual_check(fam+".definition", A, X, B, tol, d)) return; energy<M>(fam, data, MX(X.transpose()*A*X), tol*10, d);
    /* commutes with the interpolation: exact when the unknowns carry what is tested */
    size_t k = ned ? std::min(rd+1, fd) : rd+1; if (rd <= cd+1 && (ned ? rd < fd+1 : rd <= fd)) { int pd = ned ? std::min<int>(k, fd-1) : k; auto p = vpoly<3>(pd, r, fr.c, fr.h); VX I = interp<M>(s, [&](const pt<3>& x) { return VX(veval<3>(p, x)); }, pd), c = X*I; T e = 0, sc = 0.1/fr.h; for (int t = 0; t < 4; t++) { auto x = P<3>(random_in_cell(m, cl, r)); V<3> got = MX(rb.eval_functions(x)).transpose()*c, want = curl3<M>(p, x); e = std::max(e, (got-want).norm()); sc = std::max(sc, want.norm()); } near(fam+".exact", e/sc, ptol, d); }
    sig(cat(kind<M>(), "/", fam, "/", cell_sig(m, cl), "/", d));
}
template<typename M> void boundary_terms(const M& m, const typename M::cell& cl, size_t cd, size_t fd, T tol, T ptol, Rng& r)
{
    disk::hho_degree_info hdi(disk::priv::hdi_named_args{.rd = fd, .cd = cd, .fd = fd}); Sp<M> s(m, cl, cd, fd); auto fr = lframe(m, cl); std::string d = cat("cd=", cd, " fd=", fd);
    { MX W = MX::Zero(s.n, s.n); for (auto& [q, w] : qps_cell(m, cl, 2*cd)) { MX f = s.cellv(q); W.topLeftCorner(s.nc, s.nc) += w*f*f.transpose(); } same_matrix("mass", disk::make_vector_mass_oper(m, cl, hdi), W, tol*10, d); if (r.coin(0.3)) same_matrix("mass.complex", real_part("mass.complex", disk::make_vector_mass_oper<C>(m, cl, hdi)), W, tol*10, d); }
    for (size_t i = 0; i < s.fcs.size(); i++) { MX Mf = s.face_mass(i); same_matrix("impedance.face", MX(disk::make_impedance_term(m, s.fcs[i], fd)), Mf, tol*10, d);
        auto a = vpoly<3>(fd, r, fr.c, fr.h), b = vpoly<3>(fd, r, fr.c, fr.h); auto f = [&](const pt<3>& x) { Eigen::Matrix<C,3,1> v; v.real() = veval<3>(a, x); v.imag() = veval<3>(b, x); return v; }; auto [Y, y] = disk::make_plane_wave_term<C>(m, s.fcs[i], fd, f); same_matrix("wave.matrix", real_part("wave", Y), Mf, tol*10, d);
        VC want = VC::Zero(s.nf); T sc = 0; for (auto& [q, w] : qps_face(m, s.fcs[i], 2*fd)) { VC t = s.facev(i, q).template cast<C>()*f(q); want += w*t; sc += w*s.facev(i, q).norm()*f(q).norm(); } near("wave.load", (VC(y)-want).norm()/sc, tol*10, d); }
    std::set<size_t> ids; for (auto& f : s.fcs) if (m.is_boundary(f)) ids.insert(m.boundary_id(f)); ids.insert(r.integer(0, 20));
    for (size_t id : ids) { C z(r.real(-2, 2), r.real(-2, 2)); auto [Y, y] = disk::make_impedance_term<C>(m, cl, hdi, id, z); MC W = MC::Zero(s.n, s.n); VC w1 = VC::Zero(s.n); T sc = 0; bool any = false; for (size_t i = 0; i < s.fcs.size(); i++) if (m.is_boundary(s.fcs[i]) && m.boundary_id(s.fcs[i]) == id) { any = true; W.block(s.off(i), s.off(i), s.nf, s.nf) = z*s.face_mass(i).template cast<C>(); for (auto& [q, w] : qps_face(m, s.fcs[i], 2*fd)) { MX f = s.facev(i, q); w1.segment(s.off(i), s.nf) += (w*z)*VC(f.col(2).template cast<C>()); sc += w*f.norm()*std::abs(z); } }
        if (any) { near("impedance.cell", (MC(Y)-W).norm()/W.norm(), tol*10, d); near("impedance.load", (VC(y)-w1).norm()/sc, tol*10, d); sig(cat(kind<M>(), "/impedance/", ids.size())); } else { check("impedance.elsewhere", MC(Y).isZero(0) && VC(y).isZero(0) && size_t(Y.rows()) == s.n, d); } }
    /* interpolation of a complex field */
    { auto a = vpoly<3>(std::min(cd, fd), r, fr.c, fr.h), b = vpoly<3>(std::min(cd, fd), r, fr.c, fr.h); auto f = [&](const pt<3>& x) { Eigen::Matrix<C,3,1> v; v.real() = veval<3>(a, x); v.imag() = veval<3>(b, x); return v; }; VC p = disk::maxwell_prj(m, cl, hdi, f); int k = std::min(cd, fd); VX I1 = interp<M>(s, [&](const pt<3>& x) { return VX(veval<3>(a, x)); }, k), I2 = interp<M>(s, [&](const pt<3>& x) { return VX(veval<3>(b, x)); }, k); VC I(s.n); I.real() = I1; I.imag() = I2; near("complex-interpolate", p.size() == I.size() ? (p-I).norm()/I.norm() : 1e300, ptol, d); }
    { size_t k = r.integer(1, 3), di = r.integer(0, 2); auto b = disk::make_vector_monomial_basis(m, cl, k); MX W = MX::Zero(b.size(), b.size()); for (auto& [q, w] : qps_cell(m, cl, 2*k)) { MX g = b.eval_curls2(q); W += w*g*g.transpose(); } MX G = disk::make_curl_curl_matrix(m, cl, b, di); same_matrix("curl-curl", G, W, tol*10, cat(k)); symmetric_check("curl-curl.symmetric", G, tol); posdef_check("curl-curl.semidefinite", G, tol); }
}
/* reconstruction with divergence constraint: every equation of the saddle point problem that does not involve the multipliers */
template<typename M> void with_divergence(const M& m, const typename M::cell& cl, size_t cd, size_t fd, size_t rd, T tol, T ptol, Rng& r)
{
    disk::hho_degree_info hdi(disk::priv::hdi_named_args{.rd = rd, .cd = cd, .fd = fd}); Sp<M> s(m, cl, cd, fd); auto fr = lframe(m, cl); std::string d = cat("cd=", cd, " fd=", fd, " rd=", rd); auto lib = disk::curl_reconstruction_div(m, cl, hdi); MX X = lib.first; auto rb = disk::make_vector_monomial_basis(m, cl, rd); auto db = disk::make_scalar_monomial_basis(m, cl, rd);
    if (!check("divergence.shape", X.rows() == (int)rb.size() && size_t(X.cols()) == s.n, d)) return; auto p = vpoly<3>(std::min(rd, cd), r, fr.c, fr.h); VX I = interp<M>(s, [&](const pt<3>& x) { return VX(veval<3>(p, x)); }, std::min(rd, cd)), c = X*I; T e = 0, sc = 0.1/fr.h; for (int k = 0; k < 4; k++) { auto x = P<3>(random_in_cell(m, cl, r)); V<3> got = MX(rb.eval_curls2(x)).transpose()*c, want = curl3<M>(p, x); e = std::max(e, (got-want).norm()); sc = std::max(sc, want.norm()); } near("divergence.curl", e/sc, ptol, d);
    VX u = rvec(s.n, r), R = X*u; VX lhs = VX::Zero(db.size()+3), rhs = lhs; T scale = 0; for (auto& [q, w] : qps_cell(m, cl, rd+std::max(rd, cd))) { V<3> Rv = MX(rb.eval_functions(q)).transpose()*R, uv = s.cellv(q).transpose()*u.head(s.nc); MX g = db.eval_gradients(q); lhs.head(db.size()) += w*g*Rv; rhs.head(db.size()) += w*g*uv; lhs.tail(3) += w*Rv; rhs.tail(3) += w*uv; scale += w*(Rv.norm()+uv.norm())*(1+g.norm()); } near("divergence.moments", (lhs-rhs).norm()/scale, ptol, d);
}
/* stabilisation built on a reconstruction: definition, for any matrix of the right size */
template<typename M> void with_reconstruction(const M& m, const typename M::cell& cl, size_t cd, size_t fd, size_t rd, T tol, Rng& r)
{
    disk::hho_degree_info hdi(disk::priv::hdi_named_args{.rd = rd, .cd = cd, .fd = fd}); Sp<M> s(m, cl, cd, fd); std::string d = cat("cd=", cd, " fd=", fd, " rd=", rd); auto rb = disk::make_vector_monomial_basis(m, cl, rd); size_t nr = rb.size()-3; MX X = r.coin(0.5) ? MX(disk::curl_reconstruction(m, cl, hdi).first) : MX(0.3*MX::NullaryExpr(nr, s.n, [&](int, int) { return r.real(-1, 1); }));
    MX S = disk::curl_hho_stabilization(m, cl, X, hdi), W = MX::Zero(s.n, s.n); MX A = MX::Zero(s.nc, s.nc), B = MX::Zero(s.nc, nr); for (auto& [q, w] : qps_cell(m, cl, cd+std::max(cd, rd))) { MX f = s.cellv(q), g = rb.eval_functions(q); A += w*f*f.transpose(); B += w*f*g.bottomRows(nr).transpose(); } MX Q = weighted_solve(A, B)*X; Q.leftCols(s.nc) -= MX::Identity(s.nc, s.nc);
    for (size_t i = 0; i < s.fcs.size(); i++) { MX Mf = s.face_mass(i), R = MX::Zero(s.nf, nr); for (auto& [q, w] : qps_face(m, s.fcs[i], fd+rd)) { MX g = rb.eval_functions(q); R += w*s.facev(i, q)*g.bottomRows(nr).transpose(); } MX J = MX::Zero(s.nf, s.n); J.middleCols(s.off(i), s.nf).setIdentity(); J += -weighted_solve(Mf, R)*X+weighted_solve(Mf, s.trace(i))*Q; W += J.transpose()*Mf*J/diam<3>(vpts(m, s.fcs[i])); }
    energy<M>("jumps-reconstruction", S, W, tol*100, d);
}
template<typename M> void cell(const M& m, const typename M::cell& cl, Rng& r)
{
    constexpr size_t D = M::dimension; auto fr = lframe(m, cl); T asp = aspect(m, cl); size_t top = std::is_same_v<M, g3_t> ? 1 : 2, fd = r.integer(0, D == 3 ? top : 3), cd = fd+r.integer(0, 1); T tol = itol(m, cl)*10*fr.big*(1+(fd+1)*(fd+1))*asp, ptol = tol*std::pow(10., fd+1)*asp;
    { size_t rd = std::max<size_t>(1, r.integer(cd, fd+1)); if (cd <= rd) potential(m, cl, cd, fd, rd, tol, ptol*(D == 3 ? 10 : 1), r); }
    jumps(m, cl, cd, fd, false, tol, ptol, r);
    if constexpr (D == 3) { size_t fn = std::max<size_t>(1, fd), cn = fn+r.integer(0, 1); jumps(m, cl, cn, fn, true, tol, ptol, r); size_t rd = r.integer(0, cd+1); full(m, cl, cd, fd, rd, false, tol, ptol, r); full(m, cl, cd, fd, fd, false, tol, ptol, r); full(m, cl, cn, fn, r.integer(0, cn+1), true, tol, ptol, r); full(m, cl, cn, fn, fn-1, true, tol, ptol, r); boundary_terms(m, cl, cd, fd, tol, ptol, r);
        { size_t q = std::max<size_t>(1, r.integer(cd, fd+1)); with_divergence(m, cl, cd, fd, q, tol, ptol*10, r); with_reconstruction(m, cl, cd, fd, q, tol, r); } }
}
void algebra(Rng& r)
{
    { V<3> n, a; for (int i = 0; i < 3; i++) n(i) = r.real(-2, 2); size_t k = r.integer(0, 6); Eigen::Matrix<T,-1,3> F(k, 3); for (size_t i = 0; i < k; i++) for (int j = 0; j < 3; j++) F(i,j) = r.real(-2, 2); Eigen::Matrix<T,-1,3> l = disk::vcross(n, F), q = disk::vcross(F, n); MX w = xn(F, n); check("vcross.shape", l.rows() == (int)k && q.rows() == (int)k); near("vcross.right", k ? (q-w).cwiseAbs().maxCoeff() : 0, 1e-14); near("vcross.left", k ? (l+w).cwiseAbs().maxCoeff() : 0, 1e-14);
      Eigen::Matrix<C,-1,3> G(k, 3); for (size_t i = 0; i < k; i++) for (int j = 0; j < 3; j++) G(i,j) = C(F(i,j), r.real(-2, 2)); MX gi = xn(MX(G.imag()), n); Eigen::Matrix<C,-1,3> lc = disk::vcross(n, G), qc = disk::vcross(G, n); near("vcross.complex-right", k ? std::max((qc.real()-w).cwiseAbs().maxCoeff(), (qc.imag()-gi).cwiseAbs().maxCoeff()) : 0, 1e-14); near("vcross.complex-left", k ? std::max((lc.real()+w).cwiseAbs().maxCoeff(), (lc.imag()+gi).cwiseAbs().maxCoeff()) : 0, 1e-14);
      V<2> m(r.real(-2, 2), r.real(-2, 2)); Eigen::Matrix<T,-1,2> H = F.leftCols(2); VX a2 = disk::vcross(m, H), b2 = disk::vcross(H, m); MX w2 = xn2(H, m); near("vcross.plane", k ? std::max((a2-w2).cwiseAbs().maxCoeff(), (b2+w2).cwiseAbs().maxCoeff()) : 0, 1e-14); }
    /* elimination of the first block; the block is positive definite, the rest is anything */
    size_t nt = r.integer(1, 12), nf = r.integer(1, 12), n = nt+nf; disk::dynamic_matrix<T> A(n, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) A(i,j) = r.normal(); A.topLeftCorner(nt, nt) = spd(nt, r); disk::dynamic_vector<T> x = rvec(n, r), b = A*x; T tol = 1e-11; auto sc = disk::static_condensation(A, b, nt); MX Sch = A.bottomRightCorner(nf, nf)-A.bottomLeftCorner(nf, nt)*A.topLeftCorner(nt, nt).fullPivLu().solve(A.topRightCorner(nt, nf)); same_matrix("condensation.schur", sc.first, Sch, tol); near("condensation.system", (sc.first*x.tail(nf)-sc.second).norm()/(sc.first.norm()*x.norm()+b.norm()), tol); disk::dynamic_matrix<T> S2 = disk::static_condensation(A, nt); check("condensation.matrix-only", S2 == sc.first); disk::dynamic_vector<T> xf = x.tail(nf), y = disk::static_decondensation(A, b, xf); near("condensation.recover", y.size() == x.size() ? (y-x).norm()/x.norm() : 1e300, tol);
    { size_t k = r.integer(1, 4); disk::dynamic_matrix<T> U(nf, k); for (size_t i = 0; i < nf; i++) for (size_t j = 0; j < k; j++) U(i,j) = r.normal(); disk::dynamic_matrix<T> Y = disk::static_decondensation(A, U); check("condensation.many.shape", size_t(Y.rows()) == n && size_t(Y.cols()) == k); MX top = A.topRows(nt)*Y; near("condensation.many", top.norm()/(A.norm()*Y.norm()), tol); check("condensation.many.faces", MX(Y.bottomRows(nf)) == MX(U)); }
    { disk::dynamic_matrix<C> B(n, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) B(i,j) = C(r.normal(), r.normal()); MC L = B.topLeftCorner(nt, nt); B.topLeftCorner(nt, nt) = (L*L.adjoint()).eval()+MC::Identity(nt, nt); disk::dynamic_vector<C> z(n); for (size_t i = 0; i < n; i++) z(i) = C(r.normal(), r.normal()); disk::dynamic_vector<C> f = B*z, zf = z.tail(nf); auto cs = disk::static_condensation(B, f, nt); near("condensation.complex", (cs.first*zf-cs.second).norm()/(cs.first.norm()*z.norm()), 1e-10); disk::dynamic_vector<C> y2 = disk::static_decondensation(B, f, zf); near("condensation.complex-recover", (y2-z).norm()/z.norm(), 1e-9); }
    sig(cat("condensation/", nt > nf, "/", nt == 1, nf == 1));
}
template<typename M> std::vector<typename M::cell> pick_cells(const M& m, size_t n, Rng& r) { std::vector<typename M::cell> cs(m.cells_begin(), m.cells_end()); r.shuffle(cs); if (cs.size() > n) cs.erase(cs.begin()+n, cs.end()); return cs; }
template<typename M> void run(size_t reps)
{
    constexpr size_t D = M::dimension; M proto;
    for (size_t v = 0; v < nvariants(proto); v++) for (size_t k = 0; k < reps; k++) run_case(cat(kind<M>(), "/", v, "/", k), [&](Rng& r) { M m; make(m, r, v, D == 3 ? 1 : 1+k%3); for (auto& b : m.backend_storage()->boundary_info) if (b.is_boundary() && r.coin(0.5)) b.id(r.integer(0, 3)); for (auto& cl : pick_cells(m, D == 3 ? 2 : 4, r)) cell(m, cl, r); });
}
int main(int argc, char **argv)
{
    init(argc, argv, "C14");
#if PART == 2
    run<s2_t>(n_of(4, 60)); run<c2_t>(n_of(3, 40)); run<g2_t>(n_of(3, 40)); for (size_t k = 0; k < n_of(60, 3000); k++) run_case(cat("algebra/", k), [&](Rng& r) { algebra(r); });
#elif PART == 3
    run<s3_t>(n_of(4, 40)); run<c3_t>(n_of(4, 40));
#else
    run<g3_t>(n_of(3, 24));
#endif
    return finish();
}
