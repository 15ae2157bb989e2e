// C09: scalar HHO reconstructions. Every operator is compared, through the
// variational identity that defines it, with matrices assembled by the oracle,
// and applied to hybrid interpolates of polynomials.
#include "hho.hpp"
template<size_t D> using DT = Eigen::Matrix<T,D,D>;

/* gradient-type reconstruction on rb (first function excluded): A X = B */
template<typename M, typename RB> std::pair<MX, MX> potential(const Hyb<M>& h, const RB& rb, size_t rd, const DT<M::dimension>& K, bool fproj)
{
    constexpr size_t D = M::dimension; size_t nr = rb.size()-1; MX A = MX::Zero(nr, nr), B = MX::Zero(nr, h.n); auto cb = disk::make_scalar_monomial_basis(h.m, h.cl, h.cd);
    for (auto& [q, w] : qps_cell(h.m, h.cl, 2*std::max(rd, h.cd))) { MX g = rb.eval_gradients(q); g = g.bottomRows(nr).eval(); MX c = cb.eval_gradients(q); A += w*g*K*g.transpose(); B.leftCols(h.nc) += w*g*K*c.transpose(); }
    for (size_t i = 0; i < h.fcs.size(); i++) if (h.fdi[i].hasUnknowns()) { V<D> n = outward(h.m, h.cl, h.fcs[i]); MX P; if (fproj) P = h.proj_trace(i);
        for (auto& [q, w] : qps_face(h.m, h.fcs[i], rd+std::max(h.cd, h.fdi[i].degree()))) { MX g = rb.eval_gradients(q); VX gn = g.bottomRows(nr)*K*n; VX f = h.facev(i, q), c = fproj ? VX(P.transpose()*f) : VX(h.cellv(q)); B.middleCols(h.off[i], h.nf(i)) += w*gn*f.transpose(); B.leftCols(h.nc) -= w*gn*c.transpose(); } }
    return {A, B};
}
template<typename M> void compare(const std::string& fam, const Hyb<M>& h, const std::pair<MX, MX>& lib, const MX& A, const MX& B, T tol)
{
    std::string d = h.str(); if (!residual_check(fam+".definition", A, lib.first, B, tol, d)) return; MX data = lib.first.transpose()*A*lib.first; if (data.norm() > 0) { same_matrix(fam+".energy", lib.second, data, tol*10, d); symmetric_check(fam+".symmetric", lib.second, tol, d); posdef_check(fam+".semidefinite", lib.second, tol, d); }
    /* constants: every face with unknowns and the cell equal to one */
    VX one = VX::Zero(h.n); one(0) = 1; for (size_t i = 0; i < h.fcs.size(); i++) if (h.nf(i)) one(h.off[i]) = 1; near(fam+".constants", (lib.second*one).norm()/std::max(lib.second.norm(), 1e-300), tol*10, d);
}
/* the reconstruction of the interpolate of p (degree rd) has gradient grad p */
template<typename M, typename RB> void exact(const std::string& fam, const Hyb<M>& h, const RB& rb, const MX& oper, const VX& Ip, const Poly<M::dimension>& p, T tol, Rng& r)
{
    constexpr size_t D = M::dimension; auto fr = lframe(h.m, h.cl); VX c = oper*Ip; T s = 0, e = 0; for (int k = 0; k < 4; k++) { auto x = P<D>(random_in_cell(h.m, h.cl, r)); MX g = rb.eval_gradients(x); V<D> got = g.bottomRows(g.rows()-1).transpose()*c, want = p.grad(x); e = std::max(e, (got-want).norm()); s = std::max({s, want.norm(), 0.1/fr.h}); } near(fam+".exact", e/s, tol, h.str());
}
template<typename M> VX interp(const Hyb<M>& h, const disk::hho_degree_info& hdi, const Poly<M::dimension>& p) { return disk::project_function(h.m, h.cl, hdi, disk::scalar_rhs_function<M>([&](const pt<M::dimension>& x) -> T { return p(x); }), 2); }

template<typename M> void cell(const M& m, const typename M::cell& cl, Rng& r)
{
    constexpr size_t D = M::dimension; auto fr = lframe(m, cl); T asp = aspect(m, cl); size_t fd = r.integer(0, D == 3 ? 2 : 3), cd = fd == 0 ? r.integer(0, 1) : r.integer(fd-1, fd+1); disk::hho_degree_info hdi(cd, fd); size_t rd = fd+1; T tol = itol(m, cl)*10*fr.big*(1+rd*rd)*std::pow(asp, 1.), pt_ = tol*std::pow(10., rd)*asp;
    Hyb<M> h(m, cl, cd, fd); DT<D> K = spd(D, r), I = DT<D>::Identity(); auto rb = disk::make_scalar_monomial_basis(m, cl, rd); auto p = Poly<D>::random(rd, r, fr.c, fr.h); VX Ip = interp(h, hdi, p);
    check("degrees", hdi.cell_degree() == cd && hdi.face_degree() == fd && hdi.reconstruction_degree() == rd && hdi.grad_degree() == fd);
    { auto o = disk::make_scalar_hho_laplacian(m, cl, hdi); auto [A, B] = potential(h, rb, rd, I, false); compare<M>("laplacian", h, o, A, B, tol); exact("laplacian", h, rb, o.first, Ip, p, pt_, r); }
    { auto o = disk::make_scalar_hho_laplacian(m, cl, hdi, disk::diffusion_tensor<M>(K)); auto [A, B] = potential(h, rb, rd, K, false); compare<M>("laplacian-tensor", h, o, A, B, tol); exact("laplacian-tensor", h, rb, o.first, Ip, p, pt_, r); }
    { auto o = disk::make_shl_face_proj(m, cl, hdi); auto [A, B] = potential(h, rb, rd, I, true); compare<M>("face-projected", h, o, A, B, tol); exact("face-projected", h, rb, o.first, Ip, p, pt_, r); }
    { auto o = disk::make_shl_face_proj(m, cl, hdi, disk::diffusion_tensor<M>(K)); auto [A, B] = potential(h, rb, rd, K, true); compare<M>("face-projected-tensor", h, o, A, B, tol); exact("face-projected-tensor", h, rb, o.first, Ip, p, pt_, r); }
    /* degrees given per cell and per face */
    { disk::CellDegreeInfo<M> ci(m, cl, cd, fd, fd); auto o = disk::make_scalar_hho_laplacian(m, cl, ci); auto [A, B] = potential(h, rb, rd, I, false); compare<M>("laplacian-cellinfo", h, o, A, B, tol); disk::MeshDegreeInfo<M> mdi(m, cd, fd); auto o2 = disk::make_scalar_hho_laplacian(m, cl, mdi); compare<M>("laplacian-meshinfo", h, o2, A, B, tol); }
    { size_t kmax = D == 3 ? 2 : 3; Hyb<M> hv(m, cl, cd, random_degrees(m, cl, kmax, true, r)); size_t rv = std::max<size_t>(r.integer(1, kmax+1), cd); auto rbv = disk::make_scalar_monomial_basis(m, cl, rv); auto o = disk::make_scalar_hho_laplacian(m, cl, hv.info(rv, fd)); auto [A, B] = potential(hv, rbv, rv, I, false); compare<M>("laplacian-degrees", hv, o, A, B, tol*4);
      sig(cat(kind<M>(), "/", hv.str(), "/rec=", rv)); }
    /* harmonic reconstructions: degree above cell_degree+2 */
    if (r.coin(0.7)) { size_t hr = cd+2+r.integer(0, D == 3 ? 1 : 2); disk::hho_degree_info hh(disk::priv::hdi_named_args{.rd = hr, .cd = cd, .fd = fd}); auto hb = disk::make_scalar_harmonic_top_basis(m, cl, hr); hb.maximum_polynomial_degree(cd+2); T th = tol*10*(1+hr*hr);
        { auto o = disk::make_shl_harmonic(m, cl, hh); auto [A, B] = potential(h, hb, hr, I, false); compare<M>("harmonic", h, o, A, B, th); }
        { auto o = disk::make_shl_harmonic(m, cl, hh, disk::diffusion_tensor<M>(K)); auto [A, B] = potential(h, hb, hr, K, false); compare<M>("harmonic-tensor", h, o, A, B, th); }
        { auto o = disk::make_shl_face_proj_harmonic(m, cl, hh); auto [A, B] = potential(h, hb, hr, I, true); compare<M>("harmonic-face-projected", h, o, A, B, th); }
        { auto o = disk::make_shl_face_proj_harmonic(m, cl, hh, disk::diffusion_tensor<M>(K)); auto [A, B] = potential(h, hb, hr, K, true); compare<M>("harmonic-face-projected-tensor", h, o, A, B, th); }
        { /* stabilisation-free operator: u_F corrected with the inner reconstruction on the faces */
          auto o = disk::make_sfl(m, cl, hh, disk::diffusion_tensor<M>(K)); auto [Ai, Bi] = potential(h, rb, rd, K, false); MX Ri = weighted_solve(Ai, Bi); auto [A, B] = potential(h, hb, hr, K, false); size_t nr = hb.size()-1;
          for (size_t i = 0; i < h.fcs.size(); i++) { V<D> n = outward(m, cl, h.fcs[i]); MX C = MX::Zero(h.nf(i), rb.size()-1); for (auto& [q, w] : qps_face(m, h.fcs[i], rd+fd)) { VX rr = rb.eval_functions(q); C += w*VX(h.facev(i, q))*rr.tail(rr.size()-1).transpose(); } MX pr = weighted_solve(h.face_mass(i), C);
              for (auto& [q, w] : qps_face(m, h.fcs[i], hr+rd)) { MX g = hb.eval_gradients(q); VX gn = g.bottomRows(nr)*K*n; VX rr = rb.eval_functions(q); VX jump = VX(rr.tail(rr.size()-1))-VX(pr.transpose()*VX(h.facev(i, q))); B += w*gn*(Ri.transpose()*jump).transpose(); } }
          compare<M>("stabilisation-free", h, o, A, B, th*std::pow(10., rd)); }
        sig(cat(kind<M>(), "/harmonic/", cd, fd, hr)); }
    /* gradient reconstructions in vector polynomials */
    auto gradient = [&](const std::string& fam, const Hyb<M>& hy, const auto& gb, const std::pair<MX, MX>& o, const DT<D>* Kf, T tg) {
        size_t ng = gb.size(); MX A = MX::Zero(ng, ng), AK = A, B = MX::Zero(ng, hy.n); for (auto& [q, w] : qps_cell(m, cl, gb.degree()+std::max(gb.degree(), hy.cd))) { MX t = gb.eval_functions(q); auto cb = disk::make_scalar_monomial_basis(m, cl, hy.cd); MX c = cb.eval_gradients(q); A += w*t*t.transpose(); if (Kf) AK += w*t*(*Kf)*t.transpose(); B.leftCols(hy.nc) += w*t*c.transpose(); }
        for (size_t i = 0; i < hy.fcs.size(); i++) if (hy.fdi[i].hasUnknowns()) { V<D> n = outward(m, cl, hy.fcs[i]); for (auto& [q, w] : qps_face(m, hy.fcs[i], gb.degree()+std::max(hy.cd, hy.fdi[i].degree()))) { MX t = gb.eval_functions(q); VX tn = t*n; B.middleCols(hy.off[i], hy.nf(i)) += w*tn*VX(hy.facev(i, q)).transpose(); B.leftCols(hy.nc) -= w*tn*VX(hy.cellv(q)).transpose(); } }
        std::string d = hy.str(); if (!residual_check(fam+".definition", A, o.first, B, tg, d)) return; MX data = o.first.transpose()*(Kf ? AK : A)*o.first; if (data.norm() > 0) { same_matrix(fam+".energy", o.second, data, tg*10, d); symmetric_check(fam+".symmetric", o.second, tg, d); posdef_check(fam+".semidefinite", o.second, tg, d); }
        VX one = VX::Zero(hy.n); one(0) = 1; for (size_t i = 0; i < hy.fcs.size(); i++) if (hy.nf(i)) one(hy.off[i]) = 1; near(fam+".constants", (o.second*one).norm()/std::max(o.second.norm(), 1e-300), tg*10, d); };
    auto gexact = [&](const std::string& fam, const auto& gb, const MX& oper) { VX c = oper*Ip; T s = 0.1/fr.h, e = 0; for (int k = 0; k < 4; k++) { auto x = P<D>(random_in_cell(m, cl, r)); V<D> got = MX(gb.eval_functions(x)).transpose()*c, want = p.grad(x); e = std::max(e, (got-want).norm()); s = std::max(s, want.norm()); } near(fam+".exact", e/s, pt_, h.str()); };
    { auto gb = disk::make_vector_monomial_basis(m, cl, fd); auto o = disk::make_vector_hho_gradrec(m, cl, hdi); gradient("gradient", h, gb, o, nullptr, tol); gexact("gradient", gb, o.first); auto mf = [&](const pt<D>&) -> DT<D> { return K; }; gradient("gradient-tensor", h, gb, disk::make_vector_hho_gradrec(m, cl, hdi, mf), &K, tol);
      disk::MeshDegreeInfo<M> mdi(m, cd, fd); gradient("gradient-meshinfo", h, gb, disk::make_vector_hho_gradrec(m, cl, mdi), nullptr, tol); gradient("gradient-meshinfo-tensor", h, gb, disk::make_vector_hho_gradrec(m, cl, mdi, mf), &K, tol); }
    { size_t kmax = D == 3 ? 2 : 3, gd = r.integer(0, kmax); Hyb<M> hv(m, cl, cd, random_degrees(m, cl, kmax, true, r)); auto gb = disk::make_vector_monomial_basis(m, cl, gd); gradient("gradient-degrees", hv, gb, disk::make_vector_hho_gradrec(m, cl, hv.info(fd+1, gd)), nullptr, tol*4); }
    { size_t gd = fd+r.integer(1,2); disk::hho_degree_info hg(cd, fd, gd); check("degrees.gradient", hg.grad_degree() == gd && hg.cell_degree() == cd && hg.face_degree() == fd); gradient("gradient-richer", h, disk::make_vector_monomial_basis(m, cl, gd), disk::make_vector_hho_gradrec(m, cl, hg), nullptr, tol*4); }
    if constexpr (std::is_same_v<M, s2_t> || std::is_same_v<M, s3_t>) { size_t gd = fd+1; disk::hho_degree_info hg(cd, fd, gd); auto gb = disk::make_vector_monomial_basis_RT(m, cl, gd); auto o = disk::make_vector_hho_gradrec_RT(m, cl, hg); gradient("gradient-RT", h, gb, o, nullptr, tol*4); if (cd >= fd) { auto q = Poly<D>::random(fd+1, r, fr.c, fr.h); gexact("gradient-RT", gb, o.first); }
        auto mf = [&](const pt<D>&) -> DT<D> { return K; }; gradient("gradient-RT-tensor", h, gb, disk::make_vector_hho_gradrec_RT(m, cl, hg, mf), &K, tol*4); disk::MeshDegreeInfo<M> mdi(m, cd, fd, gd); gradient("gradient-RT-meshinfo", h, gb, disk::make_vector_hho_gradrec_RT(m, cl, mdi), nullptr, tol*4); gradient("gradient-RT-meshinfo-tensor", h, gb, disk::make_vector_hho_gradrec_RT(m, cl, mdi, mf), &K, tol*4); }
    /* Dirichlet conditions by penalisation: consistent terms on boundary faces only */
    { auto o = disk::make_scalar_hho_laplacian(m, cl, hdi); MX L = o.second, L0 = L; VX rhs = rvec(h.n, r), rhs0 = rhs; auto g = Poly<D>::random(rd, r, fr.c, fr.h); auto gf = [&](const pt<D>& x) -> T { return g(x); }; T pen = r.real(0.5, 4); MX op = o.first; disk::apply_dirichlet_via_nitsche(m, cl, op, L, rhs, hdi, gf, pen);
      MX dL = L-L0, W = MX::Zero(h.n, h.n); VX dr = rhs-rhs0, wr = VX::Zero(h.n); size_t nr = rb.size()-1; bool any = false; T sL = L0.norm();
      for (size_t i = 0; i < h.fcs.size(); i++) if (m.is_boundary(h.fcs[i])) { any = true; V<D> n = outward(m, cl, h.fcs[i]); T hf = meas_face(m, h.fcs[i]); for (auto& [q, w] : qps_face(m, h.fcs[i], 2*rd)) { VX uf = VX::Zero(h.n), gn = o.first.transpose()*(MX(rb.eval_gradients(q)).bottomRows(nr)*n); uf.segment(h.off[i], h.nf(i)) = h.facev(i, q); W += w*(-uf*gn.transpose()-gn*uf.transpose()+pen/hf*uf*uf.transpose()); wr += w*g(q)*(pen/hf*uf-gn); } }
      near("nitsche.lhs", (dL-W).norm()/std::max(sL, W.norm()), tol*10, cat("boundary ", any)); near("nitsche.rhs", (dr-wr).norm()/std::max(rhs0.norm(), wr.norm()), tol*10); }
    sig(cat(kind<M>(), "/", cell_sig(m, cl), "/", cd, fd));
}
template<typename M> void run(size_t levels)
{
    constexpr size_t D = M::dimension; M proto;
    for (size_t v = 0; v < nvariants(proto); v++) for (size_t l = 1; l <= levels; l++) run_case(cat(kind<M>(), "/", v, "/", l), [&](Rng& r) {
        M m; make(m, r, v, D == 3 ? 1 : l); std::vector<typename M::cell> cs(m.cells_begin(), m.cells_end()); for (auto& cl : pick(m, cs, n_of(2, 8), r, 4)) cell(m, cl, r); });
}
int main(int argc, char **argv)
{
    init(argc, argv, "C09");
#if PART == 2
    run<s2_t>(n_of(3, 10)); run<c2_t>(n_of(2, 10)); run<g2_t>(n_of(2, 10));
    for (size_t k = 0; k < n_of(4, 40); k++) run_case(cat("star/", k), [&](Rng& r) { g2_t m; make_star(m, r); cell(m, *m.cells_begin(), r); });
#elif PART == 3
    run<s3_t>(n_of(2, 8)); run<c3_t>(n_of(2, 6));
#else
    run<g3_t>(n_of(2, 4));
#endif
    return finish();
}
