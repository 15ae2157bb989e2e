// C18: degree bookkeeping. Histories of degree assignments are followed by an
// independent table; counts, offsets and sizes come from closed formulas; the
// variable-degree operators are compared with the uniform-degree ones; vector
// problems with a random degree on every face reproduce polynomials.
#include "hho.hpp"
#include <sstream>
template<typename M> struct Table { std::vector<std::pair<bool,size_t>> c, f, g, q; };
template<typename M> void audit(const std::string& what, const M& m, const disk::MeshDegreeInfo<M>& md, const Table<M>& t, const std::vector<typename M::cell>& cls, const std::vector<typename M::face>& fcs, const std::vector<std::vector<size_t>>& fid)
{
    constexpr size_t D = M::dimension; bool ok = true; auto eq = [](const disk::DegreeInfo& d, const std::pair<bool,size_t>& p) { return d.hasUnknowns() == p.first && d.degree() == p.second; };
    auto fd = md.faces_degree(); auto cd = md.cells_degree(); if (!check("tables.size", fd.size() == fcs.size() && cd.size() == cls.size(), what)) return;
    for (size_t i = 0; i < fcs.size(); i++) ok &= eq(fd[i], t.f[i]) && eq(md.degreeInfo(m, fcs[i]), t.f[i]) && md.degree(m, fcs[i]) == t.f[i].second && md.hasUnknowns(m, fcs[i]) == t.f[i].first; check("faces.degrees", ok, what); ok = true;
    for (size_t i = 0; i < cls.size(); i++) ok &= eq(cd[i], t.c[i]) && eq(md.degreeInfo(m, cls[i]), t.c[i]) && md.degree(m, cls[i]) == t.c[i].second && md.hasUnknowns(m, cls[i]) == t.c[i].first; check("cells.degrees", ok, what); ok = true;
    size_t total = 0;
    for (size_t i = 0; i < cls.size(); i++) {
        auto ci = md.cellDegreeInfo(m, cls[i]); auto fi = ci.facesDegreeInfo(); if (!check("cell-info.faces", fi.size() == fid[i].size(), what)) return; ok = eq(ci.cellDegreeInfo(), t.c[i]) && eq(ci.gradientDegreeInfo(), t.g[i]) && eq(ci.reconstructionDegreeInfo(), t.q[i]) && ci.cell_degree() == t.c[i].second && ci.grad_degree() == t.g[i].second && ci.reconstruction_degree() == t.q[i].second && ci.cell_hasUnknowns() == t.c[i].first && ci.grad_hasUnknowns() == t.g[i].first && ci.reconstruction_hasUnknowns() == t.q[i].first;
        auto fv = md.degreeInfo(m, faces(m, cls[i])); ok &= fv.size() == fi.size(); size_t ns = 0, nv = 0, nd = 0; std::vector<size_t> os, ov; for (size_t k = 0; k < fid[i].size(); k++) { auto& p = t.f[fid[i][k]]; ok &= eq(fi[k], p) && eq(fv[k], p); os.push_back(ns); ov.push_back(nv); size_t n = p.first ? binom(p.second, D-1) : 0; ns += n; nv += D*n; if (p.first) nd += std::max(n, binom(t.c[i].second, D-1)); ok &= disk::scalar_face_dofs(m, fi[k]) == n && disk::vector_face_dofs(m, fi[k]) == D*n; }
        check("cell-info.degrees", ok, cat(what, " cell ", i)); total += ns;
        check("faces.counts", disk::scalar_faces_dofs(m, cls[i], md) == ns && disk::vector_faces_dofs(m, cls[i], md) == nv && disk::scalar_faces_dofs(m, fi) == ns && disk::vector_faces_dofs(m, fi) == nv && disk::scalar_diff_dofs(m, ci) == nd, cat(what, " cell ", i));
        check("faces.offsets", disk::scalar_faces_offset(m, cls[i], md) == os && disk::vector_faces_offset(m, cls[i], md) == ov, cat(what, " cell ", i));
    }
    sig(cat(kind<M>(), "/tables/", what, "/", std::min<size_t>(total, 40)));
}
template<typename M> struct Cells { std::vector<typename M::cell> cls; std::vector<typename M::face> fcs; std::vector<std::vector<size_t>> fid;
    Cells(const M& m) { cls.assign(m.cells_begin(), m.cells_end()); fcs.assign(m.faces_begin(), m.faces_end()); std::map<std::vector<size_t>, size_t> tab; auto key = [](auto& f) { auto p = f.point_ids(); std::vector<size_t> k(p.begin(), p.end()); std::sort(k.begin(), k.end()); return k; }; for (size_t i = 0; i < fcs.size(); i++) tab[key(fcs[i])] = i; for (auto& cl : cls) { std::vector<size_t> v; for (auto& f : faces(m, cl)) v.push_back(tab.at(key(f))); fid.push_back(v); } } };
template<typename M> void tables(const M& m, Rng& r)
{
    Cells<M> s(m); using P = std::pair<bool,size_t>; size_t nc = s.cls.size(), nf = s.fcs.size(), a = r.integer(0, 6), b = r.integer(0, 6), g = r.integer(0, 6); int w = r.integer(0, 3); Table<M> t; disk::MeshDegreeInfo<M> md;
    auto all = [&](P c, P f, P gr, P q) { t.c.assign(nc, c); t.f.assign(nf, f); t.g.assign(nc, gr); t.q.assign(nc, q); };
    if (w == 0) { md = disk::MeshDegreeInfo<M>(m); all({false,0}, {false,0}, {false,0}, {false,0}); } else if (w == 1) { md = disk::MeshDegreeInfo<M>(m, a); all({true,a}, {true,a}, {true,a}, {true,a+1}); } else if (w == 2) { md = disk::MeshDegreeInfo<M>(m, a, b); all({true,a}, {true,b}, {true,b}, {true,b+1}); } else { md = disk::MeshDegreeInfo<M>(m, a, b, g); all({true,a}, {true,b}, {true,g}, {true,b+1}); }
    audit(cat("constructor-", w), m, md, t, s.cls, s.fcs, s.fid); auto snapshot = md; auto kept = t; int n = r.integer(1, 3)*10;
    for (int k = 0; k < n; k++) { bool cell = r.coin(0.4); size_t i = cell ? r.integer(0, nc-1) : r.integer(0, nf-1), d = r.integer(0, 7); bool h = r.coin(0.7); auto& e = cell ? t.c[i] : t.f[i];
        switch (r.integer(0, 2)) { case 0: if (cell) md.degree(m, s.cls[i], d); else md.degree(m, s.fcs[i], d); e.second = d; break; case 1: if (cell) md.hasUnknowns(m, s.cls[i], h); else md.hasUnknowns(m, s.fcs[i], h); e.first = h; break; default: if (cell) md.degreeInfo(m, s.cls[i], disk::DegreeInfo(h, d)); else md.degreeInfo(m, s.fcs[i], disk::DegreeInfo(h, d)); e = {h, d}; } }
    audit(cat("history-", n), m, md, t, s.cls, s.fcs, s.fid); audit("copy", m, snapshot, kept, s.cls, s.fcs, s.fid);
    /* descriptions of one cell */
    auto& cl = s.cls[r.integer(0, nc-1)]; size_t k = howmany_faces(m, cl); auto cell = [&](const char *nm, const disk::CellDegreeInfo<M>& ci, size_t c, size_t f, size_t gr, size_t q) { bool ok = ci.cell_degree() == c && ci.grad_degree() == gr && ci.reconstruction_degree() == q && ci.cell_hasUnknowns() && ci.grad_hasUnknowns() && ci.reconstruction_hasUnknowns(); auto v = ci.facesDegreeInfo(); ok &= v.size() == k; for (auto& x : v) ok &= x.hasUnknowns() && x.degree() == f; check("cell-info.constructors", ok, nm); std::ostringstream os; os << ci; check("cell-info.printed", os.str().find(cat("cell degree ", c)) != std::string::npos && os.str().find(cat("reconstruction degree ", q)) != std::string::npos && os.str().find(cat("grad degree ", gr)) != std::string::npos, nm); };
    cell("degree", disk::CellDegreeInfo<M>(m, cl, a), a, a, a, a+1); cell("cell-face", disk::CellDegreeInfo<M>(m, cl, a, b), a, b, b, b+1); cell("cell-face-grad", disk::CellDegreeInfo<M>(m, cl, a, b, g), a, b, g, b+1);
    { std::vector<disk::DegreeInfo> v; for (size_t i = 0; i < k; i++) v.push_back(disk::DegreeInfo(r.coin(), size_t(r.integer(0, 5)))); size_t q = r.integer(0, 6); disk::CellDegreeInfo<M> c1(a, q, g, v), c2(disk::DegreeInfo(false, a), disk::DegreeInfo(true, q), disk::DegreeInfo(false, g), v); auto v1 = c1.facesDegreeInfo(), v2 = c2.facesDegreeInfo(); bool ok = v1.size() == k && v2.size() == k; for (size_t i = 0; ok && i < k; i++) ok = v1[i].degree() == v[i].degree() && v1[i].hasUnknowns() == v[i].hasUnknowns() && v2[i].degree() == v[i].degree() && v2[i].hasUnknowns() == v[i].hasUnknowns(); ok &= c1.cell_degree() == a && c1.reconstruction_degree() == q && c1.grad_degree() == g && c1.cell_hasUnknowns() && c2.cell_degree() == a && c2.reconstruction_degree() == q && c2.grad_degree() == g && !c2.cell_hasUnknowns() && c2.reconstruction_hasUnknowns() && !c2.grad_hasUnknowns(); check("cell-info.given-faces", ok); }
}
template<typename M> void uniform(const M& m, const typename M::cell& cl, size_t cd, size_t fd, Rng& r)
{
    constexpr size_t D = M::dimension; disk::hho_degree_info hdi(cd, fd); disk::CellDegreeInfo<M> ci(m, cl, cd, fd, fd); disk::MeshDegreeInfo<M> md(m, cd, fd); T tol = 1e-12; auto fr = lframe(m, cl); std::string d = cat("cd=", cd, " fd=", fd); size_t ns = binom(cd, D)+howmany_faces(m, cl)*binom(fd, D-1), nv = D*ns;
    auto same3 = [&](const std::string& k, const MX& u, const MX& c, const MX& x, size_t n) { check(k+".size", (size_t)u.cols() == n && (size_t)u.rows() == n, d); same_matrix(k+".cell-info", c, u, tol, d); same_matrix(k+".mesh-info", x, u, tol, d); };
    auto pair3 = [&](const std::string& k, const std::pair<MX,MX>& u, const std::pair<MX,MX>& c, const std::pair<MX,MX>& x, size_t n) { check(k+".size", (size_t)u.first.cols() == n && (size_t)u.second.rows() == n, d); same_matrix(k+".cell-info", c.first, u.first, tol, d); same_matrix(k+".mesh-info", x.first, u.first, tol, d); same_matrix(k+".data.cell-info", c.second, u.second, tol, d); same_matrix(k+".data.mesh-info", x.second, u.second, tol, d); };
    auto lap = disk::make_scalar_hho_laplacian(m, cl, hdi); pair3("scalar-laplacian", lap, disk::make_scalar_hho_laplacian(m, cl, ci), disk::make_scalar_hho_laplacian(m, cl, md), ns);
    pair3("scalar-gradient", disk::make_vector_hho_gradrec(m, cl, hdi), disk::make_vector_hho_gradrec(m, cl, ci), disk::make_vector_hho_gradrec(m, cl, md), ns);
    same3("scalar-hdg", disk::make_scalar_hdg_stabilization(m, cl, hdi), disk::make_scalar_hdg_stabilization(m, cl, ci), disk::make_scalar_hdg_stabilization(m, cl, md), ns);
    { MX u = disk::make_scalar_hho_stabilization(m, cl, lap.first, hdi, false), c = disk::make_scalar_hho_stabilization(m, cl, lap.first, ci, false), x = disk::make_scalar_hho_stabilization(m, cl, lap.first, md, false); MX h = disk::make_scalar_hdg_stabilization(m, cl, hdi); T s = h.norm(); near("scalar-stabilization.cell-info", (u-c).norm()/s, tol*fr.big*100, d); near("scalar-stabilization.mesh-info", (u-x).norm()/s, tol*fr.big*100, d); }
    pair3("symmetric-laplacian", disk::make_vector_hho_symmetric_laplacian(m, cl, hdi), disk::make_vector_hho_symmetric_laplacian(m, cl, ci), disk::make_vector_hho_symmetric_laplacian(m, cl, md), nv);
    { auto u = disk::make_vector_hho_laplacian(m, cl, hdi); pair3("vector-laplacian", u, disk::make_vector_hho_laplacian(m, cl, md), disk::make_vector_hho_laplacian(m, cl, md, lap), nv); }
    same3("vector-hdg", disk::make_vector_hdg_stabilization(m, cl, hdi), disk::make_vector_hdg_stabilization(m, cl, md), disk::make_vector_hdg_stabilization(m, cl, md), nv);
    { auto u = disk::make_matrix_hho_symmetric_gradrec(m, cl, hdi), c = disk::make_matrix_hho_symmetric_gradrec(m, cl, ci), x = disk::make_matrix_hho_symmetric_gradrec(m, cl, md); pair3("symmetric-gradient", u, c, x, nv); auto v = disk::make_matrix_hho_gradrec(m, cl, hdi); pair3("matrix-gradient", v, disk::make_matrix_hho_gradrec(m, cl, md), disk::make_matrix_hho_gradrec(m, cl, md), nv); }
    { auto u = disk::make_hho_divergence_reconstruction(m, cl, hdi), c = disk::make_hho_divergence_reconstruction(m, cl, ci), x = disk::make_hho_divergence_reconstruction(m, cl, md); pair3("divergence", u, c, x, nv); }
    auto p = Poly<D>::random(cd+1, r, fr.c, fr.h); auto q = vpoly<D>(cd+1, r, fr.c, fr.h); auto sf = disk::scalar_rhs_function<M>([&](const pt<D>& x) -> T { return p(x); }); auto vf = disk::vector_rhs_function<M>([&](const pt<D>& x) -> V<D> { return veval<D>(q, x); });
    { VX a = disk::project_function(m, cl, hdi, sf, 2), b = disk::project_function(m, cl, md, sf, 2); same_matrix("scalar-projection", b, a, tol, d); VX c = disk::project_function(m, cl, hdi, vf, 2), e = disk::project_function(m, cl, md, vf, 2); same_matrix("vector-projection", e, c, tol, d); }
    { MX A = spd(nv, r); VX b = rvec(nv, r); auto u = disk::make_vector_static_condensation_withMatrix(m, cl, hdi, A, b), x = disk::make_vector_static_condensation_withMatrix(m, cl, md, A, b), y = disk::make_vector_static_condensation_withMatrix(m, cl, md, A, b, false); auto cmp = [&](const char *k, auto& z) { same_matrix(cat("condensation.", k, ".matrix"), std::get<0>(z).first, std::get<0>(u).first, tol, d); same_matrix(cat("condensation.", k, ".load"), std::get<0>(z).second, std::get<0>(u).second, tol, d); same_matrix(cat("condensation.", k, ".recover"), std::get<1>(z), std::get<1>(u), tol, d); same_matrix(cat("condensation.", k, ".recover-load"), std::get<2>(z), std::get<2>(u), tol, d); }; cmp("sized", x); cmp("unsized", y); }
    sig(cat(kind<M>(), "/uniform/", shape_sig(m, cl), "/", cd, fd));
}
inline VX solve(const Eigen::SparseMatrix<T>& L, const VX& R) { VX sc(L.rows()); for (long i = 0; i < L.rows(); i++) { T d = 0; for (Eigen::SparseMatrix<T>::InnerIterator it(L, i); it; ++it) d = std::max(d, std::abs(it.value())); sc(i) = 1/std::sqrt(std::max(d, 1e-300)); } Eigen::SparseMatrix<T> B = sc.asDiagonal()*L*sc.asDiagonal(); Eigen::SparseLU<Eigen::SparseMatrix<T>> lu(B); if (lu.info() != Eigen::Success) return VX::Constant(L.rows(), NAN); VX x = lu.solve(VX(sc.cwiseProduct(R))); VX res = sc.cwiseProduct(R)-B*x; x += lu.solve(res); return sc.cwiseProduct(x); }
/* componentwise Poisson problem, a degree on every face and every cell */
template<typename M> void problem(const M& m, Rng& r)
{
    constexpr size_t D = M::dimension; Cells<M> s(m); size_t k = r.integer(1, D == 3 ? 1 : 2), up = D == 3 ? 1 : 2; disk::MeshDegreeInfo<M> md(m, k, k, k); for (auto& f : s.fcs) md.degree(m, f, k+r.integer(0, up)); for (auto& c : s.cls) md.degree(m, c, k+r.integer(0, 1)); auto [c_, h_] = orc::frame(m); V<D> fc = c_; T fh = h_, it = 1e-11, asp = 1; for (auto& cl : s.cls) { it = std::max(it, itol(m, cl)); asp = std::max(asp, aspect(m, cl)); }
    auto p = vpoly<D>(k, r, fc, fh); auto f = [=](const pt<D>& x) -> V<D> { V<D> v; for (size_t i = 0; i < D; i++) v(i) = -p[i].lap(x); return v; }; disk::vector_boundary_conditions<M> bnd(m); std::set<size_t> ids; for (auto& fc2 : s.fcs) if (m.is_boundary(fc2)) ids.insert(m.boundary_id(fc2)); for (size_t id : ids) bnd.addDirichletBC(disk::DIRICHLET, id, [p](const pt<D>& x) -> V<D> { return veval<D>(p, x); });
    auto as = disk::make_vector_primal_hho_assembler(m, md, bnd); std::vector<MX> AL; std::vector<VX> bL; size_t free = 0; for (auto& fc2 : s.fcs) if (!m.is_boundary(fc2)) free += D*binom(md.degree(m, fc2), D-1); if (!check("problem.size", (size_t)as.LHS.rows() == free)) return;
    for (auto& cl : s.cls) { auto ci = md.cellDegreeInfo(m, cl); MX A = disk::make_vector_hho_laplacian(m, cl, md).second+disk::make_vector_hdg_stabilization(m, cl, md); VX b = VX::Zero(A.rows()); auto cb = disk::make_vector_monomial_basis(m, cl, ci.cell_degree()); b.head(cb.size()) = disk::make_rhs(m, cl, cb, f, 2); auto t = disk::make_vector_static_condensation_withMatrix(m, cl, md, A, b); AL.push_back(std::get<1>(t)); bL.push_back(std::get<2>(t)); as.assemble(m, cl, bnd, std::get<0>(t).first, std::get<0>(t).second, 2); }
    as.impose_neumann_boundary_conditions(m, bnd, 2); as.finalize(); VX x = free ? solve(as.LHS, as.RHS) : VX(0); T e = 0, sc = 1e-300;
    for (size_t c = 0; c < s.cls.size(); c++) { VX l = as.take_local_solution(m, s.cls[c], bnd, x, 2); VX u = disk::make_vector_static_decondensation_withMatrix<T>(AL[c], bL[c], l); auto cb = disk::make_vector_monomial_basis(m, s.cls[c], md.degree(m, s.cls[c])); if (!check("problem.local-size", (size_t)u.size() == cb.size()+disk::vector_faces_dofs(m, s.cls[c], md) || (size_t)u.size() == cb.size(), cat(u.size()))) return; auto y = P<D>(random_in_cell(m, s.cls[c], r)); MX bb = cb.eval_functions(y); V<D> want = veval<D>(p, y); e = std::max(e, (V<D>(bb.transpose()*u.head(cb.size()))-want).norm()); sc = std::max(sc, want.norm()); }
    near("problem.polynomial", e/sc, it*1e3*asp*asp*std::pow(10., k+up), cat("k=", k, " cells ", s.cls.size())); sig(cat(kind<M>(), "/problem/", s.cls.size(), "/", k));
}
template<typename M> void run(size_t levels)
{
    constexpr size_t D = M::dimension; M proto;
    for (size_t v = 0; v < nvariants(proto); v++) for (size_t l = 1; l <= levels; l++) run_case(cat(kind<M>(), "/", v, "/", l), [&](Rng& r) {
        M m; make(m, r, v, D == 3 ? 1 : 1+(l-1)%2); if (m.cells_size() > 150) { skip("large mesh"); return; } for (int k = 0; k < 3; k++) tables(m, r); std::vector<typename M::cell> all(m.cells_begin(), m.cells_end());
        for (auto& cl : pick(m, all, 2, r, D == 3 ? 9 : 16)) { size_t fd = r.integer(0, D == 3 ? 2 : 3), cd = fd == 0 ? r.integer(0, 1) : r.integer(fd-1, fd+1); if (D == 3) cd = std::min<size_t>(cd, 2); uniform(m, cl, cd, fd, r); }
        if (m.cells_size() <= (D == 3 ? 30 : 80)) problem(m, r); });
}
#if PART == 2
inline void admissible()
{
    size_t n = n_of(9, 14); for (size_t cd = 0; cd < n; cd++) for (size_t fd = 0; fd < n; fd++) { bool ok = cd+1 >= fd && cd <= fd+1; run_case(cat("degrees/", cd, "/", fd), [&](Rng&) { std::stringstream sink; auto *old = std::cout.rdbuf(sink.rdbuf()); auto judge = [&](const char *w, const disk::hho_degree_info& h, size_t c, size_t g) { check(cat("admissible.", w), h.cell_degree() == c && h.face_degree() == fd && h.grad_degree() == g && h.reconstruction_degree() == fd+1, cat("cd=", cd, " fd=", fd, " got ", h.cell_degree(), h.face_degree(), h.grad_degree(), h.reconstruction_degree())); };
        { disk::hho_degree_info h(cd, fd); judge("two", h, ok ? cd : fd, fd); check("admissible.reported", ok == sink.str().empty()); sink.str(""); } for (size_t gd = 0; gd < n; gd++) { disk::hho_degree_info h(cd, fd, gd); bool o3 = ok && gd >= fd; judge("three", h, o3 ? cd : fd, o3 ? gd : fd); check("admissible.reported", o3 == sink.str().empty(), cat("gd=", gd)); sink.str(""); }
        if (cd == fd) { disk::hho_degree_info h(fd), z; judge("one", h, fd, fd); check("admissible.default", z.cell_degree() == 1 && z.face_degree() == 1 && z.grad_degree() == 1 && z.reconstruction_degree() == 2); } { disk::hho_degree_info h; h.cell_degree(cd); h.face_degree(fd); h.reconstruction_degree(cd+fd); check("admissible.setters", h.cell_degree() == cd && h.face_degree() == fd && h.reconstruction_degree() == cd+fd); h.info_degree(); check("admissible.printed", sink.str().find(cat("cell degree: ", cd)) != std::string::npos && sink.str().find(cat("face degree: ", fd)) != std::string::npos); } { disk::hho_degree_info h(disk::priv::hdi_named_args{.rd = cd+2, .cd = cd, .fd = fd}); check("admissible.named", h.cell_degree() == cd && h.face_degree() == fd && h.reconstruction_degree() == cd+2 && h.grad_degree() == fd); } std::cout.rdbuf(old); sig(cat("degrees/", cd, "/", fd)); }); }
    for (size_t d = 1; d <= 3; d++) for (size_t k = 0; k < 12; k++) run_case(cat("sizes/", d, "/", k), [&](Rng&) { check("sizes.scalar", disk::scalar_basis_size(k, d) == binom(k, d)); for (size_t v = 1; v <= 3; v++) check("sizes.vector", disk::vector_basis_size(k, d, v) == v*binom(k, d)); for (size_t v = 2; v <= 3; v++) { check("sizes.matrix", disk::matrix_basis_size(k, d, v) == v*v*binom(k, d)); check("sizes.sym-matrix", disk::sym_matrix_basis_size(k, d, v) == v*(v+1)/2*binom(k, d)); } sig(cat("sizes/", d, "/", k)); });
    run_case("degree-info", [&](Rng& r) { disk::DegreeInfo z, t(true), f(false), a(size_t(3)), b(true, 4), c(false, 5); check("degree-info.constructors", !z.hasUnknowns() && z.degree() == 0 && t.hasUnknowns() && t.degree() == 0 && !f.hasUnknowns() && a.hasUnknowns() && a.degree() == 3 && b.hasUnknowns() && b.degree() == 4 && !c.hasUnknowns() && c.degree() == 5); c.hasUnknowns(true); c.degree(7); check("degree-info.setters", c.hasUnknowns() && c.degree() == 7); });
}
#endif
int main(int argc, char **argv)
{
    init(argc, argv, "C18");
#if PART == 2
    admissible(); run<s2_t>(n_of(5, 14)); run<c2_t>(n_of(5, 14));
#elif PART == 5
    run<g2_t>(n_of(4, 12));
#elif PART == 3
    run<s3_t>(n_of(3, 8)); run<c3_t>(n_of(3, 8));
#else
    run<g3_t>(n_of(2, 6));
#endif
    return finish();
}
