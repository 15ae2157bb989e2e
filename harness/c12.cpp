// C12: scalar assemblers. Random local systems are scattered by the library and
// by the oracle, whose numbering is read back through the assembler itself;
// diffusion problems with polynomial solutions are solved on whole meshes with
// every mixture of boundary conditions, and compared with uncondensed solves.
#include "hho.hpp"
#include "diskpp/methods/hho_slapl.hpp"
template<size_t D> using DT = Eigen::Matrix<T,D,D>;
enum BK { BDIR, BNEU, BROB };
template<typename M> struct Setup {
    static constexpr size_t D = M::dimension; const M& m; disk::hho_degree_info hdi; size_t cd, fd, nc, fb; std::vector<typename M::cell> cls; std::vector<typename M::face> fcs; std::vector<bool> isb; std::vector<size_t> bid; std::map<size_t, BK> kind; std::vector<std::vector<size_t>> fid; std::vector<V<D>> n_, c_; std::vector<T> d_;
    Setup(const M& m_, size_t cd_, size_t fd_) : m(m_), hdi(cd_, fd_), cd(cd_), fd(fd_) { nc = binom(cd, D); fb = binom(fd, D-1); cls.assign(m.cells_begin(), m.cells_end()); fcs.assign(m.faces_begin(), m.faces_end()); n_.resize(fcs.size()); c_.resize(fcs.size()); d_.resize(fcs.size());
        for (size_t i = 0; i < fcs.size(); i++) { isb.push_back(m.is_boundary(fcs[i])); bid.push_back(isb[i] ? m.boundary_id(fcs[i]) : 0); c_[i] = mean<D>(vpts(m, fcs[i])); d_[i] = diam<D>(vpts(m, fcs[i])); }
        std::map<std::vector<size_t>, size_t> tab; for (size_t i = 0; i < fcs.size(); i++) { auto p = fcs[i].point_ids(); std::vector<size_t> k(p.begin(), p.end()); std::sort(k.begin(), k.end()); tab[k] = i; }
        for (auto& cl : cls) { std::vector<size_t> v; for (auto& f : faces(m, cl)) { auto p = f.point_ids(); std::vector<size_t> k(p.begin(), p.end()); std::sort(k.begin(), k.end()); v.push_back(tab.at(k)); n_[v.back()] = outward(m, cl, f); } fid.push_back(v); } }
    BK of(size_t f) const { return kind.at(bid[f]); }
    bool dir(size_t f) const { return isb[f] && kind.count(bid[f]) && of(f) == BDIR; }
    /* outward normal at a point of the boundary */
    V<D> normal_at(const pt<D>& x, size_t id) const { V<D> p = vm::vec<D>(x); T best = 1e300; size_t bf = 0; for (size_t f = 0; f < fcs.size(); f++) if (isb[f] && bid[f] == id) { T off = std::abs(n_[f].dot(p-c_[f]))/d_[f], s = (p-c_[f]).norm()/d_[f]+(off > 1e-7 ? 100+off : 0); if (s < best) { best = s; bf = f; } } return n_[bf]; }
    VX face_project(size_t f, const std::function<T(pt<D>)>& g, size_t deg) const { auto b = disk::make_scalar_monomial_basis(m, fcs[f], fd); MX A = MX::Zero(fb, fb); VX r = VX::Zero(fb); for (auto& [q, w] : qps_face(m, fcs[f], fd+std::max(fd, deg))) { VX p = b.eval_functions(q); A += w*p*p.transpose(); r += w*g(q)*p; } return weighted_solve(A, r); }
    std::pair<VX, MX> face_load(size_t f, const std::function<T(pt<D>)>& g, size_t deg) const { auto b = disk::make_scalar_monomial_basis(m, fcs[f], fd); MX A = MX::Zero(fb, fb); VX r = VX::Zero(fb); for (auto& [q, w] : qps_face(m, fcs[f], fd+std::max(fd, deg))) { VX p = b.eval_functions(q); A += w*p*p.transpose(); r += w*g(q)*p; } return {r, A}; }
};
/* global numbers of the unknowns of each face as the assembler uses them, -1 on eliminated faces; Dirichlet values are checked */
template<typename M, typename Take> bool numbering(const std::string& fam, const Setup<M>& s, size_t size, const Take& take, const std::map<size_t, VX>& dval, std::vector<std::vector<long>>& map, T tol)
{
    VX code(size); for (size_t i = 0; i < size; i++) code(i) = 1000+i; map.assign(s.fcs.size(), {}); std::vector<int> used(size, 0);
    for (size_t c = 0; c < s.cls.size(); c++) { VX v = take(s.cls[c], code); if (!check(fam+".local-size", v.size() == (long)(s.fid[c].size()*s.fb))) return false;
        for (size_t i = 0; i < s.fid[c].size(); i++) { size_t f = s.fid[c][i]; VX seg = v.segment(i*s.fb, s.fb); auto it = dval.find(f);
            if (it != dval.end()) { near(fam+".dirichlet-values", (seg-it->second).norm()/(1e-3+it->second.norm()), tol, cat("face ", f)); if (map[f].empty()) map[f].assign(s.fb, -1); continue; }
            std::vector<long> g; for (size_t k = 0; k < s.fb; k++) { T d = seg(k)-1000; if (!check(fam+".unknown-read", d == std::floor(d) && d >= 0 && d < size, cat("face ", f, " value ", seg(k)))) return false; g.push_back((long)d); }
            if (map[f].empty()) { map[f] = g; for (long k : g) used[k]++; } else if (!check(fam+".shared", map[f] == g, cat("face ", f))) return false; } }
    bool once = true; for (int u : used) once &= u == 1; return check(fam+".numbering", once, "every unknown belongs to exactly one face function");
}
template<typename M, typename LHS> void compare_global(const std::string& fam, const LHS& L, const VX& R, const MX& OL, const VX& OR, T tol)
{
    if (!check(fam+".size", L.rows() == OL.rows() && L.cols() == OL.cols() && R.size() == OR.size())) return; MX DL = MX(L); T s = std::max(OL.cwiseAbs().maxCoeff(), 1e-300), sr = std::max(OR.cwiseAbs().maxCoeff(), 1e-300); near(fam+".matrix", (DL-OL).cwiseAbs().maxCoeff()/s, tol); near(fam+".load", (R-OR).cwiseAbs().maxCoeff()/sr, tol);
}
template<typename M> void scatter(const Setup<M>& s, const std::vector<MX>& A, const std::vector<VX>& b, const std::vector<std::vector<long>>& map, const std::map<size_t, VX>& dval, MX& OL, VX& OR)
{
    for (size_t c = 0; c < s.cls.size(); c++) { size_t nf = s.fid[c].size(); for (size_t i = 0; i < nf; i++) for (size_t k = 0; k < s.fb; k++) { long gi = map[s.fid[c][i]][k]; if (gi < 0) continue; OR(gi) += b[c](i*s.fb+k); for (size_t j = 0; j < nf; j++) for (size_t l = 0; l < s.fb; l++) { T a = A[c](i*s.fb+k, j*s.fb+l); long gj = map[s.fid[c][j]][l]; if (gj >= 0) OL(gi, gj) += a; else { auto it = dval.find(s.fid[c][j]); if (it != dval.end()) OR(gi) -= a*it->second(l); } } } }
}
/* bases of the local systems: all interfaces fed with the same data */
template<typename M> void scatter_all(Setup<M>& s, Rng& r)
{
    constexpr size_t D = M::dimension; const M& m = s.m; T tol = 1e-11; auto [fc, fh] = orc::frame(m); T itf = 1e-11; for (auto& f : s.fcs) itf = std::max(itf, itol(m, f)); T ptol = itf*1e3*(1+s.fd*s.fd); std::vector<MX> A; std::vector<VX> b; for (auto& f : s.fid) { size_t n = f.size()*s.fb; MX a(n, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) a(i,j) = r.real(-1,1); A.push_back(a); b.push_back(rvec(n, r)); }
    auto g = Poly<D>::random(s.fd+r.integer(0, 1), r, fc, fh), gn = Poly<D>::random(s.fd, r, fc, fh), gr = Poly<D>::random(s.fd, r, fc, fh); std::map<size_t, Poly<D>> gs; for (auto& [id, k] : s.kind) gs[id] = Poly<D>::random(s.fd, r, fc, fh);
    auto fun = [](const Poly<D>& p) { return std::function<T(pt<D>)>([p](const pt<D>& x) -> T { return p(x); }); };
    size_t nf = s.fcs.size(); std::map<size_t, VX> all, some; for (size_t f = 0; f < nf; f++) if (s.isb[f]) { all[f] = s.face_project(f, fun(g), s.fd+1); if (s.of(f) == BDIR) some[f] = s.face_project(f, fun(gs[s.bid[f]]), s.fd); }
    std::vector<std::vector<long>> map; size_t na = (nf-all.size())*s.fb, ns = (nf-some.size())*s.fb; std::vector<size_t> order(s.cls.size()); for (size_t i = 0; i < order.size(); i++) order[i] = i; r.shuffle(order);
    { /* Dirichlet everywhere */
        auto gf = fun(g); auto as = disk::make_diffusion_assembler(m, s.hdi); for (size_t c : order) as.assemble(m, s.cls[c], A[c], b[c], gf, 1); as.finalize(); check("everywhere.count", as.num_assembled_faces() == nf-all.size()); if (check("everywhere.size", (size_t)as.LHS.rows() == na && (size_t)as.RHS.size() == na) && na > 0) {
        auto take = [&](auto& cl, const VX& v) -> VX { return as.take_local_solution(m, cl, v, gf, 1); }; auto take2 = [&](auto& cl, const VX& v) -> VX { return as.take_local_data(m, cl, v, gf, 1); }; if (numbering("everywhere", s, na, take, all, map, ptol)) { MX OL = MX::Zero(na, na); VX OR = VX::Zero(na); scatter(s, A, b, map, all, OL, OR); compare_global<M>("everywhere", as.LHS, as.RHS, OL, OR, ptol); auto mp = map; numbering("everywhere-data", s, na, take2, all, mp, ptol); check("everywhere.same-numbering", mp == map); } }
        bool threw = false; try { disk::scalar_boundary_conditions<M> bnd(m); as.impose_neumann_boundary_conditions(m, bnd); } catch (const std::exception&) { threw = true; } check("everywhere.refuses-neumann", threw); }
    disk::scalar_boundary_conditions<M> bnd(m); size_t nneu = 0; for (auto& [id, k] : s.kind) if (k == BDIR) bnd.addDirichletBC(disk::DIRICHLET, id, fun(gs[id])); else if (k == BNEU) { bnd.addNeumannBC(disk::NEUMANN, id, fun(gs[id])); nneu++; } else bnd.addRobinBC(disk::ROBIN, id, fun(gs[id]));
    auto reference = [&](MX& OL, VX& OR, const std::vector<std::vector<long>>& mp) { scatter(s, A, b, mp, some, OL, OR); for (size_t f = 0; f < nf; f++) if (s.isb[f] && s.of(f) != BDIR) { auto [l, Mf] = s.face_load(f, fun(gs[s.bid[f]]), s.fd); for (size_t i = 0; i < s.fb; i++) { OR(mp[f][i]) += l(i); if (s.of(f) == BROB) for (size_t j = 0; j < s.fb; j++) OL(mp[f][i], mp[f][j]) += Mf(i,j); } } };
    { auto as = disk::make_diffusion_assembler(m, s.hdi, bnd); for (size_t c : order) as.assemble(m, s.cls[c], bnd, A[c], b[c], 1); if (nneu) as.impose_neumann_boundary_conditions(m, bnd, 1); as.impose_robin_boundary_conditions(m, bnd, 1); as.finalize(); check("mixed.count", as.num_assembled_faces() == nf-some.size());
      if (check("mixed.size", (size_t)as.LHS.rows() == ns && (size_t)as.RHS.size() == ns) && ns > 0) { auto take = [&](auto& cl, const VX& v) -> VX { return as.take_local_data(m, cl, bnd, v, 1); }; if (numbering("mixed", s, ns, take, some, map, ptol)) { MX OL = MX::Zero(ns, ns); VX OR = VX::Zero(ns); reference(OL, OR, map); compare_global<M>("mixed", as.LHS, as.RHS, OL, OR, ptol); } }
      bool t1 = false; try { as.assemble(m, s.cls[0], A[0], b[0], fun(g)); } catch (const std::invalid_argument&) { t1 = true; } check("mixed.refuses-function", t1); }
    { auto as = disk::make_scalar_primal_hho_assembler(m, s.hdi, bnd); if (check("primal.size", as.global_system_size() == ns && (size_t)as.LHS.rows() == ns) && ns > 0) for (int rep = 0; rep < 2; rep++) { /* assembled again after initialisation: nothing is left over */
        if (rep) as.initialize(); for (size_t c : order) as.assemble(m, s.cls[c], bnd, A[c], b[c], 1); as.impose_neumann_boundary_conditions(m, bnd, 1); as.impose_robin_boundary_conditions(m, bnd, 1); as.finalize(); auto take = [&](auto& cl, const VX& v) -> VX { return as.take_local_solution(m, cl, bnd, v, 1); };
        if (!numbering("primal", s, ns, take, some, map, ptol)) break; MX OL = MX::Zero(ns, ns); VX OR = VX::Zero(ns); reference(OL, OR, map); compare_global<M>("primal", as.LHS, as.RHS, OL, OR, ptol);
        VX sol = rvec(ns, r), ex = as.expand_solution(m, bnd, sol, 1); if (check("primal.expand-size", ex.size() == (long)(nf*s.fb))) { T e = 0; for (size_t f = 0; f < nf; f++) for (size_t k = 0; k < s.fb; k++) { T want = map[f][k] >= 0 ? sol(map[f][k]) : some.at(f)(k); e = std::max(e, std::abs(ex(f*s.fb+k)-want)/(1e-3+std::abs(want)+(map[f][k] < 0 ? some.at(f).norm() : 0))); } near("primal.expand", e, ptol); } } }
    { /* homogeneous conditions on chosen faces; interfaces between regions are not boundaries */
      using FB = typename disk::hho::slapl::hho_space<M>::face_basis_type; bool chosen = r.coin(); std::vector<bool> flag(nf); std::map<size_t, VX> zero; for (size_t f = 0; f < nf; f++) { flag[f] = chosen ? r.coin(0.2) : bool(s.isb[f]); if (flag[f]) zero[f] = VX::Zero(s.fb); } size_t nz = (nf-zero.size())*s.fb;
      M m2 = m; auto kept = m.backend_storage()->boundary_info; /* copies share their storage */ if (!chosen) for (size_t f = 0; f < nf; f++) if (!s.isb[f] && r.coin(0.2)) { auto& bi = m2.backend_storage()->boundary_info.at(f); bi.is_boundary(true); bi.is_internal(true); }
      auto as = chosen ? disk::hho::basic_condensed_assembler<M, FB>(m, s.fd, flag) : disk::hho::slapl::make_assembler(m2, disk::hho::slapl::degree_info(s.fd)); for (size_t c : order) as.assemble(m2, s.cls[c], A[c], b[c]); as.finalize();
      if (check("basic.size", as.dofs() == nz && (size_t)as.LHS.rows() == nz && (size_t)as.RHS.size() == nz) && nz > 0) { auto take = [&](auto& cl, const VX& v) -> VX { return as.take_local_solution(m2, cl, v); }; if (numbering("basic", s, nz, take, zero, map, tol)) { MX OL = MX::Zero(nz, nz); VX OR = VX::Zero(nz); scatter(s, A, b, map, zero, OL, OR); compare_global<M>("basic", as.LHS, as.RHS, OL, OR, tol); } }
      m2.backend_storage()->boundary_info = kept; }
    std::string ks; for (auto& [id, k] : s.kind) ks += "DNR"[k]; sig(cat(kind<M>(), "/scatter/", s.cls.size(), "/", s.cd, s.fd, "/", ks));
}
template<typename M> void solve_all(Setup<M>& s, Rng& r)
{
    constexpr size_t D = M::dimension; const M& m = s.m; auto [fc, fh] = orc::frame(m); size_t rd = s.fd+1; T itf = 1e-11, asp = 1; for (auto& cl : s.cls) { itf = std::max(itf, itol(m, cl)); asp = std::max(asp, aspect(m, cl)); } T tol = itf*1e2*asp*asp*std::pow(10., rd);
    DT<D> K = spd(D, r, 0.5, 2); auto p = Poly<D>::random(rd, r, fc, fh); auto flux = [&](const pt<D>& x) -> V<D> { return K*p.grad(x); }; auto f = [&](const pt<D>& x) -> T { T v = 0; for (size_t i = 0; i < D; i++) for (size_t j = 0; j < D; j++) if (K(i,j) != 0) v -= K(i,j)*p.d(i).d(j)(x); return v; };
    bool ok = false; for (auto& [id, k] : s.kind) ok |= k != BNEU; if (!ok) s.kind.begin()->second = r.coin() ? BDIR : BROB;
    disk::scalar_boundary_conditions<M> bnd(m); size_t nneu = 0; for (auto& [id_, k] : s.kind) { size_t id = id_; if (k == BDIR) bnd.addDirichletBC(disk::DIRICHLET, id, std::function<T(pt<D>)>([&](const pt<D>& x) -> T { return p(x); })); else if (k == BNEU) { nneu++; bnd.addNeumannBC(disk::NEUMANN, id, std::function<T(pt<D>)>([&, id](const pt<D>& x) -> T { return flux(x).dot(s.normal_at(x, id)); })); } else bnd.addRobinBC(disk::ROBIN, id, std::function<T(pt<D>)>([&, id](const pt<D>& x) -> T { return flux(x).dot(s.normal_at(x, id))+p(x); })); }
    int var = r.integer(0, 3); std::vector<MX> A; std::vector<VX> b; size_t ncl = s.cls.size();
    for (auto& cl : s.cls) { auto [R, L] = disk::make_scalar_hho_laplacian(m, cl, s.hdi, disk::diffusion_tensor<M>(K)); MX S; if (var == 0) S = disk::make_scalar_hho_stabilization2(m, cl, R, s.hdi, K); else if (var == 1) S = disk::make_scalar_hho_stabilization(m, cl, R, s.hdi); else if (var == 2 && s.cd == s.fd+1) S = disk::make_scalar_hdg_stabilization2(m, cl, s.hdi, K); else { disk::CellDegreeInfo<M> ci(m, cl, s.cd, s.fd, s.fd); S = disk::make_scalar_hho_stabilization(m, cl, R, ci, true); } if (var == 3) { auto mf = [&](const pt<D>&) -> DT<D> { return K; }; A.push_back(disk::make_vector_hho_gradrec(m, cl, s.hdi, mf).second+S); } else A.push_back(L+S); auto cb = disk::make_scalar_monomial_basis(m, cl, s.cd); b.push_back(disk::make_rhs(m, cl, cb, f, 1)); }
    std::vector<VX> exact; for (auto& cl : s.cls) exact.push_back(disk::project_function(m, cl, s.hdi, disk::scalar_rhs_function<M>([&](const pt<D>& x) -> T { return p(x); }), 2));
    auto judge = [&](const std::string& fam, const std::vector<VX>& sol, T t) { T e = 0, sc = 0; for (size_t c = 0; c < ncl; c++) { auto q = P<D>(random_in_cell(m, s.cls[c], r)); VX bb = disk::make_scalar_monomial_basis(m, s.cls[c], s.cd).eval_functions(q); e = std::max(e, std::abs(bb.dot(VX(sol[c].head(s.nc)-exact[c].head(s.nc))))); sc = std::max(sc, std::abs(bb.dot(VX(exact[c].head(s.nc))))); size_t i = r.integer(0, s.fid[c].size()-1), ff = s.fid[c][i]; auto x = P<D>(random_in_face(m, s.fcs[ff], r)); VX fbv = disk::make_scalar_monomial_basis(m, s.fcs[ff], s.fd).eval_functions(x); e = std::max(e, std::abs(fbv.dot(VX(sol[c].segment(s.nc+i*s.fb, s.fb)-exact[c].segment(s.nc+i*s.fb, s.fb))))); sc = std::max(sc, std::abs(fbv.dot(VX(exact[c].segment(s.nc+i*s.fb, s.fb))))); } std::string ks; for (auto& [id, k] : s.kind) ks += "DNR"[k]; near(fam+".polynomial", e/std::max(sc, 1e-3), t, cat("cd=", s.cd, " fd=", s.fd, " stabilisation ", var, " boundaries ", ks)); };
    auto direct = [&](const Eigen::SparseMatrix<T>& L, const VX& R) -> VX { if (L.rows() == 0) return VX(0); VX sc(L.rows()); for (long i = 0; i < L.rows(); i++) sc(i) = 1/std::sqrt(std::max(std::abs(L.coeff(i,i)), 1e-300)); Eigen::SparseMatrix<T> B = sc.asDiagonal()*L*sc.asDiagonal(); Eigen::SparseLU<Eigen::SparseMatrix<T>> lu(B); if (lu.info() != Eigen::Success) return VX::Constant(L.rows(), NAN); return sc.cwiseProduct(VX(lu.solve(VX(sc.cwiseProduct(R))))); };
    std::vector<VX> primal;
    { auto as = disk::make_diffusion_assembler(m, s.hdi, bnd); for (size_t c = 0; c < ncl; c++) { auto sc = disk::make_scalar_static_condensation(m, s.cls[c], s.hdi, A[c], b[c]); as.assemble(m, s.cls[c], bnd, sc.first, sc.second, 2); } if (nneu) as.impose_neumann_boundary_conditions(m, bnd, 2); as.impose_robin_boundary_conditions(m, bnd, 2); as.finalize(); VX x = direct(as.LHS, as.RHS); std::vector<VX> sol; for (size_t c = 0; c < ncl; c++) sol.push_back(disk::make_scalar_static_decondensation(m, s.cls[c], s.hdi, A[c], b[c], VX(as.take_local_data(m, s.cls[c], bnd, x, 2)))); judge("diffusion", sol, tol); }
    { auto as = disk::make_scalar_primal_hho_assembler(m, s.hdi, bnd); std::vector<MX> AL(ncl); std::vector<VX> bL(ncl); for (size_t c = 0; c < ncl; c++) { auto t = disk::make_scalar_static_condensation_withMatrix(m, s.cls[c], s.hdi, A[c], b[c]); AL[c] = std::get<1>(t); bL[c] = std::get<2>(t); as.assemble(m, s.cls[c], bnd, std::get<0>(t).first, std::get<0>(t).second, 2); } as.impose_neumann_boundary_conditions(m, bnd, 2); as.impose_robin_boundary_conditions(m, bnd, 2); as.finalize(); VX x = direct(as.LHS, as.RHS); std::vector<VX> sol; for (size_t c = 0; c < ncl; c++) sol.push_back(disk::make_scalar_static_decondensation_withMatrix(AL[c], bL[c], VX(as.take_local_solution(m, s.cls[c], bnd, x, 2)))); judge("primal", sol, tol); }
    { auto gf = [&](const pt<D>& x) -> T { return p(x); }; auto as = disk::make_diffusion_assembler(m, s.hdi); for (size_t c = 0; c < ncl; c++) { auto sc = disk::make_scalar_static_condensation(m, s.cls[c], s.hdi, A[c], b[c]); as.assemble(m, s.cls[c], sc.first, sc.second, gf, 2); } as.finalize(); VX x = direct(as.LHS, as.RHS); std::vector<VX> sol; for (size_t c = 0; c < ncl; c++) sol.push_back(disk::make_scalar_static_decondensation(m, s.cls[c], s.hdi, A[c], b[c], VX(as.take_local_solution(m, s.cls[c], x, gf, 2)))); judge("dirichlet", sol, tol); }
    { /* homogeneous problem with any load: the condensed solution is the uncondensed one */
      std::vector<VX> bq; for (auto& cl : s.cls) { auto cb = disk::make_scalar_monomial_basis(m, cl, s.cd); auto q = Poly<D>::random(3, r, fc, fh); bq.push_back(disk::make_rhs(m, cl, cb, [&](const pt<D>& x) -> T { return q(x); }, 2)); } auto as = disk::make_diffusion_assembler(m, s.hdi); auto z = [](const pt<D>&) -> T { return 0; }; size_t nfree = 0; std::vector<long> num(s.fcs.size(), -1); for (size_t f2 = 0; f2 < s.fcs.size(); f2++) if (!s.isb[f2]) num[f2] = nfree++; size_t N = ncl*s.nc+nfree*s.fb; std::vector<Eigen::Triplet<T>> tr; VX F = VX::Zero(N);
      for (size_t c = 0; c < ncl; c++) { auto sc = disk::make_scalar_static_condensation(m, s.cls[c], s.hdi, A[c], bq[c]); as.assemble(m, s.cls[c], sc.first, sc.second, z); std::vector<long> g; for (size_t i = 0; i < s.nc; i++) g.push_back(c*s.nc+i); for (size_t f2 : s.fid[c]) for (size_t i = 0; i < s.fb; i++) g.push_back(num[f2] < 0 ? -1 : (long)(ncl*s.nc+num[f2]*s.fb+i)); F.segment(c*s.nc, s.nc) += bq[c].head(s.nc); for (size_t i = 0; i < g.size(); i++) for (size_t j = 0; j < g.size(); j++) if (g[i] >= 0 && g[j] >= 0) tr.emplace_back(g[i], g[j], A[c](i,j)); }
      as.finalize(); Eigen::SparseMatrix<T> G(N, N); G.setFromTriplets(tr.begin(), tr.end()); VX full = direct(G, F), x = direct(as.LHS, as.RHS); T e = 0, sc = 1e-300; for (size_t c = 0; c < ncl; c++) { VX sol = disk::make_scalar_static_decondensation(m, s.cls[c], s.hdi, A[c], bq[c], VX(as.take_local_solution(m, s.cls[c], x, z))); auto q = P<D>(random_in_cell(m, s.cls[c], r)); VX bb = disk::make_scalar_monomial_basis(m, s.cls[c], s.cd).eval_functions(q); e = std::max(e, std::abs(bb.dot(VX(sol.head(s.nc)-full.segment(c*s.nc, s.nc))))); sc = std::max(sc, std::abs(bb.dot(VX(full.segment(c*s.nc, s.nc))))); } near("condensed-equals-full", e/sc, tol, cat("cd=", s.cd, " fd=", s.fd)); }
    { /* simplified interface: homogeneous conditions, compared with its own uncondensed system */
      namespace sl = disk::hho::slapl; sl::degree_info di(s.cd, s.fd); auto as = sl::make_assembler(m, di); std::vector<MX> LA; std::vector<VX> lb; size_t nfree = 0; std::vector<long> num(s.fcs.size(), -1); for (size_t f2 = 0; f2 < s.fcs.size(); f2++) if (!s.isb[f2]) num[f2] = nfree++; size_t N = ncl*s.nc+nfree*s.fb; std::vector<Eigen::Triplet<T>> tr; VX F = VX::Zero(N); using CB = typename sl::hho_space<M>::cell_basis_type;
      for (size_t c = 0; c < ncl; c++) { auto [R, L] = sl::local_operator(m, s.cls[c], di); MX S = sl::local_stabilization(m, s.cls[c], di, R); LA.push_back(L+S); CB phi(m, s.cls[c], s.cd); VX v = VX::Zero(LA.back().rows()); for (auto& [q, w] : qps_cell(m, s.cls[c], s.cd+rd)) v.head(s.nc) += w*p(q)*VX(phi(q)); lb.push_back(v); disk::dynamic_matrix<T> dm = LA.back(); disk::dynamic_vector<T> dv = v; auto [lc, rc] = disk::hho::schur(dm, dv, phi); as.assemble(m, s.cls[c], lc, rc); std::vector<long> g; for (size_t i = 0; i < s.nc; i++) g.push_back(c*s.nc+i); for (size_t f2 : s.fid[c]) for (size_t i = 0; i < s.fb; i++) g.push_back(num[f2] < 0 ? -1 : (long)(ncl*s.nc+num[f2]*s.fb+i)); F.segment(c*s.nc, s.nc) += v.head(s.nc); for (size_t i = 0; i < g.size(); i++) for (size_t j = 0; j < g.size(); j++) if (g[i] >= 0 && g[j] >= 0) tr.emplace_back(g[i], g[j], LA.back()(i,j)); }
      as.finalize(); Eigen::SparseMatrix<T> G(N, N); G.setFromTriplets(tr.begin(), tr.end()); VX full = direct(G, F), x = direct(as.LHS, as.RHS); T e = 0, sc = 1e-300; for (size_t c = 0; c < ncl; c++) { CB phi(m, s.cls[c], s.cd); disk::dynamic_matrix<T> dm = LA[c]; disk::dynamic_vector<T> dv = lb[c], lf = as.take_local_solution(m, s.cls[c], x); VX sol = disk::hho::deschur(dm, dv, lf, phi); auto q = P<D>(random_in_cell(m, s.cls[c], r)); VX bb = phi(q); e = std::max(e, std::abs(bb.dot(VX(sol.head(s.nc)-full.segment(c*s.nc, s.nc))))); sc = std::max(sc, std::abs(bb.dot(VX(full.segment(c*s.nc, s.nc))))); } near("simple.condensed-equals-full", e/sc, tol, cat("cd=", s.cd, " fd=", s.fd)); }
    std::string ks; for (auto& [id, k] : s.kind) ks += "DNR"[k]; sig(cat(kind<M>(), "/solve/", ncl, "/", s.cd, s.fd, "/", var, "/", ks));
}
template<typename M> void run(size_t levels, size_t reps)
{
    constexpr size_t D = M::dimension; M proto;
    for (size_t v = 0; v < nvariants(proto); v++) for (size_t l = 1; l <= levels; l++) run_case(cat(kind<M>(), "/", v, "/", l), [&](Rng& r) {
        M m; make(m, r, v, D == 3 ? 1 : 1+(l-1)%3); if (m.cells_size() > (D == 3 ? 64 : 150)) { skip("large mesh"); return; } for (size_t k = 0; k < reps; k++) { size_t fd = r.integer(0, D == 3 ? 1 : 3), cd = fd == 0 ? r.integer(0, 1) : r.integer(fd-1, fd+1); Setup<M> s(m, cd, fd); for (size_t f = 0; f < s.fcs.size(); f++) if (s.isb[f]) s.kind[s.bid[f]] = BDIR; int mode = r.integer(0, 3); for (auto& [id, b] : s.kind) b = mode == 0 ? BDIR : mode == 1 ? BROB : BK(r.integer(0, 2)); if (s.kind.empty()) { skip("no boundary"); return; } if (s.fcs.size()*s.fb <= 900) scatter_all(s, r); solve_all(s, r); } });
}
int main(int argc, char **argv)
{
    init(argc, argv, "C12");
#if PART == 2
    run<s2_t>(n_of(8, 20), n_of(1, 3)); run<c2_t>(n_of(8, 20), n_of(1, 3));
#elif PART == 5
    run<g2_t>(n_of(8, 20), n_of(1, 3));
#elif PART == 3
    run<s3_t>(n_of(4, 10), n_of(1, 2)); run<c3_t>(n_of(3, 8), n_of(1, 2));
#else
    run<g3_t>(n_of(3, 6), n_of(1, 2));
#endif
    return finish();
}
