// C13 (second part): assemblers of vector problems, compared with a dense sum
// of the local contributions under the numbering the assembler itself reports,
// and polynomial solutions of elasticity and Stokes problems.
#include "hho.hpp"
template<size_t D> using DT = Eigen::Matrix<T,D,D>;
template<size_t D> using Fun = std::function<V<D>(pt<D>)>;
template<typename M> struct VS {
    static constexpr size_t D = M::dimension; const M& m; size_t cd, fd, nc; std::vector<typename M::cell> cls; std::vector<typename M::face> fcs; std::vector<bool> isb; std::vector<size_t> bid; std::vector<std::vector<size_t>> fid; std::vector<V<D>> n_, c_; std::vector<T> d_;
    std::vector<size_t> deg; std::vector<bool> has; std::map<size_t, int> dir; std::set<size_t> neu, contact; std::map<size_t, VPoly<D>> g, tr; disk::vector_boundary_conditions<M> bnd; int ddi = 2;
    VS(const M& m_, size_t cd_, size_t fd_) : m(m_), cd(cd_), fd(fd_), bnd(m_) { nc = D*binom(cd, D); cls.assign(m.cells_begin(), m.cells_end()); fcs.assign(m.faces_begin(), m.faces_end()); n_.resize(fcs.size()); c_.resize(fcs.size()); d_.resize(fcs.size()); deg.assign(fcs.size(), fd); has.assign(fcs.size(), true);
        for (size_t i = 0; i < fcs.size(); i++) { isb.push_back(m.is_boundary(fcs[i])); bid.push_back(isb[i] ? m.boundary_id(fcs[i]) : 0); c_[i] = mean<D>(vpts(m, fcs[i])); d_[i] = diam<D>(vpts(m, fcs[i])); }
        std::map<std::vector<size_t>, size_t> tab; for (size_t i = 0; i < fcs.size(); i++) { auto p = fcs[i].point_ids(); std::vector<size_t> k(p.begin(), p.end()); std::sort(k.begin(), k.end()); tab[k] = i; }
        for (auto& cl : cls) { std::vector<size_t> v; for (auto& f : faces(m, cl)) { auto p = f.point_ids(); std::vector<size_t> k(p.begin(), p.end()); std::sort(k.begin(), k.end()); v.push_back(tab.at(k)); n_[v.back()] = outward(m, cl, f); } fid.push_back(v); } }
    std::set<size_t> ids() const { std::set<size_t> s; for (size_t f = 0; f < fcs.size(); f++) if (isb[f]) s.insert(bid[f]); return s; }
    size_t nf(size_t f) const { return has[f] ? D*binom(deg[f], D-1) : 0; }
    size_t ndof(size_t c) const { size_t n = 0; for (size_t f : fid[c]) n += nf(f); return n; }
    int kind(size_t f) const { if (!isb[f]) return -1; auto it = dir.find(bid[f]); return it == dir.end() ? -1 : it->second; }
    bool isneu(size_t f) const { return isb[f] && neu.count(bid[f]); }
    static bool fixes(int k, size_t a) { switch (k) { case disk::DIRICHLET: case disk::CLAMPED: return true; case disk::DX: return a == 0; case disk::DY: return a == 1; case disk::DZ: return a == 2; case disk::DXDY: return a != 2; case disk::DXDZ: return a != 1; case disk::DYDZ: return a != 0; } return false; }
    V<D> normal_at(const pt<D>& x, size_t id) const { V<D> p = vm::vec<D>(x); T best = 1e300; size_t bf = 0; for (size_t f = 0; f < fcs.size(); f++) if (isb[f] && bid[f] == id) { T off = std::abs(n_[f].dot(p-c_[f]))/d_[f], s = (p-c_[f]).norm()/d_[f]+(off > 1e-7 ? 100+off : 0); if (s < best) { best = s; bf = f; } } return n_[bf]; }
    VX load(size_t f, const Fun<D>& fn, int dg, MX *mass = nullptr) const { auto b = disk::make_vector_monomial_basis(m, fcs[f], deg[f]); VX r = VX::Zero(b.size()); MX A = MX::Zero(b.size(), b.size()); for (auto& [q, w] : qps_face(m, fcs[f], deg[f]+std::max<int>(deg[f], dg))) { MX p = b.eval_functions(q); A += w*p*p.transpose(); r += w*p*fn(q); } if (mass) *mass = A; return r; }
    VX project(size_t f, const Fun<D>& fn, int dg) const { if (!has[f]) return VX(0); MX A; VX r = load(f, fn, dg, &A); return weighted_solve(A, r); }
    /* values imposed on the face functions, and whether they are imposed */
    VX imposed(size_t f, const std::vector<VX> *old, int dg) const { VX v = VX::Zero(nf(f)); int k = kind(f); if (k < 0 || !nf(f)) return v; if (k != disk::CLAMPED) { auto& p = g.at(bid[f]); v = project(f, [&](const pt<D>& x) -> V<D> { return veval<D>(p, x); }, dg); } if (old) v -= (*old)[f]; for (size_t i = 0; i < nf(f); i++) if (!fixes(k, i%D)) v(i) = 0; return v; }
    std::string kinds() const { std::string s; for (size_t i : ids()) { auto it = dir.find(i); s += it == dir.end() ? (neu.count(i) ? "N" : contact.count(i) ? "C" : "0") : std::to_string(it->second)+(neu.count(i) ? "n" : ""); } return s; }
};
template<typename M> using Num = std::vector<std::vector<long>>;
/* numbers of the unknowns as read through the assembler; imposed values are checked */
template<typename M, typename Take> bool numbering(const std::string& fam, const VS<M>& s, size_t size, const Take& take, const std::vector<VX>& val, Num<M>& map, T tol)
{
    constexpr size_t D = M::dimension; VX code(size); for (size_t i = 0; i < size; i++) code(i) = 1000+i; map.assign(s.fcs.size(), {}); std::vector<int> used(size, 0);
    for (size_t c = 0; c < s.cls.size(); c++) { VX v = take(s.cls[c], code); if (!check(fam+".local-size", v.size() == (long)s.ndof(c), s.kinds())) return false; size_t o = 0;
        for (size_t f : s.fid[c]) { std::vector<long> gl; for (size_t k = 0; k < s.nf(f); k++) { if (VS<M>::fixes(s.kind(f), k%D)) { gl.push_back(-1); near(fam+".imposed-values", std::abs(v(o+k)-val[f](k))/(1e-3+val[f].norm()), tol, cat("face ", f, " kind ", s.kind(f))); continue; } T d = v(o+k)-1000; if (!check(fam+".unknown-read", d == std::floor(d) && d >= 0 && d < size, cat("face ", f, " kind ", s.kind(f), " value ", v(o+k)))) return false; gl.push_back((long)d); }
            o += s.nf(f); if (map[f].empty() && s.nf(f)) { map[f] = gl; for (long k : gl) if (k >= 0) used[k]++; } else if (!check(fam+".shared", map[f] == gl, cat("face ", f))) return false; } }
    bool once = true; for (int u : used) once &= u == 1; return check(fam+".numbering", once, cat("every unknown belongs to exactly one face function; ", s.kinds()));
}
template<typename M> void scatter(const VS<M>& s, const std::vector<MX>& A, const std::vector<VX>& b, const Num<M>& map, const std::vector<VX>& val, MX& OL, VX& OR)
{
    for (size_t c = 0; c < s.cls.size(); c++) { std::vector<long> g; std::vector<T> u; for (size_t f : s.fid[c]) for (size_t k = 0; k < s.nf(f); k++) { g.push_back(map[f][k]); u.push_back(val[f](k)); } for (size_t i = 0; i < g.size(); i++) if (g[i] >= 0) { OR(g[i]) += b[c](i); for (size_t j = 0; j < g.size(); j++) if (g[j] >= 0) OL(g[i], g[j]) += A[c](i,j); else OR(g[i]) -= A[c](i,j)*u[j]; } }
}
template<typename M> void tractions(const VS<M>& s, const Num<M>& map, VX& OR) { constexpr size_t D = M::dimension; for (size_t f = 0; f < s.fcs.size(); f++) if (s.isneu(f) && s.has[f]) { auto& p = s.tr.at(s.bid[f]); VX l = s.load(f, [&](const pt<D>& x) -> V<D> { return veval<D>(p, x); }, 2); for (size_t k = 0; k < s.nf(f); k++) if (map[f][k] >= 0) OR(map[f][k]) += l(k); } }
template<typename M, typename LHS> void compare_global(const std::string& fam, const VS<M>& s, const LHS& L, const VX& R, const MX& OL, const VX& OR, T tol)
{
    if (!check(fam+".size", L.rows() == OL.rows() && L.cols() == OL.cols() && R.size() == OR.size())) return; MX DL = MX(L); T a = std::max(OL.cwiseAbs().maxCoeff(), 1e-300), sr = std::max(OR.cwiseAbs().maxCoeff(), 1e-300); near(fam+".matrix", (DL-OL).cwiseAbs().maxCoeff()/a, tol, s.kinds()); near(fam+".load", (R-OR).cwiseAbs().maxCoeff()/sr, tol, s.kinds());
}
template<typename M> void expanded(const std::string& fam, const VS<M>& s, const VX& sol, const VX& ex, const Num<M>& map, const std::vector<VX>& val, T tol)
{
    size_t n = 0; for (size_t f = 0; f < s.fcs.size(); f++) n += s.nf(f); if (!check(fam+".expand-size", (size_t)ex.size() == n)) return; T e = 0; size_t o = 0; for (size_t f = 0; f < s.fcs.size(); f++) for (size_t k = 0; k < s.nf(f); k++, o++) { T want = map[f][k] >= 0 ? sol(map[f][k]) : val[f](k); e = std::max(e, std::abs(ex(o)-want)/(1e-3+std::abs(want)+(map[f][k] < 0 ? val[f].norm() : 0))); } near(fam+".expand", e, tol, s.kinds());
}
template<typename M> void conditions(VS<M>& s, Rng& r, bool contact, bool partial = true)
{
    constexpr size_t D = M::dimension; auto [fc, fh] = orc::frame(s.m); static const int k2[] = {disk::DIRICHLET, disk::CLAMPED, disk::DX, disk::DY, disk::DXDY}, k3[] = {disk::DIRICHLET, disk::CLAMPED, disk::DX, disk::DY, disk::DZ, disk::DXDY, disk::DXDZ, disk::DYDZ};
    for (size_t id : s.ids()) { s.g[id] = vpoly<D>(1, r, fc, fh); s.tr[id] = vpoly<D>(1, r, fc, fh); auto gp = s.g[id], tp = s.tr[id]; Fun<D> gf = [gp](const pt<D>& x) -> V<D> { return veval<D>(gp, x); }, tf = [tp](const pt<D>& x) -> V<D> { return veval<D>(tp, x); };
        int w = r.integer(0, 9); if (w < 6) { int k = D == 2 ? k2[r.integer(0, 4)] : k3[r.integer(0, 7)]; s.dir[id] = k; s.bnd.addDirichletBC(k, id, gf); if (partial && k != disk::DIRICHLET && k != disk::CLAMPED && r.coin(0.6)) { s.neu.insert(id); s.bnd.addNeumannBC(disk::NEUMANN, id, tf); } } else if (w < 8) { s.neu.insert(id); s.bnd.addNeumannBC(disk::NEUMANN, id, tf); } else if (contact && w == 8) { s.contact.insert(id); s.bnd.addContactBC(disk::SIGNORINI_FACE, id); } }
}
template<typename M> void assemblers(VS<M>& s, Rng& r)
{
    constexpr size_t D = M::dimension; const M& m = s.m; disk::hho_degree_info hdi(s.cd, s.fd); size_t nf = s.fcs.size(), ncl = s.cls.size(); T it = 1e-11; for (auto& f : s.fcs) it = std::max(it, itol(m, f)); T tol = it*1e2, ptol = tol*std::pow(20., s.fd+1);
    auto local = [&](std::vector<MX>& A, std::vector<VX>& b) { A.clear(); b.clear(); for (size_t c = 0; c < ncl; c++) { size_t n = s.ndof(c); MX a(n, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) a(i,j) = r.normal(); A.push_back(a); b.push_back(rvec(n, r)); } };
    auto values = [&](const std::vector<VX> *old) { std::vector<VX> v; for (size_t f = 0; f < nf; f++) v.push_back(s.imposed(f, old, 1)); return v; }; auto old_ = [&]() { std::vector<VX> v; for (size_t f = 0; f < nf; f++) v.push_back(rvec(s.nf(f), r)); return v; };
    auto count = [&]() { size_t n = 0; for (size_t f = 0; f < nf; f++) for (size_t k = 0; k < s.nf(f); k++) n += !VS<M>::fixes(s.kind(f), k%D); return n; };
    std::vector<size_t> order(ncl); for (size_t i = 0; i < ncl; i++) order[i] = i; r.shuffle(order); std::vector<MX> A; std::vector<VX> b; Num<M> map; int di = s.ddi;
    auto finish_ = [&](const std::string& fam, const auto& as, const std::vector<VX>& val, bool neu) { size_t n = count(); MX OL = MX::Zero(n, n); VX OR = VX::Zero(n); scatter(s, A, b, map, val, OL, OR); if (neu) tractions(s, map, OR); compare_global(fam, s, as.LHS, as.RHS, OL, OR, ptol); };
    if (s.contact.empty()) { /* mechanics */ local(A, b); size_t n = count(); auto as = disk::make_mechanics_assembler(m, hdi, s.bnd); if (check("mechanics.size", (size_t)as.LHS.rows() == n && (size_t)as.RHS.size() == n, s.kinds()) && n > 0) { auto val = values(nullptr); for (size_t c : order) as.assemble(m, s.cls[c], s.bnd, std::make_pair(A[c], b[c]), di); as.impose_neumann_boundary_conditions(m, s.bnd, di); as.finalize(); auto take = [&](auto& cl, const VX& v) -> VX { return as.take_local_data(m, cl, s.bnd, v, di); }; if (numbering("mechanics", s, n, take, val, map, ptol)) { finish_("mechanics", as, val, true); VX x = rvec(n, r); expanded("mechanics", s, x, as.expand_solution(m, s.bnd, x, di), map, val, ptol); }
          auto old = old_(); auto vn = values(&old); local(A, b); auto mp = map; as.setZeroRhs(); for (size_t c : order) as.assemble_nl(m, s.cls[c], s.bnd, std::make_pair(A[c], b[c]), old, di); as.impose_neumann_boundary_conditions(m, s.bnd, di); as.finalize(); if (!map.empty() && map.size() == nf) { finish_("mechanics-nl", as, vn, true); VX x = rvec(n, r); expanded("mechanics-nl", s, x, as.expand_solution_nl(m, s.bnd, x, old, di), map, vn, ptol); } } }
    auto primal = [&](const std::string& fam, auto& as, bool linear) { size_t n = count(); if (!check(fam+".size", as.global_system_size() == n && (size_t)as.LHS.rows() == n && (size_t)as.RHS.size() == n, s.kinds()) || n == 0) return; auto old = old_(); auto vn = values(&old);
        if constexpr (requires { as.take_local_solution(m, s.cls[0], s.bnd, VX(), 1); }) if (linear) { auto val = values(nullptr); for (int rep = 0; rep < 2; rep++) { local(A, b); if (rep) as.initialize(); for (size_t c : order) as.assemble(m, s.cls[c], s.bnd, A[c], b[c], di); as.impose_neumann_boundary_conditions(m, s.bnd, di); as.finalize(); auto take = [&](auto& cl, const VX& v) -> VX { return as.take_local_solution(m, cl, s.bnd, v, di); }; if (!numbering(fam, s, n, take, val, map, ptol)) return; finish_(fam, as, val, true); VX x = rvec(n, r); expanded(fam, s, x, as.expand_solution(m, s.bnd, x, di), map, val, ptol); } }
        local(A, b); as.initialize(); for (size_t c : order) as.assemble_nonlinear(m, s.cls[c], s.bnd, A[c], b[c], old, di); as.impose_neumann_boundary_conditions(m, s.bnd, di); as.finalize(); auto take = [&](auto& cl, const VX& v) -> VX { return as.take_local_solution_nonlinear(m, cl, s.bnd, v, old, di); }; if (!numbering(fam+"-nl", s, n, take, vn, map, ptol)) return; finish_(fam+"-nl", as, vn, true); VX x = rvec(n, r); expanded(fam+"-nl", s, x, as.expand_solution_nonlinear(m, s.bnd, x, old, di), map, vn, ptol); };
    for (size_t f = 0; f < nf; f++) if (s.isb[f] && s.contact.count(s.bid[f])) s.deg[f] = s.fd+1;
    { auto as = disk::make_vector_primal_hho_assembler(m, hdi, s.bnd); primal("primal", as, true); } { disk::vector_mechanics_hho_assembler<M> as(m, hdi, s.bnd); primal("mechanics-hho", as, false); }
    /* a degree per face; unknowns may be absent where nothing is imposed */
    disk::MeshDegreeInfo<M> md(m, s.cd, s.fd); for (size_t f = 0; f < nf; f++) { s.deg[f] = r.integer(s.fd > 0 ? s.fd-1 : 0, s.fd+1); md.degree(m, s.fcs[f], s.deg[f]); s.has[f] = s.kind(f) >= 0 || s.isneu(f) || !r.coin(0.1); md.hasUnknowns(m, s.fcs[f], s.has[f]); }
    { auto as = disk::make_vector_primal_hho_assembler(m, md, s.bnd); primal("primal-degrees", as, true); } { disk::vector_mechanics_hho_assembler<M> as(m, md, s.bnd); primal("mechanics-hho-degrees", as, false); }
    sig(cat(kind<M>(), "/assemblers/", ncl, "/", s.cd, s.fd, "/", s.kinds()));
}
inline VX direct(const Eigen::SparseMatrix<T>& L, const VX& R) { if (L.rows() == 0) return VX(0); VX sc(L.rows()); for (long i = 0; i < L.rows(); i++) { T d = 0; for (Eigen::SparseMatrix<T>::InnerIterator it(L, i); it; ++it) d = std::max(d, std::abs(it.value())); sc(i) = 1/std::sqrt(std::max(d, 1e-300)); } Eigen::SparseMatrix<T> B = sc.asDiagonal()*L*sc.asDiagonal(); Eigen::SparseLU<Eigen::SparseMatrix<T>> lu(B); if (lu.info() != Eigen::Success) return VX::Constant(L.rows(), NAN); VX x = lu.solve(VX(sc.cwiseProduct(R))); VX res = sc.cwiseProduct(R)-B*x; x += lu.solve(res); return sc.cwiseProduct(x); }
/* elasticity with a polynomial displacement: mixed displacement, sliding and traction boundaries */
template<typename M> void elasticity(const M& m, Rng& r)
{
    constexpr size_t D = M::dimension; size_t fd = r.integer(1, D == 3 ? 1 : 3), cd = r.integer(std::max<size_t>(fd-1, 1), fd+1); VS<M> s(m, cd, fd); disk::hho_degree_info hdi(cd, fd); auto [fc_, fh_] = orc::frame(m); V<D> fc = fc_; T fh = fh_; size_t rd = fd+1; T it = 1e-11, asp = 1; for (auto& cl : s.cls) { it = std::max(it, itol(m, cl)); asp = std::max(asp, aspect(m, cl)); } T tol = it*1e3*asp*asp*std::pow(10., rd);
    auto p = vpoly<D>(rd, r, fc, fh); T mu = r.real(0.5, 2), lam = r.real(0.5, 5); auto stress = [=](const pt<D>& x) -> DT<D> { DT<D> g = vgrad<D>(p, x), e = (g+g.transpose())/2; return 2*mu*e+lam*e.trace()*DT<D>::Identity(); };
    auto f = [=](const pt<D>& x) -> V<D> { V<D> v; for (size_t i = 0; i < D; i++) { T a = 0; for (size_t j = 0; j < D; j++) a += mu*(p[i].d(j).d(j)(x)+p[j].d(i).d(j)(x))+lam*p[j].d(j).d(i)(x); v(i) = -a; } return v; };
    bool first = true; for (size_t id_ : s.ids()) { size_t id = id_; Fun<D> gf = [p](const pt<D>& x) -> V<D> { return veval<D>(p, x); }, tf = [&s, stress, id](const pt<D>& x) -> V<D> { return stress(x)*s.normal_at(x, id); }; static const int k3[] = {disk::DIRICHLET, disk::DX, disk::DY, disk::DXDY, disk::DZ, disk::DXDZ, disk::DYDZ}; int w = first ? 0 : r.integer(0, 3); first = false; s.g[id] = p; if (w < 2) { int k = w == 0 ? disk::DIRICHLET : k3[r.integer(0, D == 2 ? 3 : 6)]; s.dir[id] = k; s.bnd.addDirichletBC(k, id, gf); if (k != disk::DIRICHLET) { s.neu.insert(id); s.bnd.addNeumannBC(disk::NEUMANN, id, tf); } if (D == 2 && k == disk::DXDY) {} } else { s.neu.insert(id); s.bnd.addNeumannBC(disk::NEUMANN, id, tf); } }
    if (s.ids().empty()) return; int var = r.integer(0, 1); std::vector<MX> A; std::vector<VX> b, exact;
    for (auto& cl : s.cls) { MX E, S; auto R = disk::make_vector_hho_symmetric_laplacian(m, cl, hdi); if (var == 0) E = 2*mu*R.second; else E = 2*mu*disk::make_matrix_hho_symmetric_gradrec(m, cl, hdi).second; S = disk::make_vector_hho_stabilization(m, cl, R.first, hdi); auto dv = disk::make_hho_divergence_reconstruction(m, cl, hdi); A.push_back(MX(E+lam*dv.second+2*mu*S)); VX l = VX::Zero(A.back().rows()); auto cb = disk::make_vector_monomial_basis(m, cl, cd); l.head(s.nc) = disk::make_rhs(m, cl, cb, f, 2); b.push_back(l); exact.push_back(disk::project_function(m, cl, hdi, disk::vector_rhs_function<M>([&](const pt<D>& x) -> V<D> { return veval<D>(p, x); }), 2)); }
    auto judge = [&](const std::string& fam, const std::vector<VX>& sol) { T e = 0, sc = 1e-300; for (size_t c = 0; c < s.cls.size(); c++) { auto q = P<D>(random_in_cell(m, s.cls[c], r)); MX bb = disk::make_vector_monomial_basis(m, s.cls[c], cd).eval_functions(q); e = std::max(e, (bb.transpose()*(sol[c].head(s.nc)-exact[c].head(s.nc))).norm()); sc = std::max(sc, (bb.transpose()*exact[c].head(s.nc)).norm()); } near(fam, e/sc, tol, cat("cd=", cd, " fd=", fd, " var=", var, " ", s.kinds())); };
    { auto as = disk::make_mechanics_assembler(m, hdi, s.bnd); std::vector<MX> AL; std::vector<VX> bL; for (size_t c = 0; c < s.cls.size(); c++) { auto t = disk::make_vector_static_condensation_withMatrix(m, s.cls[c], hdi, A[c], b[c]); AL.push_back(std::get<1>(t)); bL.push_back(std::get<2>(t)); as.assemble(m, s.cls[c], s.bnd, std::get<0>(t), 2); } as.impose_neumann_boundary_conditions(m, s.bnd, 2); as.finalize(); VX x = direct(as.LHS, as.RHS); std::vector<VX> sol, sol2; for (size_t c = 0; c < s.cls.size(); c++) { VX l = as.take_local_data(m, s.cls[c], s.bnd, x, 2); sol.push_back(disk::make_vector_static_decondensation_withMatrix<T>(AL[c], bL[c], l)); } judge("elasticity.mechanics", sol); }
    { auto as = disk::make_vector_primal_hho_assembler(m, hdi, s.bnd); for (size_t c = 0; c < s.cls.size(); c++) { auto lc = disk::make_vector_static_condensation(m, s.cls[c], hdi, A[c], b[c]); as.assemble(m, s.cls[c], s.bnd, lc.first, lc.second, 2); } as.impose_neumann_boundary_conditions(m, s.bnd, 2); as.finalize(); VX x = direct(as.LHS, as.RHS); std::vector<VX> sol; for (size_t c = 0; c < s.cls.size(); c++) { VX l = as.take_local_solution(m, s.cls[c], s.bnd, x, 2); sol.push_back(disk::make_vector_static_decondensation(m, s.cls[c], hdi, A[c], b[c], l)); } judge("elasticity.primal", sol); }
    sig(cat(kind<M>(), "/elasticity/", s.cls.size(), "/", cd, fd, "/", var, "/", s.kinds()));
}
/* Stokes: scatter of the saddle point system, and polynomial solutions */
template<typename M> void stokes(const M& m, Rng& r)
{
    constexpr size_t D = M::dimension; size_t fd = r.integer(0, D == 3 ? 1 : 2), cd = fd == 0 ? r.integer(0, 1) : r.integer(fd-1, fd+1); VS<M> s(m, cd, fd); disk::hho_degree_info hdi(cd, fd); auto [fc_, fh_] = orc::frame(m); V<D> fc = fc_; T fh = fh_; size_t rd = fd+1, ncl = s.cls.size(), np = binom(fd, D); T it = 1e-11, asp = 1; for (auto& cl : s.cls) { it = std::max(it, itol(m, cl)); asp = std::max(asp, aspect(m, cl)); } T tol = it*1e3*asp*asp*std::pow(10., rd);
    /* divergence free: rotated gradients */
    VPoly<D> p; auto minus = [](Poly<D> a, const Poly<D>& b2) { for (size_t i = 0; i < b2.e.size(); i++) { a.e.push_back(b2.e[i]); a.a.push_back(-b2.a[i]); } return a; }; if constexpr (D == 2) { auto w = Poly<D>::random(rd+1, r, fc, fh); p[0] = w.d(1); p[1] = w.d(0)*(-1.); } else { VPoly<D> w = vpoly<D>(rd+1, r, fc, fh); for (size_t i = 0; i < 3; i++) p[i] = minus(w[(i+2)%3].d((i+1)%3), w[(i+1)%3].d((i+2)%3)); }
    { T dv = 0, sc = 1e-300; for (int k = 0; k < 5; k++) { auto x = P<D>(random_in_cell(m, s.cls[r.integer(0, ncl-1)], r)); auto g = vgrad<D>(p, x); dv = std::max(dv, std::abs(g.trace())); sc = std::max(sc, g.norm()); } if (dv > 1e-10*std::max(sc, 1/fh)) { skip("velocity not solenoidal"); return; } }
    auto pr = Poly<D>::random(fd, r, fc, fh); auto f = [=](const pt<D>& x) -> V<D> { V<D> v; V<D> gp = pr.grad(x); for (size_t i = 0; i < D; i++) { T a = 0; for (size_t j = 0; j < D; j++) a += p[i].d(j).d(j)(x); v(i) = -a+gp(i); } return v; };
    for (size_t id : s.ids()) { s.dir[id] = disk::DIRICHLET; s.g[id] = p; s.bnd.addDirichletBC(disk::DIRICHLET, id, Fun<D>([p](const pt<D>& x) -> V<D> { return veval<D>(p, x); })); }
    T mean_p = 0, vol = 0; for (auto& cl : s.cls) for (auto& [q, w] : qps_cell(m, cl, fd)) { mean_p += w*pr(q); vol += w; } mean_p /= vol;
    auto as = disk::make_stokes_assembler(m, hdi, s.bnd); auto aa = disk::make_stokes_assembler(m, hdi, s.bnd); auto ag = disk::make_stokes_assembler_alg(m, hdi, s.bnd); size_t nfree = 0; for (size_t f2 = 0; f2 < s.fcs.size(); f2++) if (!s.isb[f2]) nfree += s.nf(f2); size_t N = ncl*(s.nc+np)+nfree+1; if (!check("stokes.size", as.global_system_size() == N && (size_t)as.LHS.rows() == N && ag.global_system_size() == N)) return;
    std::vector<VX> exact, exp_; std::vector<MX> A, B; std::vector<VX> b;
    for (auto& cl : s.cls) { auto R = disk::make_vector_hho_laplacian(m, cl, hdi); MX S = r.coin() ? MX(disk::make_vector_hho_stabilization_optim(m, cl, disk::make_scalar_hho_laplacian(m, cl, hdi).first, hdi)) : MX(disk::make_vector_hho_stabilization(m, cl, R.first, hdi)); MX dr = disk::make_hho_divergence_reconstruction_rhs(m, cl, hdi); A.push_back(R.second+S); B.push_back(-dr); auto cb = disk::make_vector_monomial_basis(m, cl, cd); VX l = VX::Zero(A.back().rows()); l.head(s.nc) = disk::make_rhs(m, cl, cb, f, 2); b.push_back(l); exact.push_back(disk::project_function(m, cl, hdi, disk::vector_rhs_function<M>([&](const pt<D>& x) -> V<D> { return veval<D>(p, x); }), 2)); }
    std::vector<size_t> order(ncl); for (size_t i = 0; i < ncl; i++) order[i] = i; r.shuffle(order);
    for (size_t c : order) { as.assemble(m, s.cls[c], A[c], B[c], b[c]); aa.assemble_alg(m, s.cls[c], A[c], B[c], b[c]); } as.finalize(); aa.finalize(); for (int rep = 0; rep < 2; rep++) { ag.initialize_rhs(); for (size_t c : order) ag.assemble_rhs(m, s.cls[c], b[c]); if (!rep) { for (size_t c : order) ag.assemble_lhs(m, s.cls[c], A[c], B[c]); ag.finalize_lhs(); } ag.finalize_rhs(); }
    /* reference system under the numbering reported by the assembler */
    VX code(N); for (size_t i = 0; i < N; i++) code(i) = 1000+i; MX OL = MX::Zero(N, N); VX OR = VX::Zero(N); std::vector<int> used(N, 0); bool ok = true; Num<M> map(s.fcs.size());
    for (size_t c = 0; c < ncl && ok; c++) { VX v = as.take_velocity(m, s.cls[c], code), q = as.take_pressure(m, s.cls[c], code), v2 = ag.take_velocity(m, s.cls[c], code), q2 = ag.take_pressure(m, s.cls[c], code); ok = check("stokes.local-size", v.size() == (long)(s.nc+s.ndof(c)) && q.size() == (long)np && v2 == v && q2 == q); if (!ok) return; std::vector<long> g; std::vector<T> known; for (size_t i = 0; i < s.nc; i++) { long k = std::lround(v(i)-1000); g.push_back(k); known.push_back(0); ok &= k >= 0 && k < (long)N; if (ok) used[k]++; } size_t o = s.nc;
        for (size_t f2 : s.fid[c]) { VX val = s.isb[f2] ? s.imposed(f2, nullptr, rd) : VX(); for (size_t k = 0; k < s.nf(f2); k++, o++) if (s.isb[f2]) { g.push_back(-1); known.push_back(val(k)); near("stokes.imposed-values", std::abs(v(o)-val(k))/(1e-3+val.norm()), tol); } else { long u = std::lround(v(o)-1000); ok &= u >= 0 && u < (long)N && std::abs(v(o)-1000-u) < 1e-9; if (!ok) break; g.push_back(u); known.push_back(0); if (map[f2].size() < s.nf(f2)) { map[f2].push_back(u); used[u]++; } else ok &= map[f2][k] == u; } }
        if (!check("stokes.unknown-read", ok)) return; std::vector<long> gq; for (size_t i = 0; i < np; i++) { long k = std::lround(q(i)-1000); ok &= k >= 0 && k < (long)N; if (!ok) break; gq.push_back(k); used[k]++; } if (!check("stokes.pressure-read", ok)) return;
        for (size_t i = 0; i < g.size(); i++) if (g[i] >= 0) { OR(g[i]) += b[c](i); for (size_t j = 0; j < g.size(); j++) if (g[j] >= 0) OL(g[i], g[j]) += A[c](i,j); else OR(g[i]) -= A[c](i,j)*known[j]; } for (size_t i = 0; i < np; i++) for (size_t j = 0; j < g.size(); j++) if (g[j] >= 0) { OL(gq[i], g[j]) += B[c](i,j); OL(g[j], gq[i]) += B[c](i,j); } else OR(gq[i]) -= B[c](i,j)*known[j];
        VX mu = VX::Zero(np); auto sb = disk::make_scalar_monomial_basis(m, s.cls[c], fd); for (auto& [q3, w] : qps_cell(m, s.cls[c], fd)) mu += w*VX(sb.eval_functions(q3)); for (size_t i = 0; i < np; i++) OL(gq[i], N-1) += mu(i), OL(N-1, gq[i]) += mu(i); exp_.push_back(mu); }
    bool once = true; for (size_t i = 0; i+1 < N; i++) once &= used[i] == 1; if (!check("stokes.numbering", once && used[N-1] == 0)) return; T stol = it*1e3*std::pow(20., rd); compare_global("stokes", s, as.LHS, as.RHS, OL, OR, stol); compare_global("stokes-general", s, aa.LHS, aa.RHS, OL, OR, stol); compare_global("stokes-split", s, ag.LHS, ag.RHS, OL, OR, stol);
    VX x = direct(as.LHS, as.RHS); T e = 0, sc = 1e-300, ep = 0, sp = 1e-300; for (size_t c = 0; c < ncl; c++) { VX v = as.take_velocity(m, s.cls[c], x), q = as.take_pressure(m, s.cls[c], x); auto y = P<D>(random_in_cell(m, s.cls[c], r)); MX bb = disk::make_vector_monomial_basis(m, s.cls[c], cd).eval_functions(y); e = std::max(e, (bb.transpose()*(v.head(s.nc)-exact[c].head(s.nc))).norm()); sc = std::max(sc, (bb.transpose()*exact[c].head(s.nc)).norm()); VX sb = disk::make_scalar_monomial_basis(m, s.cls[c], fd).eval_functions(y); ep = std::max(ep, std::abs(sb.dot(q)-(pr(y)-mean_p))); sp = std::max({sp, std::abs(pr(y)-mean_p), vgrad<D>(p, y).norm(), 1e-3}); } std::string d = cat("cd=", cd, " fd=", fd, " cells=", ncl); near("stokes.velocity", e/sc, tol*10, d); near("stokes.pressure", ep/sp, tol*100, d);
    sig(cat(kind<M>(), "/stokes/", ncl, "/", cd, fd));
}
template<typename M> void run(size_t levels)
{
    constexpr size_t D = M::dimension; M proto;
    for (size_t v = 0; v < nvariants(proto); v++) for (size_t l = 1; l <= levels; l++) run_case(cat(kind<M>(), "/", v, "/", l), [&](Rng& r) {
        M m; make(m, r, v, D == 3 ? 1 : 1+(l-1)%2); if (m.cells_size() > (D == 3 ? 48 : 100)) { skip("large mesh"); return; }
        for (int k = 0; k < 3; k++) { size_t fd = r.integer(0, D == 3 ? 1 : 2), cd = fd == 0 ? r.integer(0, 1) : r.integer(fd-1, fd+1); VS<M> s(m, cd, fd); conditions(s, r, k == 2); assemblers(s, r); } elasticity(m, r); stokes(m, r); });
}
int main(int argc, char **argv)
{
    init(argc, argv, "C13");
#if PART == 2
    run<s2_t>(n_of(6, 16)); run<c2_t>(n_of(6, 16));
#elif PART == 5
    run<g2_t>(n_of(5, 14));
#elif PART == 3
    run<s3_t>(n_of(4, 8)); run<c3_t>(n_of(3, 8));
#else
    run<g3_t>(n_of(2, 5));
#endif
    return finish();
}
