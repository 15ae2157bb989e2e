// C15: virtual elements in two dimensions: ordered faces, numbering, projectors,
// local matrices against the identities that define them, condensation, and
// whole problems with polynomial solutions.
#include "hho.hpp"
#include "diskpp/methods/vem"
/* Gauss-Lobatto nodes and weights on [-1,1], by Newton on (1-x^2) P_k' */
std::pair<std::vector<T>, std::vector<T>> lobatto(size_t k)
{
    std::vector<T> x(k+1), w(k+1); for (size_t i = 0; i <= k; i++) { T t = -std::cos(M_PI*i/k); if (i && i < k) for (int it = 0; it < 100; it++) { T p = legendre(k, t), q = legendre(k-1, t), dp = k*(q-t*p)/(1-t*t), f = k*(q-t*p), df = -T(k)*(k+1)*p; T s = f/df; t -= s; (void)dp; if (std::abs(s) < 1e-17) break; } x[i] = t; T p = legendre(k, t); w[i] = 2/(k*(k+1)*p*p); } return {x, w};
}
template<typename M> struct Ve {
    const M& m; typename M::cell cl; size_t k, n, nb, lb, nd, cbs; std::vector<std::pair<typename M::face, bool>> ring; std::vector<pt<2>> node; T area;
    Ve(const M& m_, const typename M::cell& c, size_t k_) : m(m_), cl(c), k(k_) { for (auto& [f, flip] : disk::faces_ccw(m, cl)) ring.push_back({f, flip}); n = ring.size(); nb = n*k; lb = k < 2 ? 0 : binom(k-2, 2); nd = nb+lb; cbs = binom(k, 2); area = meas_cell(m, cl);
        auto [x, w] = lobatto(k); for (auto& [f, flip] : ring) { auto p = vpts(m, f); if (flip) std::swap(p[0], p[1]); for (size_t i = 0; i < k; i++) node.push_back(P<2>(V<2>(p[0]+(p[1]-p[0])*(1+x[i])/2))); } }
    VX dofs(const Poly<2>& p, size_t deg) const { VX d(nd); for (size_t i = 0; i < nb; i++) d(i) = p(node[i]); if (lb) { VX b = VX::Zero(lb); auto l = disk::make_scalar_monomial_basis(m, cl, k-2); for (auto& [q, w] : qps_cell(m, cl, k-2+deg)) b += w*p(q)*l.eval_functions(q); d.tail(lb) = b/area; } return d; }
};
template<typename M> bool ordered(const M& m, const typename M::cell& cl)
{
    auto fs = faces(m, cl); auto ring = disk::faces_ccw(m, cl); if (!check("ring.size", ring.size() == fs.size())) return false; std::vector<std::pair<size_t,size_t>> e; std::multiset<std::vector<size_t>> a, b;
    for (auto& f : fs) { auto p = f.point_ids(); a.insert({size_t(p[0]), size_t(p[1])}); } for (auto& [f, flip] : ring) { auto p = f.point_ids(); b.insert({size_t(p[0]), size_t(p[1])}); e.push_back(flip ? std::pair<size_t,size_t>(p[1], p[0]) : std::pair<size_t,size_t>(p[0], p[1])); }
    bool ok = check("ring.same-faces", a == b); for (size_t i = 0; i < e.size(); i++) ok &= check("ring.closed", e[i].second == e[(i+1)%e.size()].first, cat("face ", i, " ends at ", e[i].second, " next starts at ", e[(i+1)%e.size()].first)); return ok;
}
T rowdiff(const MX& A, const MX& B) { if (A.rows() != B.rows() || A.cols() != B.cols()) return 1e300; T e = 0; for (int i = 0; i < A.rows(); i++) e = std::max(e, (A.row(i)-B.row(i)).norm()/std::max(B.row(i).norm(), 1e-3*B.norm())); return e; }
template<typename M> void cell(const M& m, const typename M::cell& cl, size_t k, Rng& r)
{
    using namespace disk::vem_2d; if (!ordered(m, cl)) return; Ve<M> s(m, cl, k); auto fr = lframe(m, cl); std::string d = cat("k=", k, " n=", s.n); T asp = aspect(m, cl), tol = 1e-12*fr.big*(1+k*k)*asp*std::pow(4., k), ptol = tol*10;
    auto cb = disk::make_scalar_monomial_basis(m, cl, k); MX Sm = MX::Zero(s.cbs, s.cbs), Mm = Sm; VX mean0 = VX::Zero(s.cbs); for (auto& [q, w] : qps_cell(m, cl, 2*k)) { MX g = cb.eval_gradients(q); VX f = cb.eval_functions(q); Sm += w*g*g.transpose(); Mm += w*f*f.transpose(); mean0 += w*f; } mean0 /= s.area;
    VX vavg = VX::Zero(s.cbs); for (size_t i = 0; i < s.n; i++) vavg += VX(cb.eval_functions(s.node[i*k]))/T(s.n); VX p0 = k == 1 ? vavg : mean0;
    MX G = matrix_G(m, cl, k), B = matrix_B(m, cl, k), D = matrix_D(m, cl, k); if (!check("shapes", size_t(G.rows()) == s.cbs && size_t(G.cols()) == s.cbs && size_t(B.rows()) == s.cbs && size_t(B.cols()) == s.nd && size_t(D.rows()) == s.nd && size_t(D.cols()) == s.cbs, d)) return;
    near("G.energy", rowdiff(G.bottomRows(s.cbs-1), Sm.bottomRows(s.cbs-1)), tol, d);
    /* values at the nodes, moments inside */
    { MX W = MX::Zero(s.nd, s.cbs); for (size_t i = 0; i < s.nb; i++) W.row(i) = VX(cb.eval_functions(s.node[i])).transpose(); if (s.lb) W.bottomRows(s.lb) = Mm.topRows(s.lb)/s.area; near("D.nodes", (D-W).topRows(s.nb).cwiseAbs().maxCoeff(), tol, d); if (s.lb) near("D.moments", (D-W).bottomRows(s.lb).cwiseAbs().maxCoeff(), tol, d); }
    /* integration by parts */
    MX Bo = MX::Zero(s.cbs, s.nd); { auto [x, lw] = lobatto(k); for (size_t i = 0; i < s.n; i++) { auto p = vpts(m, s.ring[i].first); if (s.ring[i].second) std::swap(p[0], p[1]); V<2> nn = outward(m, cl, s.ring[i].first); T len = (p[1]-p[0]).norm(); for (auto& [t, w] : gl(2*k+2)) { pt<2> q = P<2>(V<2>(p[0]+(p[1]-p[0])*(1+t)/2)); VX g = MX(cb.eval_gradients(q))*nn; for (size_t a = 0; a <= k; a++) { T sh = 1; for (size_t b = 0; b <= k; b++) if (b != a) sh *= (t-x[b])/(x[a]-x[b]); Bo.col((i*k+a)%s.nb) += w*len/2*sh*g; } } } }
    if (s.lb) { size_t N = 4*s.cbs; MX F(N, s.cbs), X(N, s.cbs), Y(N, s.cbs); for (size_t i = 0; i < N; i++) { auto q = P<2>(random_in_cell(m, cl, r)); MX g = cb.eval_gradients(q); F.row(i) = VX(cb.eval_functions(q)).transpose(); X.row(i) = g.col(0).transpose(); Y.row(i) = g.col(1).transpose(); } auto qr = F.colPivHouseholderQr(); MX ax = qr.solve(X), ay = qr.solve(Y), L = ax*ax+ay*ay; Bo.rightCols(s.lb) = -s.area*L.topRows(s.lb).transpose(); }
    { T sc = std::max(Bo.norm(), B.norm()); near("B.boundary", (B-Bo).block(1, 0, s.cbs-1, s.nb).norm()/sc, tol*10, d); if (s.lb) near("B.inside", (B-Bo).block(1, s.nb, s.cbs-1, s.lb).norm()/sc, tol*1000, d); Bo.rightCols(s.lb) = B.rightCols(s.lb); VX z(s.nd); z.setZero(); if (k == 1) z.head(s.n).setConstant(1./s.n); else z(s.nb) = 1; Bo.row(0) = z.transpose(); near("B.mean", (B.row(0)-Bo.row(0)).norm(), tol, d); }
    near("G.equals-BD", rowdiff(G, B*D), ptol, d);
    /* projection of any function of the local space */
    MX PN = projector_nabla(m, cl, k, G); near("nabla.reproduces", (PN*D-MX::Identity(s.cbs, s.cbs)).cwiseAbs().maxCoeff(), ptol*10, d);
    MX Go = Sm; Go.row(0) = p0.transpose(); near("nabla.definition", rowdiff(Go*PN, Bo), ptol*10, d);
    size_t lo = k < 2 ? 0 : k-2; for (size_t pd = lo; pd <= k; pd++) { MX P0 = projector_zero(m, cl, k, pd, PN); size_t pb = binom(pd, 2); if (!check("zero.shape", size_t(P0.rows()) == pb && size_t(P0.cols()) == s.nd, d)) continue; MX C = MX::Zero(pb, s.nd); if (s.lb) C.block(0, s.nb, s.lb, s.lb) = s.area*MX::Identity(s.lb, s.lb); C.bottomRows(pb-s.lb) = Mm.block(s.lb, 0, pb-s.lb, s.cbs)*PN; std::string e = cat(d, " pd=", pd);
        near("zero.definition", rowdiff(Mm.topLeftCorner(pb, pb)*P0, C), ptol*10, e); MX W = weighted_solve(MX(Mm.topLeftCorner(pb, pb)), MX(Mm.topRows(pb))); near("zero.reproduces", (P0*D-W).cwiseAbs().maxCoeff(), ptol*100, e);
        auto f = Poly<2>::random(pd == k ? k : k+1, r, fr.c, fr.h); auto b = disk::make_scalar_monomial_basis(m, cl, pd); VX l = local_rhs(m, cl, k, pd, P0, [&](const pt<2>& x) { return f(x); }); VX w0 = VX::Zero(pb); T sc = 0; for (auto& [q, w] : qps_cell(m, cl, pd+k+1)) { VX ph = b.eval_functions(q); w0 += w*f(q)*ph; sc += w*std::abs(f(q))*ph.norm(); } near("load", size_t(l.size()) == s.nd ? (l-P0.transpose()*w0).norm()/(sc*P0.norm()) : 1e300, ptol, e); }
    /* stiffness */
    MX S0 = Bo; S0.row(0).setZero(); auto stiffness = [&](const std::string& fam, const MX& A) { if (!check(fam+".shape", size_t(A.rows()) == s.nd && size_t(A.cols()) == s.nd, d)) return; near(fam+".consistent", (A*D-S0.transpose()).norm()/S0.norm(), ptol*100, d); symmetric_check(fam+".symmetric", A, ptol, d); posdef_check(fam+".semidefinite", A, ptol, d);
        Eigen::SelfAdjointEigenSolver<MX> es((A+A.transpose())/2); VX ev = es.eigenvalues(); T mx = ev(ev.size()-1); check(fam+".kernel", ev(0) < 1e-8*mx && ev(1) > 1e-7*mx/(asp*asp), cat(d, " first eigenvalues ", ev(0), " ", ev(1), " last ", mx)); VX one = VX::Zero(s.nd); one.head(s.nb).setOnes(); if (s.lb) one.tail(s.lb) = mean0.head(s.lb); near(fam+".constants", (A*one).norm()/(A.norm()*one.norm()), ptol, d); };
    MX A = local_stiffness_matrix(m, cl, k, G, D, PN); stiffness("stiffness", A);
    auto f = Poly<2>::random(k+1, r, fr.c, fr.h); auto [L, R] = compute_local(m, cl, k, [&](const pt<2>& x) { return f(x); }); stiffness("local", L); { MX P0 = projector_zero(m, cl, k, k-1, PN); auto b = disk::make_scalar_monomial_basis(m, cl, k-1); VX w0 = VX::Zero(b.size()); T sc = 0; for (auto& [q, w] : qps_cell(m, cl, 2*k)) { VX ph = b.eval_functions(q); w0 += w*f(q)*ph; sc += w*std::abs(f(q))*ph.norm(); } near("local.load", size_t(R.size()) == s.nd ? (R-P0.transpose()*w0).norm()/(sc*P0.norm()) : 1e300, ptol, d); }
    sig(cat(kind<M>(), "/", shape_sig(m, cl), "/k", k));
}
template<typename M> void mesh_case(const M& m, size_t k, Rng& r)
{
    using DM = disk::dof_mapper<M>; DM map(m, k); size_t np = m.points_size(), nf = m.faces_size(), N = np+nf*(k-1); auto [x, lw] = lobatto(k); auto [fc, fh] = frame(m); std::string d = cat("k=", k, " cells ", m.cells_size());
    { bool threw = false; try { DM z(m, 0); } catch (const std::invalid_argument&) { threw = true; } check("numbering.refuses-zero", threw); }
    std::vector<typename M::cell> cls(m.cells_begin(), m.cells_end()); std::vector<V<2>> pos(N, V<2>::Zero()); std::vector<int> seen(N, 0); std::vector<Ve<M>> ve; std::vector<std::vector<size_t>> l2g; size_t ci = 0, total = 0; bool fine = true;
    for (auto& cl : cls) { if (!ordered(m, cl)) return; ve.emplace_back(m, cl, k); auto g = map.cell_to_global(ci); if (!check("numbering.cell-size", g.size() == ve.back().nb, d)) return; std::set<size_t> u(g.begin(), g.end()); fine &= check("numbering.distinct", u.size() == g.size(), d); T h = diam<2>(vpts(m, cl)); for (size_t i = 0; i < g.size(); i++) { if (!check("numbering.range", g[i] < N, d)) return; V<2> p = v(ve.back().node[i]); if (seen[g[i]]) fine &= near("numbering.shared", (p-pos[g[i]]).norm()/h, 1e-12*(1+fc.norm()/h), cat(d, " unknown ", g[i])); else { pos[g[i]] = p; seen[g[i]] = 1; total++; } } l2g.push_back(std::vector<size_t>(g.begin(), g.end())); ci++; }
    check("numbering.no-gaps", total == N, cat(d, " used ", total, " of ", N)); std::vector<bool> dir(N, false); size_t fi = 0, nb = 0, ni = 0;
    for (auto it = m.faces_begin(); it != m.faces_end(); it++, fi++) { auto f = *it; auto p = vpts(m, f); auto ids = f.point_ids(); auto g = map.face_to_global(fi); if (!check("face.size", g.size() == k+1, d)) return; check("face.ends", g[0] == size_t(ids[0]) && g[k] == size_t(ids[1]), d); for (size_t i = 0; i <= k; i++) fine &= near("face.position", g[i] < N ? (pos[g[i]]-V<2>(p[0]+(p[1]-p[0])*(1+x[i])/2)).norm()/(p[1]-p[0]).norm() : 1e300, 1e-12*(1+fc.norm()/(p[1]-p[0]).norm()), d);
        auto b = map.bnd_to_global(fi); auto bi = m.backend_storage()->boundary_info[fi]; if (bi.is_boundary() && !bi.is_internal()) { nb++; std::vector<size_t> s(b.begin(), b.end()), t(g.begin(), g.end()); bool same = s == t; std::reverse(t.begin(), t.end()); same |= s == t; fine &= check("boundary.unknowns", same, d); for (auto q : b) if (q < N) dir[q] = true; } else { ni++; fine &= check("boundary.none-inside", b.empty(), d); } }
    { size_t k2 = r.integer(1, 5); DM again(m, r.integer(1, 5)), fresh(m, k2); again.recompute(m, k2); bool same = true; for (size_t c = 0; c < cls.size(); c++) same &= again.cell_to_global(c) == fresh.cell_to_global(c); for (size_t f = 0; f < nf; f++) same &= again.face_to_global(f) == fresh.face_to_global(f) && again.bnd_to_global(f) == fresh.bnd_to_global(f); check("numbering.recomputed", same, d); sig(cat(kind<M>(), "/recomputed/", k2)); }
    sig(cat(kind<M>(), "/mesh/k", k, "/", ni > nb, "/", cls.size() > 8)); if (!fine || !nb) return;
    /* a polynomial solution, assembled with the numbering and condensed cell by cell */
    auto u = Poly<2>::random(k, r, fc, fh); MX K = MX::Zero(N, N); VX F = VX::Zero(N); auto f = [&](const pt<2>& q) { return -u.lap(q); }; T asp = 1, hmin = 1e300; std::vector<std::pair<MX,VX>> loc;
    for (size_t c = 0; c < cls.size(); c++) { asp = std::max(asp, aspect(m, cls[c])); hmin = std::min(hmin, diam<2>(vpts(m, cls[c]))); auto [L, R] = disk::vem_2d::compute_local(m, cls[c], k, f); loc.push_back({L, R}); auto& g = l2g[c]; MX Lc = L; VX Rc = R; if (ve[c].lb) { auto [a, b] = disk::vem::schur<T>(L, R, g.size()); Lc = a; Rc = b; } if (!check("condensed.size", size_t(Lc.rows()) == g.size() && size_t(Rc.size()) == g.size(), d)) return; for (size_t i = 0; i < g.size(); i++) { F(g[i]) += Rc(i); for (size_t j = 0; j < g.size(); j++) K(g[i], g[j]) += Lc(i, j); } }
    std::vector<size_t> fr; VX U(N); for (size_t i = 0; i < N; i++) { if (!dir[i]) fr.push_back(i); U(i) = u(P<2>(pos[i])); } size_t n = fr.size(); VX X = U; if (n) { MX A(n, n); VX b(n); for (size_t i = 0; i < n; i++) { b(i) = F(fr[i]); for (size_t j = 0; j < N; j++) if (dir[j]) b(i) -= K(fr[i], j)*U(j); for (size_t j = 0; j < n; j++) A(i, j) = K(fr[i], fr[j]); } VX y = A.ldlt().solve(b); for (size_t i = 0; i < n; i++) X(fr[i]) = y(i); }
    T tol = 1e-11*asp*std::pow(10., k)*(1+fc.norm()/hmin)*(1+fh/hmin), big = std::max(U.cwiseAbs().maxCoeff(), 1e-3); near("solution.nodes", (X-U).cwiseAbs().maxCoeff()/big, tol, d);
    for (size_t c = 0; c < cls.size(); c++) if (ve[c].lb) { auto& g = l2g[c]; disk::dynamic_vector<T> xl(g.size()); for (size_t i = 0; i < g.size(); i++) xl(i) = X(g[i]); VX y = disk::vem::deschur<int, T>(loc[c].first, loc[c].second, xl, g.size()), w = ve[c].dofs(u, k); if (!check("solution.local-size", y.size() == w.size(), d)) break; check("solution.local-boundary", VX(y.head(g.size())) == xl, d); near("solution.moments", (y-w).tail(ve[c].lb).cwiseAbs().maxCoeff()/big, tol*10, d); }
    sig(cat(kind<M>(), "/solved/k", k, "/", n == 0, "/", cls.size() > 8));
}
void condensation(Rng& r)
{
    size_t nf = r.integer(1, 10), nt = r.integer(1, 10), n = nf+nt; disk::dynamic_matrix<T> A(n, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) A(i,j) = r.normal(); A.bottomRightCorner(nt, nt) = spd(nt, r); disk::dynamic_vector<T> x = rvec(n, r), b = A*x; auto [L, R] = disk::vem::schur<T>(A, b, nf); MX I = A.bottomRightCorner(nt, nt).inverse(); T sc = A.norm()*(1+I.norm()*A.norm()), tol = 1e-12;
    check("schur.size", size_t(L.rows()) == nf && size_t(L.cols()) == nf && size_t(R.size()) == nf); near("schur.matrix", (L-(A.topLeftCorner(nf, nf)-A.topRightCorner(nf, nt)*I*A.bottomLeftCorner(nt, nf))).norm()/sc, tol); near("schur.load", (R-L*x.head(nf)).norm()/sc, tol); disk::dynamic_vector<T> xf = x.head(nf); VX y = disk::vem::deschur<int, T>(A, b, xf, nf); near("schur.recovered", size_t(y.size()) == n ? (y-x).norm()/sc : 1e300, tol); sig(cat("schur/", nf > nt, nt == 1, nf == 1));
}
template<typename M> std::vector<typename M::cell> pick_cells(const M& m, size_t n, Rng& r) { std::vector<typename M::cell> cs(m.cells_begin(), m.cells_end()); r.shuffle(cs); if (cs.size() > n) cs.erase(cs.begin()+n, cs.end()); return cs; }
template<typename M> void run(size_t reps)
{
    M proto; for (size_t v = 0; v < nvariants(proto); v++) for (size_t k = 0; k < reps; k++) run_case(cat(kind<M>(), "/", v, "/", k), [&](Rng& r) { M m; make(m, r, v, 1+k%2); for (auto& b : m.backend_storage()->boundary_info) if (b.is_boundary() && r.coin(0.5)) b.id(r.integer(0, 3)); for (auto& cl : pick_cells(m, 4, r)) cell(m, cl, r.integer(1, 4), r); mesh_case(m, r.integer(1, 4), r); });
}
int main(int argc, char **argv)
{
    init(argc, argv, "C15"); run<s2_t>(n_of(8, 100)); run<c2_t>(n_of(6, 60)); run<g2_t>(n_of(8, 100)); for (size_t k = 0; k < n_of(6, 200); k++) run_case(cat("star/", k), [&](Rng& r) { g2_t m; make_star(m, r); cell(m, *m.cells_begin(), r.integer(1, 4), r); mesh_case(m, r.integer(1, 3), r); }); for (size_t k = 0; k < n_of(60, 2000); k++) run_case(cat("schur/", k), [&](Rng& r) { condensation(r); });
    return finish();
}
