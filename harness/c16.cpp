// C16: discrete geometric approach, nodal finite elements, DG assembler.
#include "oracle.hpp"
#include "hho.hpp"
#include "diskpp/methods/dga"
#include "diskpp/methods/dg"
#include "diskpp/cfem/cfem.hpp"
using V3 = Eigen::Vector3d; using M3 = Eigen::Matrix3d;
template<typename P> V3 v3(const P& p) { return V3(p.x(), p.y(), p.z()); }
static T rel(const MX& a, const MX& b, T scale) { return (a-b).cwiseAbs().maxCoeff()/scale; }

static void dga(s3_t& m, const std::string& d, Rng& r)
{
    auto st = m.backend_storage(); size_t ne = st->edges.size(), nf = m.faces_size(), np = m.points_size();
    { size_t k = 0; for (auto& e : disk::edges(m)) { check("edges-in-order", (size_t)disk::offset(m, e) == k++, d); } check("all-edges", k == ne && disk::edges(m).size() == ne, d); }
    M3 A; for (int i = 0; i < 9; i++) A(i/3, i%3) = r.real(-2,2); V3 b(r.real(-1,1), r.real(-1,1), r.real(-1,1)); V3 curl(A(2,1)-A(1,2), A(0,2)-A(2,0), A(1,0)-A(0,1)); T dvg = A.trace();
    T eps = std::exp(r.real(-6,6)); M3 K = spd(3, r);
    MX G = MX::Constant(ne, np, 7), C = MX::Constant(nf, ne, 7); Eigen::SparseMatrix<T> S(np, np); std::vector<Eigen::Triplet<T>> tr;
    size_t ci = 0;
    for (auto& cl : m) {
        auto p = points(m, cl); auto ids = cl.point_ids(); auto fc = faces(m, cl); V3 X[4]; for (int i = 0; i < 4; i++) X[i] = v3(p[i]); V3 bar = (X[0]+X[1]+X[2]+X[3])/4;
        T six = (X[1]-X[0]).dot((X[2]-X[0]).cross(X[3]-X[0])), vol = std::abs(six)/6; T h = 0; for (int i = 0; i < 4; i++) for (int j = 0; j < i; j++) h = std::max(h, (X[i]-X[j]).norm());
        T q = h*h*h/vol, tol = 1e-12*std::max<T>(1, q)*std::max<T>(1, bar.norm()/h); std::string dd = cat(d, six < 0 ? " negative" : " positive");
        auto E = disk::edges(m, cl); auto eid = disk::edge_ids(m, cl); auto pev = disk::primal_edge_vectors(m, cl); auto pav = disk::primal_area_vectors(m, cl); auto dev = disk::dual_edge_vectors(m, cl); auto dav = disk::dual_area_vectors(m, cl);
        static const int ed[6][2] = {{0,1},{0,2},{0,3},{1,2},{1,3},{2,3}}; int own[6];
        /* the edges: each pair of vertices once */
        std::set<std::set<size_t>> seen;
        V3 edir[6], emid[6]; for (int e = 0; e < 6; e++) { auto ep = E[e].point_ids(); size_t a = 9, z = 9; for (int i = 0; i < 4; i++) { if (ids[i] == ep[0]) a = i; if (ids[i] == ep[1]) z = i; } if (!check("edges-of-the-cell", a < 9 && z < 9 && a != z, dd)) return; seen.insert({a, z}); edir[e] = X[z]-X[a]; emid[e] = (X[z]+X[a])/2;
            check("edge-id", eid[e] < ne && st->edges[eid[e]] == E[e] && (size_t)disk::offset(m, E[e]) == eid[e], dd);
            near("primal-edge", (pev[e]-edir[e]).norm()/h, 1e-14, dd); near("primal-edge", (disk::primal_edge_vectors(m, E[e])-edir[e]).norm()/h, 1e-14, dd); }
        check("edges-distinct", seen.size() == 6, dd);
        /* primal areas: the vector areas of the faces; dual edges join barycenters */
        V3 fbar[4], fn[4]; MX out(4, 1); for (int f = 0; f < 4; f++) { auto fp = points(m, fc[f]); V3 Y[3]; for (int i = 0; i < 3; i++) Y[i] = v3(fp[i]); fbar[f] = (Y[0]+Y[1]+Y[2])/3; V3 a = (Y[1]-Y[0]).cross(Y[2]-Y[0])/2; if (a.dot(fbar[f]-bar) < 0) a = -a; fn[f] = a; /* outward */
            out(f) = pav[f].dot(a) > 0 ? 1 : -1; near("primal-area", (pav[f]-out(f)*a).norm()/h/h, 1e-13*std::max<T>(1, bar.norm()/h), dd);
            near("dual-edge", (dev[f]-out(f)*(fbar[f]-bar)).norm()/h, tol, dd);
            auto n = disk::priv::normals(m, cl); near("unit-outward-normals", (n[f]-a/a.norm()).norm(), tol*10, dd); }
        for (int e = 0; e < 6; e++) { near("pairing.edge", std::abs(pev[e].dot(dav[e])-vol/2)/vol, tol, dd); } for (int f = 0; f < 4; f++) near("pairing.face", std::abs(pav[f].dot(dev[f])-vol*3/4)/vol, tol, dd);
        { M3 s = M3::Zero(), t = M3::Zero(); for (int e = 0; e < 6; e++) s += dav[e]*pev[e].transpose(); for (int f = 0; f < 4; f++) t += dev[f]*pav[f].transpose(); near("pairing.edges-give-volume", rel(s, vol*M3::Identity(), vol), tol*4, dd); near("pairing.faces-give-volume", rel(t, vol*M3::Identity(), vol), tol*4, dd); }
        /* incidence matrices: Stokes on affine fields */
        auto g = disk::grad_matrix(m, cl); auto c = disk::curl_matrix(m, cl); check("curl-of-gradient", (c*g).cwiseAbs().maxCoeff() == 0, dd);
        { T ms = 0; Eigen::Matrix<T,6,1> u; Eigen::Matrix<T,4,1> nv; for (int i = 0; i < 4; i++) nv(i) = b.dot(X[i]); auto gu = g*nv; for (int e = 0; e < 6; e++) { near("gradient-is-difference", std::abs(gu(e)-b.dot(edir[e]))/h, tol, dd); u(e) = (A*(emid[e]-bar)+b).dot(edir[e]); } Eigen::Matrix<T,4,1> cu = c*u; T div = 0;
          for (int f = 0; f < 4; f++) { near("stokes", std::abs(cu(f)-curl.dot(pav[f]))/h/h, tol*4, dd); div += out(f)*(A*(fbar[f]-bar)+b).dot(pav[f]); } near("divergence", std::abs(div-dvg*vol)/h/h/h, tol*4, dd); (void)ms; }
        for (int e = 0; e < 6; e++) for (int i = 0; i < 4; i++) { T& x = G(eid[e], size_t(ids[i])); if (x == 7) x = g(e, i); check("gradient-same-from-all-cells", x == g(e, i), dd); }
        for (int f = 0; f < 4; f++) for (int e = 0; e < 6; e++) { T& x = C(size_t(m.lookup(fc[f])), eid[e]); if (x == 7) x = c(f, e); check("curl-same-from-all-cells", x == c(f, e), dd); }
        /* integrals of constant fields */
        auto ipe = disk::integrate_on_primal_edges(m, cl, b); auto ide = disk::integrate_on_dual_edges(m, cl, b); auto idf = disk::integrate_on_dual_faces(m, cl, b); auto ipf = disk::integrate_on_primal_faces(m, cl, b);
        for (int e = 0; e < 6; e++) { near("integral.primal-edge", std::abs(ipe(e)-b.dot(pev[e]))/h, 1e-13, dd); near("integral.dual-face", std::abs(idf(e)-b.dot(dav[e]))/h/h, 1e-13, dd); }
        for (int f = 0; f < 4; f++) { near("integral.primal-face", std::abs(ipf(f)-b.dot(pav[f]))/h/h, 1e-13, dd); near("integral.dual-edge", std::abs(ide(f)-b.dot(dev[f]))/h, 1e-13, dd);
            auto fi = disk::integrate_on_primal_edges(m, fc[f], b); auto fp = disk::primal_edge_vectors(m, fc[f]); auto fe = disk::edges(m, fc[f]); auto fid = disk::edge_ids(m, fc[f]); auto dl = disk::dual_edge_vectors(m, fc[f], cl);
            for (int i = 0; i < 3; i++) { check("face-edge-id", st->edges[fid[i]] == fe[i], dd); auto ep = points(m, fe[i]); V3 w = v3(ep[1])-v3(ep[0]); near("face-edge", (fp[i]-w).norm()/h, 1e-14, dd); near("integral.face-edge", std::abs(fi(i)-b.dot(w))/h, 1e-13, dd);
                V3 x = w.cross(dl[i]); near("face-dual-edge", std::abs(x.dot(fn[f])/fn[f].norm()/(fn[f].norm())-T(2)/3), tol*10, cat(dd, " face ", f)); near("face-dual-edge.joins-barycenters", std::min((dl[i]-(fbar[f]-(v3(ep[0])+v3(ep[1]))/2)).norm(), (dl[i]+(fbar[f]-(v3(ep[0])+v3(ep[1]))/2)).norm())/h, tol, dd); }
            auto fnm = disk::priv::normals(m, fc[f]); for (int i = 0; i < 3; i++) { auto ep = points(m, fe[i]); V3 w = v3(ep[1])-v3(ep[0]), o = (v3(ep[0])+v3(ep[1]))/2-fbar[f]; near("face-edge-normal.tangent", std::max({std::abs(fnm[i].dot(w))/h, std::abs(fnm[i].dot(fn[f]))/fn[f].norm(), std::abs(fnm[i].norm()-1)}), tol*10, dd); check("face-edge-normal.outward", fnm[i].dot(o) > 0, dd); } }
        /* material matrices */
        for (int k = 0; k < 3; k++) { M3 P = k == 0 ? M3(eps*M3::Identity()) : k == 1 ? K : M3(M3::Identity()*2); T nrm = P.norm(); std::string n = k == 0 ? "scalar" : "tensor"; MX Me, Mf;
            if (k == 0) { Me = disk::edge_matrix(m, cl, eps); Mf = disk::face_matrix(m, cl, eps); } else { disk::static_matrix<T,3,3> t = P; Me = disk::edge_matrix(m, cl, t); Mf = disk::face_matrix(m, cl, t); if (k == 2) { same_matrix("tensor-multiple-of-identity.edges", Me, disk::edge_matrix(m, cl, T(2)), tol, dd); same_matrix("tensor-multiple-of-identity.faces", Mf, disk::face_matrix(m, cl, T(2)), tol, dd); } }
            symmetric_check("edge-matrix."+n+".symmetric", Me, 1e-13, dd); symmetric_check("face-matrix."+n+".symmetric", Mf, 1e-13, dd);
            Eigen::SelfAdjointEigenSolver<MX> e1(Me, Eigen::EigenvaluesOnly), e2(Mf, Eigen::EigenvaluesOnly); check("edge-matrix."+n+".positive", e1.eigenvalues().minCoeff() > 0, dd); check("face-matrix."+n+".positive", e2.eigenvalues().minCoeff() > 0, dd);
            VX u(6), w(4), uu(6), ww(4); for (int e = 0; e < 6; e++) { u(e) = b.dot(pev[e]); uu(e) = (P*b).dot(dav[e]); } for (int f = 0; f < 4; f++) { w(f) = b.dot(pav[f]); ww(f) = (P*b).dot(dev[f]); }
            near("edge-matrix."+n+".constants", (Me*u-uu).cwiseAbs().maxCoeff()/(Me.norm()*h+nrm*h*h), tol, dd); near("face-matrix."+n+".constants", (Mf*w-ww).cwiseAbs().maxCoeff()/(Mf.norm()*h*h+nrm*h), tol, dd);
            near("edge-matrix."+n+".energy", std::abs(u.dot(Me*u)-vol*b.dot(P*b))/(Me.norm()*h*h), tol, dd); near("face-matrix."+n+".energy", std::abs(w.dot(Mf*w)-vol*b.dot(P*b))/(Mf.norm()*h*h*h*h), tol, dd);
            if (k == 0) { MX L = g.transpose()*Me*g; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) tr.push_back({(int)(size_t)ids[i], (int)(size_t)ids[j], L(i,j)/eps}); } }
        sig(cat(six < 0, ne > 40)); ci++; (void)ed; (void)own;
    }
    G = (G.array() == 7).select(MX::Zero(ne, np), G); C = (C.array() == 7).select(MX::Zero(nf, ne), C); check("global.curl-of-gradient", (C*G).cwiseAbs().maxCoeff() == 0, d);
    /* affine potentials are in equilibrium at the inner nodes */
    S.setFromTriplets(tr.begin(), tr.end()); std::vector<bool> bnd(np); for (auto it = m.faces_begin(); it != m.faces_end(); ++it) if (m.is_boundary(*it)) for (auto p : (*it).point_ids()) bnd[p] = true;
    VX phi(np); for (size_t i = 0; i < np; i++) phi(i) = b.dot(v3(st->points[i])); VX res = S*phi; T sc = 0; for (auto& t : tr) sc = std::max(sc, std::abs(t.value())); T ph = phi.cwiseAbs().maxCoeff()+1e-30; for (size_t i = 0; i < np; i++) if (!bnd[i]) near("global.equilibrium", std::abs(res(i))/sc/ph, 1e-11, d);
}

static void cfem(s2_t& m, const std::string& d, Rng& r)
{
    using disk::cfem::eval_basis; size_t np = m.points_size(); std::vector<Eigen::Triplet<T>> tr; VX rhs = VX::Zero(np); Eigen::Vector2d b(r.real(-2,2), r.real(-2,2)); T c0 = r.real(-2,2); Eigen::Matrix2d K = spd(2, r); T area = 0, fint = 0; T f0 = r.real(-1,1); std::vector<Eigen::Triplet<T>> mm;
    for (auto& cl : m) {
        auto p = points(m, cl); auto ids = cl.point_ids(); Eigen::Vector2d X[3]; for (int i = 0; i < 3; i++) X[i] << p[i].x(), p[i].y(); T det = (X[1]-X[0]).x()*(X[2]-X[0]).y()-(X[1]-X[0]).y()*(X[2]-X[0]).x(), A = std::abs(det)/2; T h = std::max({(X[1]-X[0]).norm(), (X[2]-X[0]).norm(), (X[1]-X[2]).norm()}); Eigen::Vector2d bar = (X[0]+X[1]+X[2])/3;
        T q = h*h/A, off = 1+bar.norm()/h, tol = 1e-13*q*off*off; area += A; std::string dd = cat(d, det < 0 ? " clockwise" : " counterclockwise");
        for (int i = 0; i < 3; i++) { auto v = eval_basis(m, cl, p[i]); for (int j = 0; j < 3; j++) near("nodal.delta", std::abs(v(j)-(i == j)), tol, dd); }
        MX L = disk::cfem::eval_basis_grad(m, cl);
        for (int k = 0; k < 3; k++) { T l[3]; l[0] = r.real(-0.5, 1.2); l[1] = r.real(-0.5, 1.2); l[2] = 1-l[0]-l[1]; Eigen::Vector2d x = l[0]*X[0]+l[1]*X[1]+l[2]*X[2]; auto v = eval_basis(m, cl, disk::point<T,2>(x.x(), x.y())); for (int j = 0; j < 3; j++) { near("nodal.barycentric", std::abs(v(j)-l[j]), tol*4, dd); near("nodal.gradient", std::abs(T(1)/3+L.row(j).dot(x-bar)-l[j]), tol*4, dd); } }
        MX Mm = disk::cfem::mass_matrix(m, cl); MX W = MX::Constant(3, 3, A/12); W.diagonal() *= 2; near("mass", rel(Mm, W, A), tol, dd); MX Sm = disk::cfem::stiffness_matrix(m, cl); disk::static_matrix<T,2,2> Kt = K; MX Kk = disk::cfem::stiffness_matrix(m, cl, Kt); MX g(3, 2); for (int i = 0; i < 3; i++) { Eigen::Vector2d e = X[(i+2)%3]-X[(i+1)%3]; g.row(i) << -e.y()/det, e.x()/det; }
        near("stiffness", rel(Sm, A*g*g.transpose(), Sm.cwiseAbs().maxCoeff()), tol, dd); near("stiffness.tensor", rel(Kk, A*g*K*g.transpose(), Kk.cwiseAbs().maxCoeff()), tol, dd);
        auto R = disk::cfem::make_rhs(m, cl, [&](const disk::point<T,2>& x) { return f0+b.x()*(x.x()-bar.x())+b.y()*(x.y()-bar.y()); }); for (int i = 0; i < 3; i++) near("rhs", std::abs(R(i)-f0*A/3)/A, tol, dd); fint += R.sum();
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { tr.push_back({(int)(size_t)ids[i], (int)(size_t)ids[j], Kk(i,j)}); mm.push_back({(int)(size_t)ids[i], (int)(size_t)ids[j], Mm(i,j)}); } sig(cat("cfem", det < 0)); }
    Eigen::SparseMatrix<T> S(np, np), Mg(np, np); S.setFromTriplets(tr.begin(), tr.end()); Mg.setFromTriplets(mm.begin(), mm.end()); near("mass.total", std::abs(Mg.sum()-area)/area, 1e-10, d); near("rhs.total", std::abs(fint-f0*area)/area, 1e-10, d);
    std::vector<bool> bnd(np); for (auto it = m.faces_begin(); it != m.faces_end(); ++it) if (m.is_boundary(*it)) for (auto p : (*it).point_ids()) bnd[p] = true; VX u(np); for (size_t i = 0; i < np; i++) { auto p = m.backend_storage()->points[i]; u(i) = c0+b.x()*p.x()+b.y()*p.y(); } VX res = S*u; T sc = 0; for (auto& t : tr) sc = std::max(sc, std::abs(t.value()));
    for (size_t i = 0; i < np; i++) if (!bnd[i]) near("affine-in-equilibrium", std::abs(res(i))/sc/(1e-30+u.cwiseAbs().maxCoeff()), 1e-11, d);
}

template<typename S> S rnd(Rng& r) { if constexpr (std::is_same_v<S, std::complex<T>>) return S(r.real(-1,1), r.real(-1,1)); else return r.real(-1,1); }
template<typename S, typename M> void dg(M& m, const std::string& d, Rng& r)
{
    using Mat = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>; using Vec = Eigen::Matrix<S, Eigen::Dynamic, 1>; size_t nc = m.cells_size(), cbs = r.integer(1, 6), n = nc*cbs; if (n > 900) { cbs = 1; n = nc; } if (n > 2000) return skip("mesh too large for a dense copy");
    auto as = disk::make_discontinuous_galerkin_assembler<S>(m, cbs); Mat W = Mat::Zero(n, n); Vec w = Vec::Zero(n); check("dg.size", as.syssz == n && (size_t)as.LHS.rows() == n && (size_t)as.LHS.cols() == n && (size_t)as.RHS.size() == n, d);
    auto block = [&]() { Mat A(cbs, cbs); for (size_t i = 0; i < cbs; i++) for (size_t j = 0; j < cbs; j++) A(i,j) = rnd<S>(r); return A; }; auto cv = connectivity_via_faces(m);
    for (size_t pass = 0; pass < 2; pass++) { W.setZero(); size_t ci = 0; for (auto& cl : m) { Mat A = block(); Vec f(cbs); for (size_t i = 0; i < cbs; i++) f(i) = rnd<S>(r); if (r.coin(0.9)) { as.assemble(m, cl, A, f); W.block(ci*cbs, ci*cbs, cbs, cbs) += A; w.segment(ci*cbs, cbs) += f; }
            for (auto& fc : faces(m, cl)) { auto [nb, ok] = cv.neighbour_via(m, cl, fc); Mat B = block(), D = block(); if (ok) { size_t nj = offset(m, nb); as.assemble(m, cl, cl, B); as.assemble(m, cl, nb, D); W.block(ci*cbs, ci*cbs, cbs, cbs) += B; W.block(ci*cbs, nj*cbs, cbs, cbs) += D; } else { as.assemble(m, cl, B, Vec(Vec::Zero(cbs))); W.block(ci*cbs, ci*cbs, cbs, cbs) += B; } }
            ci++; }
        as.finalize(); Mat got = Mat(as.LHS); near("dg.blocks", (got-W).cwiseAbs().maxCoeff(), 1e-13, d); near("dg.rhs", (as.RHS-w).cwiseAbs().maxCoeff(), 1e-13, d); }
    if constexpr (std::is_same_v<S, T>) { auto ae = disk::make_discontinuous_galerkin_eigenvalue_assembler(m, cbs); Mat K = Mat::Zero(n, n), Mm = K; size_t ci = 0; for (auto& cl : m) { Mat A = block(); ae.assemble(m, cl, A); Mm.block(ci*cbs, ci*cbs, cbs, cbs) += A; for (auto& fc : faces(m, cl)) { auto [nb, ok] = cv.neighbour_via(m, cl, fc); Mat B = block(); if (ok) { size_t nj = offset(m, nb); ae.assemble(m, cl, nb, B); K.block(ci*cbs, nj*cbs, cbs, cbs) += B; } else { ae.assemble(m, cl, cl, B); K.block(ci*cbs, ci*cbs, cbs, cbs) += B; } } ci++; } ae.finalize(); near("dg.eigen.stiffness", (Mat(ae.gK)-K).cwiseAbs().maxCoeff(), 1e-13, d); near("dg.eigen.mass", (Mat(ae.gM)-Mm).cwiseAbs().maxCoeff(), 1e-13, d); check("dg.eigen.size", ae.syssz == n, d); }
    sig(cat("dg", mname<M>::v, cbs));
}

int main(int argc, char **argv)
{
    init(argc, argv, "C16");
    for (size_t v = 0; v < nvariants(s3_t()); v++) for (size_t l = 0; l <= 1; l++) for (size_t k = 0; k < n_of(6, 200); k++) run_case(cat("dga.v", v, ".l", l, ".", k), [&](Rng& r) { s3_t m; auto d = make(m, r, v, l); dga(m, d, r); });
    for (size_t v = 0; v < nvariants(s2_t()); v++) for (size_t l = 0; l <= 2; l++) for (size_t k = 0; k < n_of(6, 200); k++) run_case(cat("cfem.v", v, ".l", l, ".", k), [&](Rng& r) { s2_t m; auto d = make(m, r, v, l); cfem(m, d, r); });
    auto each = [&](auto tag) { using M = decltype(tag); for (size_t v = 0; v < nvariants(M()); v++) for (size_t k = 0; k < n_of(3, 60); k++) run_case(cat("dg.", mname<M>::v, ".v", v, ".", k), [&](Rng& r) { M m; auto d = make(m, r, v, 1); dg<T>(m, d, r); dg<std::complex<T>>(m, d, r); }); };
    each(s2_t()); each(c2_t()); each(g2_t()); each(s3_t()); each(c3_t()); each(g3_t());
    return finish();
}
