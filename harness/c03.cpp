// C03: point-level geometry queries: bounding boxes, point location, barycenters,
// diameters, inertia axes, convexity, polygon triangulations.
#include "oracle.hpp"
#include "diskpp/quadratures/quadratures.hpp"
using namespace vm; using namespace orc; using namespace mon;

template<typename M, typename E>
void element_queries(const M& m, const E& e, const std::string& S, const std::string& desc)
{
    constexpr size_t D = M::dimension; auto p = vpts(m, e); T h = diam<D>(p); if (p.size() < 2) h = 1;
    V<D> lo = p[0], hi = p[0]; for (auto& q : p) { lo = lo.cwiseMin(q); hi = hi.cwiseMax(q); }
    T big = 0; for (auto& q : p) big = std::max(big, q.norm()); T eps = 1e-14*(1+big/h);
    if (p.size() > 1) near(S+"diameter", std::abs(diameter(m, e)-h)/h, 1e-14*10, desc);
    near(S+"bounding-widths", (vm::vec<D>(P<D>(diameters(m, e))) - (hi-lo)).norm()/h, 1e-13, desc);
    near(S+"bb-barycenter", (v<D>(bb_barycenter(m, e)) - (lo+hi)/2)  .norm()/h, 10*eps, desc);
    { auto b = diameter_boundingbox(m, e); for (size_t i = 0; i < D; i++) near(S+"boundingbox", std::abs(b[i]-(hi-lo)(i))/h, 10*eps, desc); }
}

template<typename M> void go(M& m, const std::string& desc, Rng& r)
{
    constexpr size_t D = M::dimension; std::string S = kind<M>() + ".";
    const M& cm = m;
    { disk::bounding_box<M> bb(cm); V<D> lo, hi; bool first = true;
      for (auto it = cm.points_begin(); it != cm.points_end(); ++it) { auto q = v<D>(*it); if (first) lo = hi = q; lo = lo.cwiseMin(q); hi = hi.cwiseMax(q); first = false; }
      check(S+"mesh-bounding-box", v<D>(bb.min()) == lo && v<D>(bb.max()) == hi, cat(desc, " got ", bb)); }
    T hs = 0; size_t nc = 0;
    std::vector<V<D>> probes;
    for (auto& c : cm) {
        auto p = vpts(cm, c); T h = diam<D>(p), big = 0; for (auto& q : p) big = std::max(big, q.norm()); T eps = 1e-14*(10+big/h);
        hs += h; nc++;
        element_queries(cm, c, S+"cell-", desc);
        for (auto& f : faces(cm, c)) {
            if constexpr (D > 1) { element_queries(cm, f, S+"face-", desc);
                near(S+"face-barycenter", (v<D>(barycenter(cm, f)) - mean<D>(vpts(cm, f))).norm()/h, 10*eps, desc); }
            else near(S+"face-barycenter", (v<D>(barycenter(cm, f)) - vpts(cm, f)[0]).norm()/h, 10*eps, desc);
        }
        /* barycenter: centroid where it is promised (simplices, boxes, polygons), vertex mean otherwise */
        if constexpr (D == 2 || D == 1) {
            V<D> b = V<D>::Zero(); T a = 0; for (auto& s : split_cell(cm, c)) { b += s.meas*(mean<D>(s.p)-p[0]); a += s.meas; }
            b = p[0] + b/a; T sc = h*h/std::max(a, 1e-300); if (D == 1) sc = 1;
            near(S+"cell-barycenter", (v<D>(barycenter(cm, c))-b).norm()/h, eps*(10+sc), desc);
        } else near(S+"cell-barycenter", (v<D>(barycenter(cm, c))-mean<D>(p)).norm()/h, 10*eps, desc);
        /* inertia */
        if constexpr (D > 1) {
            V<D> b = v<D>(barycenter(cm, c)); Eigen::Matrix<T,D,D> I = Eigen::Matrix<T,D,D>::Zero();
            for (auto& [q, w] : qps_cell(cm, c, 2)) { V<D> x = v<D>(q)-b; I += w*x*x.transpose(); }
            T tr = I.trace();
            Eigen::Matrix<T,D,D> Q = inertia_axes(cm, c);
            near(S+"inertia-axes-orthonormal", (Q.transpose()*Q - Eigen::Matrix<T,D,D>::Identity()).norm(), 1e-11, desc);
            Eigen::Matrix<T,D,D> dq = Q.transpose()*I*Q; dq.diagonal().setZero();
            near(S+"inertia-axes-principal", dq.norm()/tr, 1e-10*(1+big/h), desc);
            Eigen::Matrix<T,D,D> A = scaled_inertia_axes(cm, c);
            Eigen::SelfAdjointEigenSolver<Eigen::Matrix<T,D,D>> es(I);
            T emax = es.eigenvalues()(D-1), cn = emax/es.eigenvalues()(0);
            near(S+"scaled-inertia-axes-isotropic", (A.transpose()*I*A*(h*h/(4*emax)) - Eigen::Matrix<T,D,D>::Identity()).norm(), 1e-9*cn*(1+big/h), desc);
            /* invariance under rotation of the bounding box in given axes */
            if constexpr (D == 2 || D == 3) { auto bb = diameter_boundingbox(cm, c, Q); for (size_t i = 0; i < D; i++) { T l = 1e300, u = -1e300; for (auto& q : p) { T x = Q.col(i).dot(q); l = std::min(l, x); u = std::max(u, x); } near(S+"boundingbox-in-axes", std::abs(bb[i]-(u-l))/h, 20*eps, desc); } }
        }
        /* points inside and outside */
        if constexpr (std::is_same_v<M,s2_t> || std::is_same_v<M,s3_t> || std::is_same_v<M,g2_t>) {
            bool convex = true;
            if constexpr (std::is_same_v<M,g2_t>) {
                auto q = polygon(cm, c); bool amb = false;
                for (size_t i = 0; i < q.size(); i++) { V<2> a = q[(i+1)%q.size()]-q[i], b = q[(i+2)%q.size()]-q[(i+1)%q.size()]; T cr = a(0)*b(1)-a(1)*b(0); if (cr < -1e-9*h*h) convex = false; else if (std::abs(cr) <= 1e-9*h*h) amb = true; }
                if (!amb || !convex) check(S+"is-convex", is_convex(cm, c) == convex, desc);
            }
            if (convex) {
                std::vector<V<D>> pr;
                for (int k = 0; k < 6; k++) pr.push_back(random_in_cell(cm, c, r));
                auto bc = mean<D>(p);
                for (int k = 0; k < 6; k++) { V<D> x = bc; for (size_t i = 0; i < D; i++) x(i) += h*r.real(-1.2,1.2); pr.push_back(x); }
                /* just beyond and just before each face */
                for (auto& f : faces(cm, c)) { V<D> xf = random_in_face(cm, f, r); V<D> n = outward(cm, c, f); T s = h*std::pow(10., r.real(-6,-1)); pr.push_back(xf+s*n); pr.push_back(xf-s*n); }
                for (auto& x : pr) {
                    /* signed distances to the faces: the cell is convex */
                    T d = -1e300; for (auto& f : faces(cm, c)) d = std::max(d, outward(cm, c, f).dot(x - mean<D>(vpts(cm, f))));
                    if (std::abs(d) < 1e-9*h*(1+big/h)) { skip("probe too close to the cell boundary"); continue; }
                    check(S+(d < 0 ? "inside-accepted" : "outside-rejected"), is_inside(cm, c, P<D>(x)) == (d < 0), cat(desc, " distance ", d, " h ", h));
                }
            }
        }
        if constexpr (D == 2 && !std::is_same_v<M,c2_t>) {
            /* triangles of a cell: same area, same polygon */
            T a = meas_cell(cm, c), t = 0; bool in = true; auto poly = polygon(cm, c);
            for (auto& rs : split_in_raw_triangles(cm, c)) { T x = measure(rs); t += x; check(S+"raw-triangle-area", x >= 0, desc); }
            near(S+"raw-triangles-tile", std::abs(t-a)/(h*h), 1e-7, desc); (void)in;
        }
        if constexpr (D == 3) {
            T a = meas_cell(cm, c), t = 0; for (auto& rs : split_in_raw_tetrahedra(cm, c)) t += measure(rs);
            near(S+"raw-tetrahedra-tile", std::abs(t-a)/(h*h*h), 1e-11*(1+big/h), desc);
        }
        sig(cell_sig(cm, c));
    }
    near(S+"average-diameter", std::abs(average_diameter(cm) - hs/nc)/(hs/nc), 1e-12, desc);
}
template<typename M> void family(size_t maxlvl, size_t reps)
{
    M dummy; constexpr size_t D = M::dimension;
    for (size_t v = 0; v < nvariants(dummy); v++) for (size_t l = 0; l <= maxlvl; l++) for (size_t k = 0; k < reps; k++)
        run_case(cat(kind<M>(), "/v", v, "/l", l, "/", k), [&](Rng& r) {
            M m; auto d = make(m, r, v, l + (D==1)); go(m, d, r);
            if (general_affine<M>()) { auto f = affine<D>(r, 2 + k%3); auto st = m.backend_storage(); m.transform([&](const disk::point<T,D>& p) { return f(p); }); go(m, d + "+affine", r); }
        });
}

/* ------------------------------------------------- triangulations of simple polygons */
std::vector<V<2>> simple_polygon(Rng& r, int kind, size_t n)
{
    std::vector<V<2>> p;
    if (kind == 0) { /* star shaped */
        for (size_t i = 0; i < n; i++) { T a = 2*M_PI*(i + r.real(0,0.8))/n, rr = r.real(0.2, 1); p.push_back(V<2>(rr*std::cos(a), rr*std::sin(a))); }
    } else if (kind == 1) { /* comb with long thin teeth */
        size_t t = std::max<size_t>(n/4, 1); p.push_back(V<2>(0,0)); p.push_back(V<2>(T(t),0));
        for (size_t i = t; i-- > 0;) { p.push_back(V<2>(i+1-r.real(0,0.2), r.real(1,3))); p.push_back(V<2>(i+0.5+r.real(0,0.2), r.real(1,3))); p.push_back(V<2>(i+r.real(0.2,0.4), r.real(0.3,0.6))); p.push_back(V<2>(i+r.real(0.05,0.15), r.real(0.3,0.6))); }
    } else if (kind == 2) { /* spiral arm */
        size_t k = std::max<size_t>(n/2, 12);
        for (size_t i = 0; i < k; i++) { T a = 4*M_PI*i/k, rr = 1+a; p.push_back(V<2>(rr*std::cos(a), rr*std::sin(a))); }
        for (size_t i = k; i-- > 0;) { T a = 4*M_PI*i/k, rr = 3.2+a; p.push_back(V<2>(rr*std::cos(a), rr*std::sin(a))); }
    } else if (kind == 3) { /* staircase with aligned vertices */
        size_t k = std::max<size_t>(n/3, 2); p.push_back(V<2>(0,0));
        for (size_t i = 0; i <= k; i++) if (i) p.push_back(V<2>(i,0));
        for (size_t i = 0; i < k; i++) { p.push_back(V<2>(k-i, i+1)); p.push_back(V<2>(k-i-1, i+1)); }
        p.pop_back(); p.push_back(V<2>(0,k));
    } else { /* convex, on a circle, with midpoints on some edges */
        for (size_t i = 0; i < n; i++) { T a = 2*M_PI*i/n; V<2> q(std::cos(a), std::sin(a)); p.push_back(q); if (r.coin(0.3)) { T b = 2*M_PI*(i+1)/n; p.push_back((q+V<2>(std::cos(b), std::sin(b)))/2); } }
    }
    return p;
}
bool in_poly(const std::vector<V<2>>& p, const V<2>& x)
{
    bool in = false;
    for (size_t i = 0, j = p.size()-1; i < p.size(); j = i++)
        if ((p[i](1) > x(1)) != (p[j](1) > x(1)) && x(0) < (p[j](0)-p[i](0))*(x(1)-p[i](1))/(p[j](1)-p[i](1))+p[i](0)) in = !in;
    return in;
}
T dist_edges(const std::vector<V<2>>& p, const V<2>& x)
{
    T d = 1e300; for (size_t i = 0; i < p.size(); i++) { V<2> a = p[i], b = p[(i+1)%p.size()], e = b-a; T t = std::clamp(e.dot(x-a)/e.squaredNorm(), 0., 1.); d = std::min(d, (x-a-t*e).norm()); } return d;
}
void check_tiling(const std::string& S, const std::vector<V<2>>& poly, const std::vector<std::array<V<2>,3>>& tris, Rng& r, const std::string& desc)
{
    T A = std::abs(shoelace(poly)), t = 0, h = diam<2>(poly);
    for (auto& q : tris) t += std::abs(shoelace({q[0],q[1],q[2]}));
    near(S+"area", std::abs(t-A)/A, 1e-9, cat(desc, " triangles ", t, " polygon ", A));
    for (int k = 0; k < 60; k++) {
        V<2> lo = poly[0], hi = poly[0]; for (auto& q : poly) { lo = lo.cwiseMin(q); hi = hi.cwiseMax(q); }
        V<2> x(r.real(lo(0),hi(0)), r.real(lo(1),hi(1)));
        if (dist_edges(poly, x) < 1e-7*h) continue;
        size_t n = 0; bool amb = false;
        for (auto& q : tris) { std::vector<V<2>> tv{q[0],q[1],q[2]}; if (dist_edges(tv, x) < 1e-9*h) amb = true; if (in_poly(tv, x)) n++; }
        if (amb) continue;
        check(S+"covers-once", n == (in_poly(poly, x) ? 1u : 0u), cat(desc, " point in ", n, " triangles"));
    }
}
void triangulations(size_t n)
{
    for (int kind = 0; kind < 5; kind++) for (size_t k = 0; k < n; k++) run_case(cat("polygon/", kind, "/", k), [&](Rng& r) {
        size_t nv = k % 6 == 5 ? r.integer(81, 160) : r.integer(4, 30);
        auto p = simple_polygon(r, kind, nv); auto f = affine<2>(r, k % 5);
        bool simple = true; /* the generator must not hand over self-crossing outlines */
        { size_t m = p.size(); auto cr = [](const V<2>& a, const V<2>& b, const V<2>& c) { return (b(0)-a(0))*(c(1)-a(1))-(b(1)-a(1))*(c(0)-a(0)); };
          for (size_t i = 0; i < m; i++) for (size_t j = i+2; j < m; j++) { if (i == 0 && j == m-1) continue;
            auto &a = p[i], &b = p[(i+1)%m], &c = p[j], &d = p[(j+1)%m];
            if (cr(a,b,c)*cr(a,b,d) <= 0 && cr(c,d,a)*cr(c,d,b) <= 0) simple = false; } }
        if (!simple) { skip("outline crosses itself"); return; }
        for (auto& q : p) q = f.A*q + f.b;
        if (shoelace(p) < 0) std::reverse(p.begin(), p.end());
        std::rotate(p.begin(), p.begin() + r.integer(0, p.size()-1), p.end());
        sig(cat("polygon", kind, "/", p.size()));
        auto desc = cat("kind ", kind, " vertices ", p.size());
        /* ear clipping takes any winding */
        auto w = p; if (r.coin()) std::reverse(w.begin(), w.end());
        std::vector<disk::point<T,2>> pp; for (auto& q : w) pp.push_back(P<2>(q));
        std::vector<std::array<V<2>,3>> tris; bool ok = true;
        auto ec = disk::triangulation_earcut_algorithm(pp);
        for (auto& t : ec) { for (auto i : t) ok = ok && i < pp.size(); if (ok) tris.push_back({w[t[0]], w[t[1]], w[t[2]]}); }
        check("earcut.indices", ok && ec.size() + 2 <= pp.size(), desc);
        if (ok) check_tiling("earcut.", w, tris, r, desc);
        /* Triangle's constrained triangulation, through a mesh of one cell */
        Poly2 q; std::vector<size_t> c; for (size_t i = 0; i < p.size(); i++) { q.pts.push_back(P<2>(p[i])); c.push_back(i); } q.cells.push_back(c);
        g2_t m; build(q, m); auto& cl = *m.cells_begin();
        auto conv = [&](auto&& ts) { std::vector<std::array<V<2>,3>> o; for (auto& t : ts) o.push_back({v<2>(t.p0), v<2>(t.p1), v<2>(t.p2)}); return o; };
        check_tiling("shewchuk.", p, conv(disk::triangulate_nonconvex_polygon(m, cl)), r, desc);
        check_tiling("triangulate_polygon.", p, conv(disk::triangulate_polygon(m, cl)), r, desc);
        { std::vector<std::array<V<2>,3>> o; auto st = m.backend_storage();
          for (auto& t : split_in_raw_triangles_index(m, cl)) o.push_back({v<2>(st->points[size_t(t[0])]), v<2>(st->points[size_t(t[1])]), v<2>(st->points[size_t(t[2])])});
          check_tiling("raw-triangles-index.", p, o, r, desc); }
    });
}
int main(int argc, char **argv)
{
    init(argc, argv, "C03");
#if PART == 2
    family<g1_t>(6, n_of(3, 40)); family<s2_t>(2, n_of(3, 60)); family<c2_t>(3, n_of(3, 60)); family<g2_t>(2, n_of(3, 80));
    for (size_t k = 0; k < n_of(40, 2000); k++) run_case(cat("star/", k), [&](Rng& r) { g2_t m; auto d = make_star(m, r); go(m, d, r); });
    triangulations(n_of(24, 600));
#else
    family<s3_t>(1, n_of(2, 20)); family<c3_t>(1, n_of(2, 30)); family<g3_t>(1, n_of(2, 30));
#endif
    return finish();
}
