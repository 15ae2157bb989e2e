// C20: hierarchies of refined triangular meshes, observed through the public
// interface: the levels, and the location of points on every level.
#include "topo.hpp"
#include "oracle.hpp"
#include <fstream>
#include "diskpp/mesh/mesh_hierarchy.hpp"
using namespace mon; using namespace vm;

/* smallest barycentric coordinate of x in the triangle (signed, relative) */
template<typename P> bool eq(const P& a, const P& b) { return a.x() == b.x() && a.y() == b.y(); }
template<typename P> long double inside(const std::vector<P>& t, const P& x)
{
    auto cr = [](const P& a, const P& b, const P& c) { return ((long double)b.x()-a.x())*((long double)c.y()-a.y())-((long double)b.y()-a.y())*((long double)c.x()-a.x()); };
    long double A = cr(t[0], t[1], t[2]); return std::min({cr(x, t[1], t[2])/A, cr(t[0], x, t[2])/A, cr(t[0], t[1], x)/A});
}
template<typename M> std::vector<typename M::point_type> vts(const M& m, const typename M::cell& c) { auto p = points(m, c); return std::vector<typename M::point_type>(p.begin(), p.end()); }

template<typename S> void one(Rng& r, disk::simplicial_mesh<S,2> m0, const std::string& d, size_t levels, bool topology)
{
    using M = disk::simplicial_mesh<S,2>; using P = typename M::point_type; const S eps = std::numeric_limits<S>::epsilon();
    disk::mesh_hierarchy<S> h; auto np0 = m0.points_size(); auto pts0 = m0.backend_storage()->points; auto bi0 = m0.backend_storage()->boundary_info;
    { bool t = false; try { h.locate_point(P(0, 0), 0); } catch (const std::logic_error&) { t = true; } check("not-built-refused", t, d); }
    if (r.coin(0.5)) { M other; auto ms = make_simple_mesher(other); h.build_hierarchy(other, r.integer(0, 2)); } /* building again replaces everything */
    if (r.coin(0.3)) h = disk::mesh_hierarchy<S>(m0, levels); else h.build_hierarchy(m0, levels);
    check("levels", h.meshes_size() == levels+1 && (size_t)std::distance(h.meshes_begin(), h.meshes_end()) == levels+1, d);
    check("ends", h.coarsest_mesh().cells_size() == h.meshes_begin()->cells_size() && h.finest_mesh().cells_size() == std::prev(h.meshes_end())->cells_size(), d);
    { /* the initial mesh is not touched */ auto st = m0.backend_storage(); bool ok = st->points.size() == np0 && st->boundary_info.size() == bi0.size(); for (size_t i = 0; ok && i < np0; i++) ok = eq(st->points[i], pts0[i]); for (size_t i = 0; ok && i < bi0.size(); i++) ok = bi0[i].id() == st->boundary_info[i].id() && bi0[i].is_boundary() == st->boundary_info[i].is_boundary(); check("initial-untouched", ok, d); }
    std::vector<M> lv(h.meshes_begin(), h.meshes_end());
    std::vector<std::vector<size_t>> parent(levels+1);
    for (size_t l = 0; l <= levels; l++)
    {
        M& m = lv[l]; std::string dl = cat(d, " level ", l); auto st = m.backend_storage();
        if constexpr (std::is_same_v<S, double>) if (topology) check_mesh(m, dl);
        check("sizes", st->edges.size() == st->boundary_info.size() && st->subdomain_info.size() == st->surfaces.size() && st->nodes.size() == st->points.size(), dl);
        if (l == 0) continue;
        const M& c = lv[l-1]; auto sc = c.backend_storage();
        check("counts", m.cells_size() == 4*c.cells_size() && m.points_size() == c.points_size()+c.faces_size() && m.faces_size() == 2*c.faces_size()+3*c.cells_size() && m.boundary_faces_size() == 2*c.boundary_faces_size(), dl);
        /* coarse points are kept; every new one is the middle of a coarse edge */
        bool ok = true; for (size_t i = 0; i < c.points_size(); i++) ok = ok && eq(sc->points[i], st->points[i]); check("coarse-points-kept", ok, dl);
        std::vector<size_t> mid(sc->edges.size(), size_t(-1)); for (size_t i = c.points_size(); i < m.points_size(); i++) { size_t n = 0; for (size_t f = 0; f < sc->edges.size(); f++) { auto jd = sc->edges[f].point_ids(); P p = sc->points[jd[0]], q = sc->points[jd[1]], x = (p+q)/S(2), y = st->points[i]; S tol = 8*eps*(std::abs(p.x())+std::abs(q.x())+std::abs(p.y())+std::abs(q.y())); if (std::abs(x.x()-y.x()) <= tol && std::abs(x.y()-y.y()) <= tol) { check("midpoint-once", mid[f] == size_t(-1), dl); mid[f] = i; n++; } } check("new-points-are-midpoints", n == 1, dl); }
        std::map<std::pair<size_t,size_t>, size_t> half; for (size_t f = 0; f < sc->edges.size(); f++) { auto jd = sc->edges[f].point_ids(); for (size_t e = 0; e < 2; e++) half[{std::min<size_t>(jd[e], mid[f]), std::max<size_t>(jd[e], mid[f])}] = f; }
        /* tiling: descendants by geometry */
        std::vector<int> kids(c.cells_size(), 0); std::vector<S> area(c.cells_size(), 0); parent[l].assign(m.cells_size(), 0);
        std::vector<std::vector<P>> T; for (auto& cl : c) T.push_back(vts(c, cl));
        size_t fi = 0; for (auto& cl : m)
        {
            auto t = vts(m, cl); P b = (t[0]+t[1]+t[2])/S(3); size_t in = 0, k = 0; for (size_t i = 0; i < T.size(); i++) if (inside(T[i], b) > 0.05) { in++; k = i; }
            check("one-parent", in == 1, cat(dl, " cell ", fi)); if (in == 1) { parent[l][fi] = k; kids[k]++; area[k] += measure(m, cl); for (auto& x : t) check_f("vertex-in-parent", inside(T[k], x) > -200*eps, [&]{ return dl; }); }
            if (st->subdomain_info.size() == m.cells_size() && in == 1) { auto ccl = *std::next(c.cells_begin(), k); check("subdomain-inherited", m.domain_info(cl).id() == c.domain_info(ccl).id() && m.domain_info(cl).tag() == c.domain_info(ccl).tag(), dl); }
            fi++;
        }
        size_t k = 0; for (auto& cl : c) { S A = measure(c, cl); check("four-children", kids[k] == 4, dl); near("tiled", std::abs(area[k]-A)/A, 1e3*eps*(1+100*(std::abs(T[k][0].x())+std::abs(T[k][0].y()))/std::sqrt(A)), dl); k++; }
        /* boundary numbers, by geometry */
        for (size_t e = 0; e < st->edges.size(); e++)
        {
            auto id = st->edges[e].point_ids(); auto it = half.find({std::min<size_t>(id[0], id[1]), std::max<size_t>(id[0], id[1])}); size_t n = it != half.end(), want = 0; bool wb = false; if (n) { want = sc->boundary_info[it->second].id(); wb = sc->boundary_info[it->second].is_boundary(); }
            auto& bi = st->boundary_info[e]; check("boundary-inherited", bi.is_boundary() == (n == 1 && wb), dl); if (n == 1 && wb) check("boundary-number", bi.id() == want && m.boundary_id(typename M::face(st->edges[e])) == want, dl); else check("internal-number", bi.id() == 0 && bi.tag() == 0, dl);
        }
    }
    /* location */
    auto expect_found = [&](const P& x, const char *kind, S slack) {
        std::vector<size_t> at(levels+1); for (size_t l = 0; l <= levels; l++)
        {
            std::string dd = cat(d, " ", kind, " level ", l, " at ", x); size_t k = 0; try { k = h.locate_point(x, l); } catch (const std::invalid_argument& e) { check("located", false, cat(dd, ": ", e.what())); return; }
            check("located", k < lv[l].cells_size(), dd); if (k >= lv[l].cells_size()) return; at[l] = k;
            auto t = vts(lv[l], *std::next(lv[l].cells_begin(), k)); check("contains", inside(t, x) >= -slack, cat(dd, " ", (double)inside(t, x)));
            if (l) check("located-in-parent", parent[l][k] == at[l-1], dd);
        } };
    for (size_t t = 0; t < n_of(60, 400); t++)
    {
        size_t l = r.integer(0, levels); const M& m = lv[l]; auto cl = *std::next(m.cells_begin(), r.integer(0, m.cells_size()-1)); auto v = vts(m, cl); S mag = 1; for (auto& x : v) mag = std::max({mag, std::abs(x.x()), std::abs(x.y())});
        S slack = 0; { S A = measure(lv[levels], *lv[levels].cells_begin()); S hmin = std::sqrt(A); for (auto& f : lv[levels]) { S a = measure(lv[levels], f), dm = diameter(lv[levels], f); hmin = std::min(hmin, a/dm); } slack = std::max<S>(50*eps*mag/hmin, 4e3*eps*(1<<levels)); }
        S a = r.real(0, 1), b = r.real(0, 1); if (a+b > 1) { a = 1-a; b = 1-b; } int kind = t%5;
        if (kind == 0) { P x = v[0]*(1-a-b)+v[1]*a+v[2]*b; expect_found(x, "interior", slack); }
        if (kind == 1) { P x = v[0]*(1-a)+v[1]*a; expect_found(x, "edge", slack); }
        if (kind == 2) { int i = r.integer(0, 2); expect_found(v[i], "vertex", slack); }
        if (kind == 3) { P x = (v[0]+v[1]+v[2])/S(3); expect_found(x, "barycentre", slack); size_t k = r.integer(0, m.cells_size()-1); auto c2 = *std::next(m.cells_begin(), k); auto w = vts(m, c2); check("locates-own-cell", h.locate_point((w[0]+w[1]+w[2])/S(3), l) == k, d); }
        if (kind == 4) { /* clearly outside every cell */ P x = v[0]+(v[1]-v[0])*S(r.real(-60, 60))+(v[2]-v[0])*S(r.real(-60, 60)); long double best = -1; for (auto& c2 : lv[0]) best = std::max(best, inside(vts(lv[0], c2), x)); if (best < -1e-3) { bool th = false; try { h.locate_point(x, l); } catch (const std::invalid_argument&) { th = true; } check("outside-refused", th, cat(d, " at ", x)); } }
    }
    { for (size_t l : {levels+1, levels+2, levels+50}) { bool th = false; auto v = vts(lv[0], *lv[0].cells_begin()); try { h.locate_point((v[0]+v[1]+v[2])/S(3), l); } catch (const std::invalid_argument&) { th = true; } check("level-refused", th, cat(d, " level ", l, " of ", levels)); } }
    sig(cat(std::is_same_v<S,float> ? "float/" : "double/", d, "/levels ", levels));
}
int main(int argc, char **argv)
{
    init(argc, argv, "C20");
    for (size_t it = 0; it < n_of(12, 120); it++) run_case(cat("double/", it), [&](Rng& r) {
        s2_t m; std::string d = make(m, r, it%4, r.integer(0, 1)); auto st = m.backend_storage();
        for (auto& b : st->boundary_info) if (b.is_boundary()) b.id(r.integer(0, 9)); for (auto& s : st->subdomain_info) s = disk::subdomain_descriptor(r.integer(1, 5), r.integer(1, 5));
        if (r.coin(0.5)) { T a[4], s = std::exp(r.real(-5, 5)); for (auto& x : a) x = r.real(-1, 1)*s; T dx = r.real(-5, 5)*s, dy = r.real(-5, 5)*s; if (std::abs(a[0]*a[3]-a[1]*a[2]) > 0.1*s*s) m.transform([&](const disk::point<T,2>& p) { return disk::point<T,2>(a[0]*p.x()+a[1]*p.y()+dx, a[2]*p.x()+a[3]*p.y()+dy); }); }
        one<T>(r, m, cat("kind ", it%4), m.cells_size() > 60 ? r.integer(1, 2) : r.integer(0, 3), true); });
    for (size_t it = 0; it < n_of(6, 40); it++) run_case(cat("single/", it), [&](Rng& r) {
        s2_t m; for (;;) { disk::point<T,2> a(r.real(-1, 1), r.real(-1, 1)), b(r.real(-1, 1), r.real(-1, 1)), c(r.real(-1, 1), r.real(-1, 1)); if ((b.x()-a.x())*(c.y()-a.y())-(b.y()-a.y())*(c.x()-a.x()) < 0.2) continue; disk::make_single_element_mesh(m, a, b, c); break; } for (auto& b : m.backend_storage()->boundary_info) b.id(r.integer(0, 9));
        one<T>(r, m, "single", r.integer(2, 5), true); });
    for (size_t it = 0; it < n_of(4, 30); it++) run_case(cat("float/", it), [&](Rng& r) { disk::simplicial_mesh<float,2> m; auto ms = make_simple_mesher(m); if (r.coin(0.5)) ms.refine(); float a = r.real(-1, 1), b = r.real(-1, 1); m.transform([&](const disk::point<float,2>& p) { return disk::point<float,2>(p.x()+a*p.y(), p.y()*1.3f+b); }); one<float>(r, m, "box", r.integer(1, 3), false); });
    return finish();
}
