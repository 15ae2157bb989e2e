// C17: boundary-condition bookkeeping. Random histories of declarations run
// against a shadow map from face to declared condition; every query of the
// class is compared with the shadow after every declaration.
#include "oracle.hpp"
#include "diskpp/boundary_conditions/boundary_conditions.hpp"
using namespace vm; using namespace orc; using namespace mon;
struct Rec { bool on = false; size_t type, id = 0; int fun = -1; };
struct Shadow { std::vector<Rec> d, n, r, c; };
inline size_t binom_(size_t n, size_t k) { size_t r = 1; for (size_t i = 1; i <= k; i++) r = r*(n-k+i)/i; return r; }

template<typename M, bool S> void history(const M& m, Rng& r)
{
    constexpr size_t dim = M::dimension; using BC = disk::BoundaryConditions<M, S>; using FT = typename BC::function_type; using Pt = typename BC::point_type;
    size_t nf = m.faces_size(); std::vector<size_t> bid(nf); std::vector<bool> isb(nf); std::set<size_t> ids;
    { size_t f = 0; for (auto it = m.faces_begin(); it != m.faces_end(); ++it, ++f) { isb[f] = m.is_boundary(*it); if (isb[f]) { bid[f] = m.boundary_id(*it); ids.insert(bid[f]); } } }
    std::vector<size_t> idv(ids.begin(), ids.end());
    BC bc(m); Shadow sh; auto init4 = [&](std::vector<Rec>& v, size_t t) { v.assign(nf, Rec{false, t, 0, -1}); };
    init4(sh.d, disk::NOTHING); init4(sh.n, disk::FREE); init4(sh.r, disk::WHATEVER); init4(sh.c, disk::NO_CONTACT);
    T factor = 1; std::vector<T> coef; /* function k returns coef[k] times a fixed affine function */
    auto affine = [](const Pt& p) { T q = 0.3; for (size_t i = 0; i < dim; i++) q += (i+1)*p[i]; return q; };
    auto mk = [&](T a) { return std::function<FT(Pt)>([=](Pt p) -> FT { if constexpr (S) return a*affine(p); else { FT o; for (size_t i = 0; i < dim; i++) o(i) = a*(affine(p)+T(i)); return o; } }); };
    auto value = [&](const FT& x) { if constexpr (S) return std::vector<T>{x}; else { std::vector<T> o; for (size_t i = 0; i < dim; i++) o.push_back(x(i)); return o; } };
    auto throws = [&](auto&& f) { try { f(); return 0; } catch (const std::logic_error&) { return 1; } catch (...) { return 2; } };
    std::vector<typename M::face> fcs(m.faces_begin(), m.faces_end()); std::vector<typename M::cell> cls(m.cells_begin(), m.cells_end());
    auto verify = [&](bool deep) {
        auto count = [&](const std::vector<Rec>& v) { size_t n = 0; for (auto& x : v) n += x.on; return n; };
        size_t nd = count(sh.d), nn = count(sh.n), nr = count(sh.r), nc = count(sh.c);
        check("count.dirichlet", bc.nb_faces_dirichlet() == nd, cat(bc.nb_faces_dirichlet(), " instead of ", nd)); check("count.neumann", bc.nb_faces_neumann() == nn, cat(bc.nb_faces_neumann(), " instead of ", nn)); check("count.robin", bc.nb_faces_robin() == nr, cat(bc.nb_faces_robin(), " instead of ", nr)); check("count.contact", bc.nb_faces_contact() == nc, cat(bc.nb_faces_contact(), " instead of ", nc)); check("count.all", bc.nb_faces_boundary() == nd+nn+nr+nc);
        for (size_t f = 0; f < nf; f++) { auto& fc = fcs[f]; auto &d = sh.d[f], &n = sh.n[f], &rb = sh.r[f], &c = sh.c[f]; auto cx = cat("face ", f, " id ", isb[f] ? (long)bid[f] : -1L);
            check("is.dirichlet", bc.is_dirichlet_face(f) == d.on && bc.is_dirichlet_face(fc) == d.on, cx); check("is.neumann", bc.is_neumann_face(f) == n.on && bc.is_neumann_face(fc) == n.on, cx); check("is.robin", bc.is_robin_face(f) == rb.on && bc.is_robin_face(fc) == rb.on, cx); check("is.contact", bc.is_contact_face(f) == c.on && bc.is_contact_face(fc) == c.on, cx);
            check("type.dirichlet", bc.dirichlet_boundary_type(f) == d.type && bc.dirichlet_boundary_type(fc) == d.type, cx); check("type.neumann", bc.neumann_boundary_type(f) == n.type && bc.neumann_boundary_type(fc) == n.type, cx); check("type.robin", bc.robin_boundary_type(f) == rb.type && bc.robin_boundary_type(fc) == rb.type, cx); check("type.contact", bc.contact_boundary_type(f) == c.type && bc.contact_boundary_type(fc) == c.type, cx);
            if (d.on) check("id.dirichlet", bc.dirichlet_boundary_id(f) == d.id && bc.dirichlet_boundary_id(fc) == d.id, cx); if (n.on) check("id.neumann", bc.neumann_boundary_id(f) == n.id && bc.neumann_boundary_id(fc) == n.id, cx); if (rb.on) check("id.robin", bc.robin_boundary_id(f) == rb.id && bc.robin_boundary_id(fc) == rb.id, cx); if (c.on) check("id.contact", bc.contact_boundary_id(f) == c.id && bc.contact_boundary_id(fc) == c.id, cat(cx, " contact id ", bc.contact_boundary_id(f), " and by face ", bc.contact_boundary_id(fc), " expected ", c.id));
            if (!deep) continue;
            Pt x = P<dim>(random_in_face(m, fc, r)); auto cmp = [&](const char *k, const FT& got, T a) { auto w = value(mk(a)(x)), g = value(got); T e = 0, s = 1e-300; for (size_t i = 0; i < w.size(); i++) { e += std::abs(w[i]-g[i]); s += std::abs(w[i]); } near(k, e/s, 1e-13, cx); };
            if (d.on) { cmp("function.dirichlet", bc.dirichlet_boundary_func(f)(x), factor*coef[d.fun]); cmp("function.dirichlet", bc.dirichlet_boundary_func(fc)(x), factor*coef[d.fun]); } else check("refuses.dirichlet-function", throws([&]() { bc.dirichlet_boundary_func(f); }) == 1, cx);
            if (n.on) { cmp("function.neumann", bc.neumann_boundary_func(f)(x), factor*coef[n.fun]); cmp("function.neumann", bc.neumann_boundary_func(fc)(x), factor*coef[n.fun]); } else check("refuses.neumann-function", throws([&]() { bc.neumann_boundary_func(f); }) == 1, cx);
            if (rb.on) { cmp("function.robin", bc.robin_boundary_func(f)(x), factor*coef[rb.fun]); cmp("function.robin", bc.robin_boundary_func(fc)(x), factor*coef[rb.fun]); } else check("refuses.robin-function", throws([&]() { bc.robin_boundary_func(f); }) == 1, cx);
            if (c.on && c.fun >= 0) { near("function.contact", std::abs(bc.contact_boundary_func(f)(x)-coef[c.fun]*affine(x)), 1e-13*(1+std::abs(coef[c.fun]*affine(x))), cx); near("function.contact", std::abs(bc.contact_boundary_func(fc)(x)-coef[c.fun]*affine(x)), 1e-13*(1+std::abs(coef[c.fun]*affine(x))), cx); } else check("refuses.contact-function", throws([&]() { bc.contact_boundary_func(f); }) == 1, cx);
            size_t k = r.integer(0, 3), nb = binom_(k+dim-1, dim-1), all = S ? nb : nb*dim; size_t want = 0; bool bad = false;
            if (d.on) switch (d.type) { case disk::DIRICHLET: want = all; break; case disk::NOTHING: want = 0; break; default: if (S) bad = true; else switch (d.type) { case disk::CLAMPED: want = all; break; case disk::DX: case disk::DY: want = nb; break; case disk::DXDY: want = 2*nb; break; case disk::DZ: want = nb; bad = dim != 3; break; case disk::DXDZ: case disk::DYDZ: want = 2*nb; bad = dim != 3; break; default: bad = true; } }
            if (bad) check("refuses.imposed-dofs", throws([&]() { bc.dirichlet_imposed_dofs(f, k); }) == 1, cat(cx, " type ", d.type)); else check("imposed-dofs", bc.dirichlet_imposed_dofs(f, k) == want, cat(cx, " type ", d.type, " degree ", k, " gives ", bc.dirichlet_imposed_dofs(f, k), " instead of ", want));
        }
        if (!deep) return;
        for (auto& cl : cls) { auto fi = disk::faces_id(m, cl); bool hd = false, hn = false, hr = false; size_t hc = 0; std::vector<size_t> wo, un, wi; for (auto f : fi) { hd |= sh.d[f].on; hn |= sh.n[f].on; hr |= sh.r[f].on; hc += sh.c[f].on; if (sh.c[f].type == disk::NO_CONTACT) wo.push_back(f); else wi.push_back(f); if (sh.c[f].type != disk::SIGNORINI_CELL) un.push_back(f); }
            check("cell.has", bc.cell_has_dirichlet_faces(cl) == hd && bc.cell_has_neumann_faces(cl) == hn && bc.cell_has_robin_faces(cl) == hr && bc.cell_has_contact_faces(cl) == (hc > 0)); check("cell.howmany", bc.howmany_contact_faces(cl) == hc && bc.howmany_without_contact_faces(cl) == fi.size()-hc);
            auto lst = [&](const char *k, const std::vector<typename M::face>& got, const std::vector<size_t>& want) { std::vector<size_t> g; for (auto& x : got) g.push_back(m.lookup(x)); check(k, g == want); };
            lst("cell.faces_without_contact", bc.faces_without_contact(cl), wo); lst("cell.faces_with_contact", bc.faces_with_contact(cl), wi); lst("cell.faces_with_unknowns", bc.faces_with_unknowns(cl), un); }
    };
    verify(true); size_t ops = r.integer(1, 14); std::set<std::string> used;
    for (size_t o = 0; o < ops; o++) {
        size_t id = r.coin(0.12) ? 1000+r.integer(0, 50) : idv[r.integer(0, idv.size()-1)]; int op = r.integer(0, 6); T a = r.real(-3, 3); used.insert(cat(op));
        auto mark = [&](std::vector<Rec>& v, size_t type, int fun) { for (size_t f = 0; f < nf; f++) if (isb[f] && bid[f] == id) v[f] = Rec{true, type, id, fun}; };
        if (op == 0) { coef.push_back(a); bc.addDirichletEverywhere(mk(a)); for (size_t f = 0; f < nf; f++) if (isb[f]) sh.d[f] = Rec{true, disk::DIRICHLET, 0, (int)coef.size()-1}; }
        else if (op == 1) { size_t t = r.integer(0, 8); coef.push_back(a); bc.addDirichletBC(t, id, mk(a)); mark(sh.d, t, coef.size()-1); }
        else if (op == 2) { size_t t = r.integer(9, 10); coef.push_back(a); bc.addNeumannBC(t, id, mk(a)); mark(sh.n, t, coef.size()-1); }
        else if (op == 3) { size_t t = r.integer(11, 12); coef.push_back(a); bc.addRobinBC(t, id, mk(a)); mark(sh.r, t, coef.size()-1); }
        else if (op == 4) { size_t t = r.integer(13, 16); bc.addContactBC(t, id); mark(sh.c, t, -1); }
        else if (op == 5) { size_t t = r.integer(13, 16); coef.push_back(a); std::function<T(Pt)> g = [=](Pt p) { return a*affine(p); }; bc.addContactBC(t, id, g); mark(sh.c, t, coef.size()-1); }
        else { auto before = [&]() { for (size_t f = 0; f < nf; f++) if (sh.d[f].on) return (long)f; return -1L; }(); Pt x = P<dim>(random_in_face(m, fcs[0], r)); std::vector<T> w; std::function<FT(Pt)> old; if (before >= 0) { old = bc.dirichlet_boundary_func(before); w = value(old(x)); } factor = a; bc.multiplyAllFunctionsByAFactor(a); if (before >= 0) check("factor.already-obtained", value(old(x)) == w); }
        verify(r.coin(0.4) || o+1 == ops);
    }
    { BC cp(bc); check("copy", cp.nb_faces_boundary() == bc.nb_faces_boundary() && cp.nb_faces_dirichlet() == bc.nb_faces_dirichlet()); for (size_t f = 0; f < nf; f++) check("copy.is", cp.is_dirichlet_face(f) == sh.d[f].on && cp.is_contact_face(f) == sh.c[f].on); }
    std::ostringstream os; auto b = std::cout.rdbuf(os.rdbuf()); bc.boundary_info(); std::cout.rdbuf(b); check("print", os.str().find(cat("Number of boundary faces: ", bc.nb_faces_boundary())) != std::string::npos);
    std::string u; for (auto& x : used) u += x; sig(cat(kind<M>(), S, "/", u));
}
template<typename M> void run(size_t reps)
{
    M proto; for (size_t v = 0; v < nvariants(proto); v++) for (size_t k = 0; k < reps; k++) run_case(cat(kind<M>(), "/", v, "/", k), [&](Rng& r) {
        M m; make(m, r, v, 1+k%2); if (r.coin(0.5)) { /* arbitrary boundary numbers, faces of one side need not be neighbours */
            auto st = m.backend_storage(); std::vector<size_t> nums; for (int i = 0; i < 5; i++) nums.push_back(r.integer(0, 40)); for (auto& b : st->boundary_info) if (b.is_boundary()) { b = disk::boundary_descriptor(nums[r.integer(0, 4)], true); } }
        history<M, true>(m, r); history<M, false>(m, r); });
}
int main(int argc, char **argv)
{
    init(argc, argv, "C17");
#if PART == 2
    run<s2_t>(n_of(6, 80)); run<c2_t>(n_of(6, 80)); run<g2_t>(n_of(6, 80));
#else
    run<s3_t>(n_of(3, 30)); run<c3_t>(n_of(4, 40)); run<g3_t>(n_of(3, 30));
#endif
    return finish();
}
