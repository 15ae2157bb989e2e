// Writers of every supported mesh format, from a model of a mesh that does not
// depend on the numbering of the library.
#pragma once
#include "meshes.hpp"
#include "mon.hpp"
#include <array>
using namespace mon; using namespace vm;
using X = std::array<double,3>; using Key = std::vector<X>; using Ids = std::vector<size_t>;
struct Cell { Ids v, f; size_t reg = 0; double meas = 0; };
struct Face { Ids v, e; int owners = 0; size_t id = 0; bool listed = false; double meas = 0; std::vector<size_t> own; };
struct Mdl { size_t dim; std::vector<X> P; std::vector<Cell> C; std::vector<Face> F; std::vector<std::array<size_t,2>> E; };

template<typename P> X co(const P& p) { X x{0,0,0}; for (size_t i = 0; i < P::dimension; i++) x[i] = p.at(i); return x; }
static Key key(const Mdl& m, const Ids& v) { Key k; for (auto i : v) k.push_back(m.P[i]); std::sort(k.begin(), k.end()); return k; }
template<typename M, typename E> Key lkey(const M& m, const E& e) { Key k; for (auto p : points(m, e)) k.push_back(co(p)); std::sort(k.begin(), k.end()); return k; }

/* The model: a library mesh, renumbered at random. */
template<typename M> Mdl model(const M& m, Rng& r, bool permute_cell_vts, bool single_region)
{
    Mdl q; q.dim = M::dimension; size_t np = m.points_size(), nf = m.faces_size(), nc = m.cells_size();
    auto perm = [&](size_t n) { Ids p(n); for (size_t i = 0; i < n; i++) p[i] = i; r.shuffle(p); return p; };
    Ids pp = perm(np), fp = perm(nf), cp = perm(nc); q.P.resize(np); q.F.resize(nf); q.C.resize(nc);
    { size_t i = 0; for (auto it = m.points_begin(); it != m.points_end(); ++it, ++i) q.P[pp[i]] = co(*it); }
    auto rot = [&](Ids& v, bool flip) { std::rotate(v.begin(), v.begin()+r.integer(0, v.size()-1), v.end()); if (flip && r.coin(0.5)) std::reverse(v.begin(), v.end()); };
    std::map<std::array<size_t,2>, size_t> em;
    size_t fi = 0; for (auto it = m.faces_begin(); it != m.faces_end(); ++it, ++fi) {
        Face& f = q.F[fp[fi]]; for (auto p : it->point_ids()) f.v.push_back(pp[size_t(p)]); f.meas = measure(m, *it);
        if (q.dim == 3) { if constexpr (std::is_same_v<M, g3_t>) rot(f.v, true); else if constexpr (std::is_same_v<M, s3_t>) r.shuffle(f.v); for (size_t i = 0; i < f.v.size(); i++) { std::array<size_t,2> e{std::min(f.v[i], f.v[(i+1)%f.v.size()]), std::max(f.v[i], f.v[(i+1)%f.v.size()])}; em.emplace(e, 0); } }
        else if (r.coin(0.5)) std::reverse(f.v.begin(), f.v.end());
    }
    if (q.dim == 3) { Ids ep = perm(em.size()); q.E.resize(em.size()); size_t i = 0; for (auto& [e, k] : em) { k = ep[i++]; q.E[k] = e; }
        for (auto& f : q.F) { for (size_t j = 0; j < f.v.size(); j++) f.e.push_back(em.at({std::min(f.v[j], f.v[(j+1)%f.v.size()]), std::max(f.v[j], f.v[(j+1)%f.v.size()])})); if constexpr (std::is_same_v<M, g3_t>) rot(f.e, true); } for (auto& e : q.E) if (r.coin(0.5)) std::swap(e[0], e[1]); }
    size_t ci = 0; X d{r.real(-1,1), r.real(-1,1), r.real(-1,1)}; for (auto& cl : m) {
        Cell& c = q.C[cp[ci]]; for (auto p : cl.point_ids()) c.v.push_back(pp[size_t(p)]);
        if (permute_cell_vts) r.shuffle(c.v); else if constexpr (std::is_same_v<M, g2_t>) rot(c.v, false);
        for (auto& fc : faces(m, cl)) { size_t k = fp[offset(m, fc)]; c.f.push_back(k); q.F[k].owners++; q.F[k].own.push_back(cp[ci]); } r.shuffle(c.f);
        auto b = barycenter(m, cl); double s = 0; for (size_t i = 0; i < M::dimension; i++) s += d[i]*(b.at(i)-0.5);
        c.reg = single_region ? 0 : (s > 0 ? 3 : 1); c.meas = measure(m, cl); ci++; }
    size_t mult = r.integer(1, 4); /* boundary numbers, by direction; interfaces between regions are listed too, sometimes */
    bool ifc = r.coin(0.5); for (auto& f : q.F) { double a = 0, b = 0; for (auto i : f.v) { a += q.P[i][0]; b += q.P[i][1]; } a /= f.v.size(); b /= f.v.size();
        if (f.owners == 1) { f.listed = true; f.id = mult*(1 + (a > 0.5) + 2*(b > 0.5)); } else if (ifc && q.C[f.own[0]].reg != q.C[f.own[1]].reg) { f.listed = true; f.id = 77; } }
    return q;
}

/* ------------------------------------------------------------- the writers */
struct W { std::ostringstream o; Rng& r; bool fancy; W(Rng& r_, bool f) : r(r_), fancy(f) { o.precision(17); }
    template<typename T> W& operator<<(const T& t) { o << t; return *this; }
    W& sp() { if (fancy && r.coin(0.1)) o << (r.coin(0.5) ? "\t" : "   "); else o << ' '; return *this; }
    W& nl() { if (fancy && r.coin(0.05)) o << " \n\n"; else o << '\n'; return *this; }
    W& x(double v) { if (fancy && r.coin(0.2)) { std::ostringstream s; s.precision(16); s << std::scientific << v; o << s.str(); } else o << v; return *this; }
    W& list(const Ids& v, size_t base) { for (auto i : v) { sp(); o << i+base; } return *this; } };
static void pts(W& w, const Mdl& m, size_t d) { for (auto& p : m.P) { for (size_t i = 0; i < d; i++) { if (i) w.sp(); w.x(p[i]); } w.nl(); } }
static std::vector<size_t> listed(const Mdl& m, Rng& r, bool interfaces) { Ids v; for (size_t i = 0; i < m.F.size(); i++) if (m.F[i].listed && (interfaces || m.F[i].owners == 1)) v.push_back(i); r.shuffle(v); return v; }

static std::string w_netgen(Mdl& m, Rng& r)
{
    W w(r, true); w << m.P.size(); w.nl(); pts(w, m, m.dim);
    w << m.C.size(); w.nl(); for (auto& c : m.C) { w << c.reg; w.list(c.v, 1); w.nl(); }
    auto b = listed(m, r, true); w << b.size(); w.nl(); for (auto i : b) { w << m.F[i].id; w.list(m.F[i].v, 1); w.nl(); }
    return w.o.str();
}
static std::string w_cart(Mdl& m, Rng& r)
{
    W w(r, true); w << m.P.size(); w.nl(); pts(w, m, m.dim); w << m.C.size(); w.nl(); for (auto& c : m.C) { w << c.v[0]; w.list(Ids(c.v.begin()+1, c.v.end()), 0); w.nl(); }
    std::vector<Ids> bf; static const std::vector<Ids> q2{{0,1},{0,2},{1,3},{2,3}}, q3{{0,2,6,4},{1,3,7,5},{0,1,3,2},{4,5,7,6},{0,4,5,1},{2,6,7,3}};
    std::map<Key, size_t> own; for (size_t i = 0; i < m.F.size(); i++) own[key(m, m.F[i].v)] = m.F[i].owners;
    for (auto& c : m.C) for (auto& q : m.dim == 2 ? q2 : q3) { Ids f; for (auto i : q) f.push_back(c.v[i]); if (own[key(m, f)] == 1) bf.push_back(f); }
    r.shuffle(bf); w << bf.size(); w.nl(); for (auto& f : bf) { w << f[0]; w.list(Ids(f.begin()+1, f.end()), 0); w.nl(); }
    for (auto& c : m.C) c.reg = 0; for (auto& f : m.F) { f.id = 0; f.listed = f.owners == 1; }
    return w.o.str();
}
/* the formats without boundary numbers: by the outward normal on a box, else zero */
static void by_normal(Mdl& m)
{
    bool box = true; static const size_t n2[2][2] = {{3,1},{0,2}}, n3[3][2] = {{2,5},{1,4},{0,3}};
    std::map<size_t, const Cell*> owner; for (auto& c : m.C) for (auto k : c.f) owner[k] = &c;
    for (size_t k = 0; k < m.F.size(); k++) { Face& f = m.F[k]; f.listed = f.owners == 1; f.id = 0; if (f.owners != 1) continue;
        const Cell& c = *owner[k]; X a = m.P[f.v[0]], b = m.P[f.v[1]], n{0,0,0}, mid{0,0,0}; for (auto v : f.v) for (int i = 0; i < 3; i++) mid[i] += m.P[v][i]/f.v.size();
        if (m.dim == 2) { n = {b[1]-a[1], a[0]-b[0], 0}; double l = std::hypot(n[0], n[1]); for (auto& x : n) x /= l; double px = mid[0]+1e-6*l*n[0], py = mid[1]+1e-6*l*n[1]; bool in = false; /* even-odd */
            for (size_t i = 0; i < c.v.size(); i++) { X p = m.P[c.v[i]], q = m.P[c.v[(i+1)%c.v.size()]]; if ((p[1] > py) != (q[1] > py) && px < (q[0]-p[0])*(py-p[1])/(q[1]-p[1])+p[0]) in = !in; } if (in) for (auto& x : n) x = -x; }
        else { for (size_t i = 0; i < f.v.size(); i++) { X p = m.P[f.v[i]], q = m.P[f.v[(i+1)%f.v.size()]]; for (int j = 0; j < 3; j++) { p[j] -= mid[j]; q[j] -= mid[j]; } n[0] += p[1]*q[2]-p[2]*q[1]; n[1] += p[2]*q[0]-p[0]*q[2]; n[2] += p[0]*q[1]-p[1]*q[0]; } double l = std::sqrt(n[0]*n[0]+n[1]*n[1]+n[2]*n[2]); for (auto& x : n) x /= l;
            X g{0,0,0}; for (auto v : c.v) for (int i = 0; i < 3; i++) g[i] += m.P[v][i]/c.v.size(); double s = 0; for (int i = 0; i < 3; i++) s += n[i]*(mid[i]-g[i]); if (s < 0) for (auto& x : n) x = -x; }
        bool ok = false; for (size_t i = 0; i < m.dim; i++) for (int s = 0; s < 2; s++) if ((s ? 1 : -1)*n[i] > 0.99) { ok = true; f.id = m.dim == 2 ? n2[i][s] : n3[i][s]; } box = box && ok; }
    if (!box) for (auto& f : m.F) f.id = 0;
}
static std::string w_fvca5(Mdl& m, Rng& r)
{
    W w(r, false); static const char *nm[] = {"","","","triangles","quadrangles","pentagons","hexagons","ennagons","ettagons"}; bool regs = r.coin(0.5);
    w << " vertices\n " << m.P.size() << "\n"; for (auto& p : m.P) w << "  " << p[0] << "   " << p[1] << "\n";
    std::stable_sort(m.C.begin(), m.C.end(), [](const Cell& a, const Cell& b) { return a.v.size() < b.v.size(); });
    for (auto& f : m.F) f.own.clear(); for (size_t i = 0; i < m.C.size(); i++) for (auto k : m.C[i].f) m.F[k].own.push_back(i+1);
    for (size_t n = 3; n <= 8; n++) { size_t k = 0; for (auto& c : m.C) k += c.v.size() == n; if (!k && r.coin(0.5)) continue; w << (r.coin(0.3) ? "  " : "") << nm[n] << "\n" << k << "\n"; for (auto& c : m.C) if (c.v.size() == n) { w.list(c.v, 1); if (regs) w << " " << c.reg; w << "\n"; } }
    if (!regs) for (auto& c : m.C) c.reg = 0;
    Ids b; for (size_t i = 0; i < m.F.size(); i++) if (m.F[i].owners == 1) b.push_back(i); r.shuffle(b);
    w << "edges of the boundary\n" << b.size() << "\n"; for (auto i : b) w << m.F[i].v[0]+1 << " " << m.F[i].v[1]+1 << "\n";
    w << " all edges\n " << m.F.size() << "\n"; for (auto& f : m.F) { size_t a = f.own[0], c = f.own.size() > 1 ? f.own[1] : 0; if (c && r.coin(0.5)) std::swap(a, c); w << f.v[0]+1 << " " << f.v[1]+1 << " " << a << " " << c << "\n"; }
    by_normal(m); return w.o.str();
}
static std::string w_fvca6(Mdl& m, Rng& r)
{
    W w(r, true); for (int i = 0; i < 16; i++) w << "header line " << i << "\n";
    auto lines = [&](const char *h, auto& v, auto&& get) { w << h; w.nl(); w << v.size(); w.nl(); for (auto& e : v) { auto& l = get(e); w << l.size(); w.list(l, 1); w.nl(); } };
    w << "Vertices"; w.nl(); w << m.P.size(); w.nl(); pts(w, m, 3);
    lines("Volumes->faces", m.C, [](Cell& c) -> Ids& { return c.f; }); lines("Volumes->Verticess", m.C, [](Cell& c) -> Ids& { return c.v; });
    lines("Faces->Edgess", m.F, [](Face& c) -> Ids& { return c.e; }); lines("Faces->Vertices", m.F, [](Face& c) -> Ids& { return c.v; });
    w << "Faces->Control volumes"; w.nl(); w << m.F.size(); w.nl(); for (auto& f : m.F) { w << f.own[0]+1; w.sp(); if (f.owners == 2) w << f.own[1]+1; else w << -1; w.nl(); }
    w << "Edges"; w.nl(); w << m.E.size(); w.nl(); for (auto& e : m.E) { w << e[0]+1; w.sp(); w << e[1]+1; w.nl(); }
    for (auto& c : m.C) c.reg = 0; by_normal(m); return w.o.str();
}
static std::string w_medit2(Mdl& m, Rng& r)
{
    W w(r, true); static const char *nm[] = {"","","","Triangles","Quadrilaterals","Pentagons","Hexagons"};
    w << "MeshVersionFormatted 2"; w.nl(); w << "Dimension 3"; w.nl(); w << "Vertices"; w.nl(); w << m.P.size(); w.nl(); for (auto& p : m.P) { w.x(p[0]); w.sp(); w.x(p[1]); w.sp(); w << 0; w.sp(); w << r.integer(0, 5); w.nl(); }
    for (size_t n = 3; n <= 6; n++) { size_t k = 0; for (auto& c : m.C) k += c.v.size() == n; if (!k) continue; w << nm[n]; w.nl(); w << k; w.nl(); for (auto& c : m.C) if (c.v.size() == n) { w.list(c.v, 1); w.sp(); w << c.reg; w.nl(); } }
    auto b = listed(m, r, true); w << "Edges"; w.nl(); w << b.size(); w.nl(); for (auto i : b) { w.list(m.F[i].v, 1); w.sp(); w << m.F[i].id; w.nl(); }
    w << "End"; w.nl(); return w.o.str();
}
static std::string w_medit3(Mdl& m, Rng& r)
{
    W w(r, true); auto lines = [&](const char *h, auto& v, auto&& get) { w << h; w.nl(); w << v.size(); w.nl(); for (auto& e : v) { auto& l = get(e); w << l.size(); w.list(l, 0); w.nl(); } };
    w << "MeshVersionFormatted 2"; w.nl(); w << "Dimension 3"; w.nl(); w << "Vertices"; w.nl(); w << m.P.size(); w.nl(); pts(w, m, 3);
    lines("Volumes->Faces", m.C, [](Cell& c) -> Ids& { return c.f; }); lines("Volumes->Vertices", m.C, [](Cell& c) -> Ids& { return c.v; });
    lines("Faces->Edges", m.F, [](Face& c) -> Ids& { return c.e; }); lines("Faces->Vertices", m.F, [](Face& c) -> Ids& { return c.v; });
    auto b = listed(m, r, true); w << "Faces->Control volumes"; w.nl(); w << b.size(); w.nl(); for (auto i : b) { w << i; w.sp(); w << m.F[i].id; w.nl(); }
    w << "Edges"; w.nl(); w << m.E.size(); w.nl(); for (auto& e : m.E) { w << e[0]; w.sp(); w << e[1]; w.nl(); }
    for (auto& c : m.C) c.reg = 0; return w.o.str();
}
static std::string w_poly(Mdl& m, Rng& r)
{
    W w(r, true); w << "**BeginMesh"; w.nl(); w << "*Dimension " << m.dim; w.nl(); w << "*Version 1"; w.nl();
    bool mix = r.coin(0.5); auto order = [&](size_t n) { Ids o(n); for (size_t i = 0; i < n; i++) o[i] = i; if (mix) r.shuffle(o); return o; };
    w << "*Nodes"; w.sp(); w << m.P.size(); w.nl(); for (auto i : order(m.P.size())) { w << i; for (double x : m.P[i]) { w.sp(); w.x(x); } w.nl(); }
    auto block = [&](const char *h, size_t n, auto&& get) { w << h; w.sp(); w << n; w.nl(); for (auto i : order(n)) { Ids l = get(i); w << i; w.sp(); w << l.size(); w.list(l, 0); w.nl(); } };
    auto groups = [&](const char *h, std::map<size_t, Ids> g) { if (g.empty()) return; w << h; w.sp(); w << g.size(); w.nl(); for (auto& [id, l] : g) { w << "grp" << id; w.sp(); w << id; w.sp(); w << l.size(); w.list(l, 0); w.nl(); } };
    std::map<size_t, Ids> bg, cg; for (auto i : listed(m, r, true)) bg[m.F[i].id].push_back(i); bool regs = r.coin(0.7); for (size_t i = 0; i < m.C.size(); i++) if (!regs) m.C[i].reg = 0; else cg[m.C[i].reg].push_back(i);
    if (m.dim == 2) { block("*Edges->Nodes", m.F.size(), [&](size_t i) { return m.F[i].v; }); block("*Faces->Nodes", m.C.size(), [&](size_t i) { return m.C[i].v; }); block("*Faces->Edges", m.C.size(), [&](size_t i) { return m.C[i].f; }); groups("*Edges->Groups", bg); groups("*Faces->Groups", cg); }
    else { block("*Edges->Nodes", m.E.size(), [&](size_t i) { return Ids{m.E[i][0], m.E[i][1]}; }); block("*Faces->Nodes", m.F.size(), [&](size_t i) { return m.F[i].v; }); block("*Faces->Edges", m.F.size(), [&](size_t i) { return m.F[i].e; });
        block("*Volumes->Nodes", m.C.size(), [&](size_t i) { return m.C[i].v; }); block("*Volumes->Faces", m.C.size(), [&](size_t i) { return m.C[i].f; }); groups("*Faces->Groups", bg); groups("*Volumes->Groups", cg); }
    w << "**EndMesh"; w.nl(); return w.o.str();
}

