// Mesh families used as workloads. Two sources: diskpp's own generators
// (simple_mesher, fvca5 hex mesher) and builders of the same storage layout the
// loaders produce, for shapes the generators do not make.
#pragma once
#include <array>
#include <map>
#include <set>
#include <vector>
#include "mon.hpp"
#include "diskpp/mesh/mesh.hpp"
#include "diskpp/geometry/geometry.hpp"
#include "diskpp/mesh/meshgen.hpp"

namespace vm {
using T = double;
using g1_t = disk::generic_mesh<T,1>;
using s2_t = disk::simplicial_mesh<T,2>;
using c2_t = disk::cartesian_mesh<T,2>;
using g2_t = disk::generic_mesh<T,2>;
using s3_t = disk::simplicial_mesh<T,3>;
using c3_t = disk::cartesian_mesh<T,3>;
using g3_t = disk::generic_mesh<T,3>;

template<typename M> struct mname;
template<> struct mname<g1_t> { static constexpr const char *v = "1d"; };
template<> struct mname<s2_t> { static constexpr const char *v = "tri"; };
template<> struct mname<c2_t> { static constexpr const char *v = "quad"; };
template<> struct mname<g2_t> { static constexpr const char *v = "poly"; };
template<> struct mname<s3_t> { static constexpr const char *v = "tet"; };
template<> struct mname<c3_t> { static constexpr const char *v = "hex"; };
template<> struct mname<g3_t> { static constexpr const char *v = "polyhedra"; };

/* ---------------------------------------------------------------- raw data */
struct Poly2 { std::vector<disk::point<T,2>> pts; std::vector<std::vector<size_t>> cells; std::vector<size_t> dom; };
struct Poly3 { std::vector<disk::point<T,3>> pts; std::vector<std::vector<std::vector<size_t>>> cells; std::vector<size_t> dom; };

inline T area2(const Poly2& p, const std::vector<size_t>& c)
{
    T a = 0;
    for (size_t i = 0; i < c.size(); i++) {
        auto& q = p.pts[c[i]]; auto& r = p.pts[c[(i+1)%c.size()]];
        a += q.x()*r.y() - r.x()*q.y();
    }
    return 0.5*a;
}

/* nx x ny quads on the unit square, CCW */
inline Poly2 grid2(size_t nx, size_t ny)
{
    Poly2 p;
    for (size_t j = 0; j <= ny; j++) for (size_t i = 0; i <= nx; i++)
        p.pts.push_back(disk::point<T,2>(T(i)/nx, T(j)/ny));
    auto id = [&](size_t i, size_t j) { return j*(nx+1)+i; };
    for (size_t j = 0; j < ny; j++) for (size_t i = 0; i < nx; i++)
        p.cells.push_back({id(i,j), id(i+1,j), id(i+1,j+1), id(i,j+1)});
    return p;
}

inline bool on_unit_boundary(const disk::point<T,2>& q)
{ return q.x() < 1e-12 || q.x() > 1-1e-12 || q.y() < 1e-12 || q.y() > 1-1e-12; }

/* move interior points only */
inline void jiggle(Poly2& p, mon::Rng& r, T amp)
{
    for (auto& q : p.pts) if (!on_unit_boundary(q))
        q = disk::point<T,2>(q.x() + amp*r.real(-1,1), q.y() + amp*r.real(-1,1));
}

/* Refine a random subset of the quads 2x2: the neighbours become pentagons,
   hexagons... with collinear (hanging) vertices. */
inline Poly2 hanging2(size_t nx, size_t ny, mon::Rng& r)
{
    Poly2 g = grid2(nx, ny), p; p.pts = g.pts;
    std::vector<bool> ref(g.cells.size());
    for (size_t i = 0; i < ref.size(); i++) ref[i] = r.coin(0.35);
    ref[r.integer(0, ref.size()-1)] = true;
    std::map<std::pair<size_t,size_t>, size_t> mid;
    auto key = [](size_t a, size_t b) { return std::make_pair(std::min(a,b), std::max(a,b)); };
    auto midof = [&](size_t a, size_t b) {
        auto k = key(a,b);
        if (!mid.count(k)) { mid[k] = p.pts.size(); p.pts.push_back((p.pts[a]+p.pts[b])*0.5); }
        return mid[k];
    };
    for (size_t c = 0; c < ref.size(); c++) if (ref[c])
        for (size_t i = 0; i < 4; i++) midof(g.cells[c][i], g.cells[c][(i+1)%4]);
    for (size_t c = 0; c < ref.size(); c++) {
        auto& q = g.cells[c];
        if (ref[c]) {
            size_t ctr = p.pts.size();
            p.pts.push_back((p.pts[q[0]]+p.pts[q[1]]+p.pts[q[2]]+p.pts[q[3]])*0.25);
            for (size_t i = 0; i < 4; i++)
                p.cells.push_back({q[i], midof(q[i], q[(i+1)%4]), ctr, midof(q[(i+3)%4], q[i])});
        } else {
            std::vector<size_t> nc;
            for (size_t i = 0; i < 4; i++) {
                nc.push_back(q[i]);
                auto k = key(q[i], q[(i+1)%4]);
                if (mid.count(k)) nc.push_back(mid[k]);
            }
            p.cells.push_back(nc);
        }
    }
    return p;
}

/* Mixed triangles / quads / L-shaped hexagons: agglomerate and split grid cells */
inline Poly2 mixed2(size_t nx, size_t ny, mon::Rng& r, bool lshapes)
{
    Poly2 g = grid2(nx, ny), p; p.pts = g.pts;
    auto id = [&](size_t i, size_t j) { return j*(nx+1)+i; };
    std::vector<bool> used(nx*ny, false);
    if (lshapes) for (size_t j = 0; j+1 < ny; j += 2) for (size_t i = 0; i+1 < nx; i += 2) if (r.coin(0.6)) {
        /* 2x2 block: one square corner kept, the other three agglomerated */
        size_t a=id(i,j), b=id(i+1,j), c=id(i+2,j), d=id(i,j+1), e=id(i+1,j+1), f=id(i+2,j+1), h=id(i,j+2), k=id(i+1,j+2), l=id(i+2,j+2);
        switch (r.integer(0,3)) {
            case 0: p.cells.push_back({a,b,e,d}); p.cells.push_back({b,c,f,l,k,h,d,e}); break;
            case 1: p.cells.push_back({b,c,f,e}); p.cells.push_back({a,b,e,f,l,k,h,d}); break;
            case 2: p.cells.push_back({e,f,l,k}); p.cells.push_back({a,b,c,f,e,k,h,d}); break;
            default: p.cells.push_back({d,e,k,h}); p.cells.push_back({a,b,c,f,l,k,e,d}); break;
        }
        used[j*nx+i]=used[j*nx+i+1]=used[(j+1)*nx+i]=used[(j+1)*nx+i+1]=true;
    }
    for (size_t j = 0; j < ny; j++) for (size_t i = 0; i < nx; i++) {
        if (used[j*nx+i]) continue;
        size_t a=id(i,j), b=id(i+1,j), c=id(i+1,j+1), d=id(i,j+1);
        if (r.coin(0.4)) { p.cells.push_back({a,b,c}); p.cells.push_back({a,c,d}); }
        else if (i+1 < nx && !used[j*nx+i+1] && r.coin(0.4)) {
            p.cells.push_back({a,b,id(i+2,j),id(i+2,j+1),c,d}); used[j*nx+i+1] = true;
        }
        else p.cells.push_back({a,b,c,d});
    }
    return p;
}

inline void canonical(Poly2& p, mon::Rng& r)
{
    /* CCW cells starting from a random vertex; shuffled point numbering */
    std::vector<size_t> perm(p.pts.size());
    for (size_t i = 0; i < perm.size(); i++) perm[i] = i;
    r.shuffle(perm);
    std::vector<disk::point<T,2>> np(p.pts.size());
    for (size_t i = 0; i < perm.size(); i++) np[perm[i]] = p.pts[i];
    p.pts = np;
    for (auto& c : p.cells) {
        for (auto& v : c) v = perm[v];
        std::rotate(c.begin(), c.begin() + r.integer(0, c.size()-1), c.end());
    }
    r.shuffle(p.cells);
}

inline void build(const Poly2& p, g2_t& msh)
{
    using edge_type = g2_t::edge_type; using node_type = g2_t::node_type; using surface_type = g2_t::surface_type;
    auto st = msh.backend_storage();
    for (size_t i = 0; i < p.pts.size(); i++) {
        st->points.push_back(p.pts[i]);
        st->nodes.push_back(node_type(disk::point_identifier<2>(i)));
    }
    std::map<std::pair<size_t,size_t>, size_t> eid; std::map<std::pair<size_t,size_t>, int> cnt;
    auto key = [](size_t a, size_t b) { return std::make_pair(std::min(a,b), std::max(a,b)); };
    for (auto& c : p.cells) for (size_t i = 0; i < c.size(); i++) { auto k = key(c[i], c[(i+1)%c.size()]); eid[k] = 0; cnt[k]++; }
    size_t n = 0;
    for (auto& [k, v] : eid) {
        v = n++;
        st->edges.push_back(edge_type(node_type::id_type(k.first), node_type::id_type(k.second)));
        st->boundary_info.push_back(cnt[k] == 1 ? disk::boundary_descriptor(0, true) : disk::boundary_descriptor());
    }
    std::vector<std::pair<surface_type, size_t>> sf;
    for (size_t ci = 0; ci < p.cells.size(); ci++) {
        auto& c = p.cells[ci];
        std::vector<edge_type::id_type> es;
        std::vector<size_t> raw;
        for (size_t i = 0; i < c.size(); i++) raw.push_back(eid[key(c[i], c[(i+1)%c.size()])]);
        std::sort(raw.begin(), raw.end());
        for (auto e : raw) es.push_back(edge_type::id_type(e));
        surface_type s(es);
        s.set_point_ids(c.begin(), c.end());
        sf.push_back({s, p.dom.empty() ? 0 : p.dom[ci]});
    }
    std::sort(sf.begin(), sf.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& s : sf) { st->surfaces.push_back(s.first); st->subdomain_info.push_back(disk::subdomain_descriptor(s.second)); }
    disk::mark_internal_faces(msh);
}

inline void build(const Poly3& p, g3_t& msh)
{
    using edge_type = g3_t::edge_type; using node_type = g3_t::node_type;
    using surface_type = g3_t::surface_type; using volume_type = g3_t::volume_type;
    auto st = msh.backend_storage();
    for (size_t i = 0; i < p.pts.size(); i++) {
        st->points.push_back(p.pts[i]);
        st->nodes.push_back(node_type(disk::point_identifier<3>(i)));
    }
    std::map<std::pair<size_t,size_t>, size_t> eid;
    auto key = [](size_t a, size_t b) { return std::make_pair(std::min(a,b), std::max(a,b)); };
    auto srt = [](std::vector<size_t> v) { std::sort(v.begin(), v.end()); return v; };
    std::map<std::vector<size_t>, std::vector<size_t>> faces; std::map<std::vector<size_t>, int> cnt;
    for (auto& c : p.cells) for (auto& f : c) {
        auto k = srt(f); if (!faces.count(k)) faces[k] = f; cnt[k]++;
        for (size_t i = 0; i < f.size(); i++) eid[key(f[i], f[(i+1)%f.size()])] = 0;
    }
    size_t n = 0;
    for (auto& [k, v] : eid) { v = n++; st->edges.push_back(edge_type(node_type::id_type(k.first), node_type::id_type(k.second))); }
    /* faces sorted by their sorted edge ids */
    std::vector<std::pair<std::vector<size_t>, std::vector<size_t>>> fl; // (edge ids, key)
    for (auto& [k, f] : faces) {
        std::vector<size_t> es;
        for (size_t i = 0; i < f.size(); i++) es.push_back(eid[key(f[i], f[(i+1)%f.size()])]);
        fl.push_back({srt(es), k});
    }
    std::sort(fl.begin(), fl.end());
    std::map<std::vector<size_t>, size_t> fid;
    for (size_t i = 0; i < fl.size(); i++) {
        std::vector<edge_type::id_type> es; for (auto e : fl[i].first) es.push_back(edge_type::id_type(e));
        surface_type s(es);
        auto& f = faces[fl[i].second];
        s.set_point_ids(f.begin(), f.end());
        st->surfaces.push_back(s);
        st->boundary_info.push_back(cnt[fl[i].second] == 1 ? disk::boundary_descriptor(0, true) : disk::boundary_descriptor());
        fid[fl[i].second] = i;
    }
    std::vector<std::pair<volume_type, size_t>> vl;
    for (size_t ci = 0; ci < p.cells.size(); ci++) {
        std::vector<size_t> fs; std::set<size_t> vs;
        for (auto& f : p.cells[ci]) { fs.push_back(fid[srt(f)]); vs.insert(f.begin(), f.end()); }
        fs = srt(fs);
        std::vector<surface_type::id_type> ids; for (auto f : fs) ids.push_back(surface_type::id_type(f));
        volume_type v(ids);
        v.set_point_ids(vs.begin(), vs.end());
        vl.push_back({v, p.dom.empty() ? 0 : p.dom[ci]});
    }
    std::sort(vl.begin(), vl.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& v : vl) { st->volumes.push_back(v.first); st->subdomain_info.push_back(disk::subdomain_descriptor(v.second)); }
    disk::mark_internal_faces(msh);
}

/* Extrude a polygonal mesh between tilted planes z = z_k + a_k x + b_k y */
inline Poly3 extrude(const Poly2& p, size_t layers, mon::Rng& r, T tilt)
{
    Poly3 q;
    size_t np = p.pts.size();
    T x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300;
    for (auto& v : p.pts) { x0 = std::min(x0, v.x()); x1 = std::max(x1, v.x()); y0 = std::min(y0, v.y()); y1 = std::max(y1, v.y()); }
    for (size_t k = 0; k <= layers; k++) {
        T a = (k == 0 || k == layers) ? 0 : r.real(-tilt, tilt), b = (k == 0 || k == layers) ? 0 : r.real(-tilt, tilt);
        for (auto& v : p.pts) q.pts.push_back(disk::point<T,3>(v.x(), v.y(), T(k)/layers + a*((v.x()-x0)/(x1-x0)-0.5) + b*((v.y()-y0)/(y1-y0)-0.5)));
    }
    for (size_t k = 0; k < layers; k++) for (auto& c : p.cells) {
        std::vector<std::vector<size_t>> fs;
        std::vector<size_t> bot, top;
        for (auto v : c) { bot.push_back(k*np+v); top.push_back((k+1)*np+v); }
        for (size_t i = 0; i < c.size(); i++) {
            size_t j = (i+1)%c.size();
            fs.push_back({bot[i], bot[j], top[j], top[i]});
        }
        fs.push_back(bot); fs.push_back(top);
        q.cells.push_back(fs);
    }
    return q;
}

template<typename M3> Poly3 to_poly3(const M3& m)
{
    /* faces of a simplicial or cartesian mesh, taken from diskpp's own faces() */
    Poly3 q;
    for (auto it = m.points_begin(); it != m.points_end(); ++it) q.pts.push_back(*it);
    for (auto& cl : m) {
        std::vector<std::vector<size_t>> fs;
        for (auto& fc : faces(m, cl)) { std::vector<size_t> f; for (auto p : fc.point_ids()) f.push_back(p); fs.push_back(f); }
        q.cells.push_back(fs);
    }
    return q;
}

inline void build_tensor(c2_t& m, const std::vector<T>& xs, const std::vector<T>& ys)
{
    using E = c2_t::edge_type; using S = c2_t::surface_type; using N = c2_t::node_type;
    auto st = m.backend_storage(); size_t nx = xs.size()-1, ny = ys.size()-1;
    auto id = [&](size_t i, size_t j) { return size_t(j*(nx+1)+i); };
    for (size_t j = 0; j <= ny; j++) for (size_t i = 0; i <= nx; i++) {
        st->points.push_back(disk::point<T,2>(xs[i], ys[j])); st->nodes.push_back(N({id(i,j)}));
    }
    std::vector<std::pair<E, disk::boundary_descriptor>> es;
    for (size_t j = 0; j <= ny; j++) for (size_t i = 0; i < nx; i++)
        es.push_back({E({id(i,j), id(i+1,j)}), j==0 ? disk::boundary_descriptor(0,true) : j==ny ? disk::boundary_descriptor(2,true) : disk::boundary_descriptor()});
    for (size_t j = 0; j < ny; j++) for (size_t i = 0; i <= nx; i++)
        es.push_back({E({id(i,j), id(i,j+1)}), i==0 ? disk::boundary_descriptor(3,true) : i==nx ? disk::boundary_descriptor(1,true) : disk::boundary_descriptor()});
    std::sort(es.begin(), es.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& e : es) { st->edges.push_back(e.first); st->boundary_info.push_back(e.second); }
    for (size_t j = 0; j < ny; j++) for (size_t i = 0; i < nx; i++)
        st->surfaces.push_back(S({id(i,j), id(i+1,j), id(i,j+1), id(i+1,j+1)}));
    std::sort(st->surfaces.begin(), st->surfaces.end());
    st->subdomain_info.resize(st->surfaces.size());
}

inline void build_tensor(c3_t& m, const std::vector<T>& xs, const std::vector<T>& ys, const std::vector<T>& zs)
{
    using E = c3_t::edge_type; using S = c3_t::surface_type; using V = c3_t::volume_type; using N = c3_t::node_type;
    auto st = m.backend_storage(); size_t nx = xs.size()-1, ny = ys.size()-1, nz = zs.size()-1;
    auto id = [&](size_t i, size_t j, size_t k) { return size_t((k*(ny+1)+j)*(nx+1)+i); };
    for (size_t k = 0; k <= nz; k++) for (size_t j = 0; j <= ny; j++) for (size_t i = 0; i <= nx; i++) {
        st->points.push_back(disk::point<T,3>(xs[i], ys[j], zs[k])); st->nodes.push_back(N({id(i,j,k)}));
    }
    std::map<std::array<size_t,4>, std::pair<int,size_t>> fs; std::set<std::array<size_t,2>> es;
    for (size_t k = 0; k < nz; k++) for (size_t j = 0; j < ny; j++) for (size_t i = 0; i < nx; i++) {
        size_t p[8] = { id(i,j,k), id(i+1,j,k), id(i,j+1,k), id(i+1,j+1,k), id(i,j,k+1), id(i+1,j,k+1), id(i,j+1,k+1), id(i+1,j+1,k+1) };
        st->volumes.push_back(V({p[0],p[1],p[2],p[3],p[4],p[5],p[6],p[7]}));
        std::array<size_t,4> f[6] = { {p[0],p[2],p[6],p[4]}, {p[1],p[3],p[7],p[5]}, {p[0],p[1],p[3],p[2]}, {p[4],p[5],p[7],p[6]}, {p[0],p[4],p[5],p[1]}, {p[2],p[6],p[7],p[3]} };
        for (size_t q = 0; q < 6; q++) { auto& x = fs[f[q]]; x.first++; x.second = q; }
        for (auto& e : { std::array<size_t,2>{p[0],p[1]}, {p[2],p[3]}, {p[4],p[5]}, {p[6],p[7]}, {p[0],p[2]}, {p[1],p[3]}, {p[4],p[6]}, {p[5],p[7]}, {p[0],p[4]}, {p[1],p[5]}, {p[2],p[6]}, {p[3],p[7]} }) es.insert(e);
    }
    std::sort(st->volumes.begin(), st->volumes.end());
    for (auto& e : es) st->edges.push_back(E({e[0], e[1]}));
    for (auto& [f, x] : fs) {
        st->surfaces.push_back(S({f[0],f[1],f[2],f[3]}));
        st->boundary_info.push_back(x.first == 1 ? disk::boundary_descriptor(x.second, true) : disk::boundary_descriptor());
    }
    st->subdomain_info.resize(st->volumes.size());
}

inline std::vector<T> graded(size_t n, mon::Rng& r, T jig)
{
    std::vector<T> x(n+1);
    for (size_t i = 0; i <= n; i++) x[i] = T(i)/n + ((i && i < n) ? jig/n*r.real(-1,1) : 0.0);
    return x;
}

/* ------------------------------------------------------- affine transforms */
template<size_t D> struct Affine {
    Eigen::Matrix<T,D,D> A; Eigen::Matrix<T,D,1> b;
    disk::point<T,D> operator()(const disk::point<T,D>& p) const {
        Eigen::Matrix<T,D,1> x; for (size_t i = 0; i < D; i++) x(i) = p[i];
        x = A*x + b; disk::point<T,D> q; for (size_t i = 0; i < D; i++) q[i] = x(i); return q;
    }
};
template<size_t D> Eigen::Matrix<T,D,D> rotation(mon::Rng& r)
{
    Eigen::Matrix<T,D,D> Q = Eigen::Matrix<T,D,D>::Identity();
    for (size_t i = 0; i < D; i++) for (size_t j = i+1; j < D; j++) {
        T a = r.real(0, 2*M_PI); Eigen::Matrix<T,D,D> G = Eigen::Matrix<T,D,D>::Identity();
        G(i,i)=std::cos(a); G(j,j)=std::cos(a); G(i,j)=-std::sin(a); G(j,i)=std::sin(a); Q = Q*G;
    }
    return Q;
}
/* kind 0 identity, 1 translation+scaling, 2 rotation+translation, 3 moderate
   shear, 4 axis scaling, 5 reflection */
template<size_t D> Affine<D> affine(mon::Rng& r, int kind)
{
    Affine<D> f; f.A.setIdentity(); f.b.setZero();
    if (kind == 0) return f;
    for (size_t i = 0; i < D; i++) f.b(i) = r.real(-2, 2);
    if (kind == 1) f.A *= std::pow(10.0, r.real(-1.5, 1.5));
    if (kind == 2) f.A = rotation<D>(r);
    if (kind == 3) for (size_t i = 0; i < D; i++) for (size_t j = 0; j < D; j++) if (i < j) f.A(i,j) = r.real(-0.6, 0.6);
    if (kind == 4) for (size_t i = 0; i < D; i++) f.A(i,i) = r.real(0.4, 2.5);
    if (kind == 5) { f.A = rotation<D>(r); f.A.col(0) *= -1; }
    return f;
}

template<typename M> struct Made { M msh; std::string desc; };

/* ------------------------------------------------------------ the families */
inline size_t nvariants(const g1_t&) { return 3; }
inline size_t nvariants(const s2_t&) { return 4; }
inline size_t nvariants(const c2_t&) { return 3; }
inline size_t nvariants(const g2_t&) { return 6; }
inline size_t nvariants(const s3_t&) { return 3; }
inline size_t nvariants(const c3_t&) { return 2; }
inline size_t nvariants(const g3_t&) { return 5; }

/* true if affine maps with rotation/shear keep the cells admissible */
template<typename M> constexpr bool general_affine() { return !std::is_same_v<M, c2_t> && !std::is_same_v<M, c3_t> && !std::is_same_v<M, g1_t>; }

inline std::string make(g1_t& m, mon::Rng& r, int v, size_t n)
{
    using E = g1_t::edge_type; using N = g1_t::node_type;
    n = std::max<size_t>(n, 1);
    auto st = m.backend_storage();
    T a = v == 0 ? 0 : r.real(-3, 1), b = v == 0 ? 1 : a + r.real(0.3, 4);
    auto x = graded(n, r, v == 2 ? 0.4 : 0.0);
    for (size_t i = 0; i <= n; i++) {
        st->points.push_back(disk::point<T,1>(a + (b-a)*x[i])); st->nodes.push_back(N(disk::point_identifier<1>(i)));
        st->boundary_info.push_back((i == 0 || i == n) ? disk::boundary_descriptor(i == 0 ? 0 : 1, true) : disk::boundary_descriptor());
    }
    for (size_t i = 0; i < n; i++) st->edges.push_back(E(N::id_type(i), N::id_type(i+1)));
    st->subdomain_info.resize(n);
    return mon::cat("1d", v, "n", n);
}

template<typename M, size_t D> void jiggle_simplices(M& m, mon::Rng& r, T amp, const std::vector<bool>& fixed)
{
    auto st = m.backend_storage();
    for (size_t i = 0; i < st->points.size(); i++) if (!fixed[i]) {
        disk::point<T,D> p = st->points[i];
        for (size_t d = 0; d < D; d++) p[d] += amp*r.real(-1,1);
        st->points[i] = p;
    }
}
template<typename M> std::vector<bool> boundary_points(const M& m)
{
    auto st = m.backend_storage(); std::vector<bool> f(st->points.size(), false);
    size_t i = 0;
    for (auto it = m.faces_begin(); it != m.faces_end(); ++it, i++) if (st->boundary_info[i].is_boundary())
        for (auto p : (*it).point_ids()) f[p] = true;
    return f;
}

/* the same simplicial mesh with its points in a random order, which shuffles faces and cells too */
template<typename E, typename I> void permute_elements(std::vector<E>& es, std::vector<I> *info, const std::vector<size_t>& to)
{
    std::vector<std::pair<E, I>> out;
    for (size_t i = 0; i < es.size(); i++) {
        auto ids = es[i].point_ids(); E n;
        if constexpr (std::tuple_size_v<decltype(ids)> == 2) n = E({to[ids[0]], to[ids[1]]});
        else if constexpr (std::tuple_size_v<decltype(ids)> == 3) n = E({to[ids[0]], to[ids[1]], to[ids[2]]});
        else n = E({to[ids[0]], to[ids[1]], to[ids[2]], to[ids[3]]});
        out.push_back({n, info && i < info->size() ? (*info)[i] : I()});
    }
    std::sort(out.begin(), out.end(), [](const auto& a, const auto& b) { return a.first < b.first; });
    for (size_t i = 0; i < es.size(); i++) { es[i] = out[i].first; if (info && i < info->size()) (*info)[i] = out[i].second; }
}
template<typename M> void renumber(M& m, mon::Rng& r)
{
    auto st = m.backend_storage(); std::vector<size_t> to(st->points.size()); for (size_t i = 0; i < to.size(); i++) to[i] = i; r.shuffle(to);
    auto old = st->points; for (size_t i = 0; i < to.size(); i++) st->points[to[i]] = old[i];
    if constexpr (M::dimension == 2) { permute_elements(st->edges, &st->boundary_info, to); permute_elements(st->surfaces, &st->subdomain_info, to); }
    else { permute_elements(st->edges, (std::vector<int> *)nullptr, to); permute_elements(st->surfaces, &st->boundary_info, to); permute_elements(st->volumes, &st->subdomain_info, to); }
}
inline std::string make(s2_t& m, mon::Rng& r, int v, size_t lvl)
{
    auto mesher = disk::make_simple_mesher(m);
    for (size_t i = 0; i < lvl; i++) mesher.refine();
    if (v >= 1) jiggle_simplices<s2_t,2>(m, r, 0.12/(1<<lvl), boundary_points(m));
    if (v >= 2) { auto f = affine<2>(r, v); m.transform([&](const disk::point<T,2>& p) { return f(p); }); }
    if (v == 1 ? r.coin(0.5) : v > 1) renumber(m, r);
    return mon::cat("tri", v, "l", lvl);
}
inline std::string make(c2_t& m, mon::Rng& r, int v, size_t lvl)
{
    if (v == 0) { auto mesher = disk::make_simple_mesher(m); for (size_t i = 0; i+1 < lvl; i++) mesher.refine(); return mon::cat("quad0l", lvl); }
    size_t nx = r.integer(1, 1+2*lvl), ny = r.integer(1, 1+2*lvl);
    auto xs = graded(nx, r, 0.35), ys = graded(ny, r, 0.35);
    if (v == 2) { T a = r.real(-2,2), b = r.real(-2,2), s = r.real(0.2,3), t = r.real(0.2,3); for (auto& x : xs) x = a+s*x; for (auto& y : ys) y = b+t*y; }
    build_tensor(m, xs, ys);
    return mon::cat("quad", v, "n", nx, "x", ny);
}
/* convex: no jiggling that could bend aligned vertices inwards */
inline std::string make_poly(Poly2& p, mon::Rng& r, int v, size_t lvl, bool convex = false)
{
    size_t n = 1 + lvl;
    switch (v) {
        case 1: p = grid2(n, n+1); jiggle(p, r, 0.2/(n+1)); break;
        case 2: p = hanging2(n, n, r); break;
        case 3: p = mixed2(2*((n+1)/2), 2*((n+1)/2), r, false); if (!convex) jiggle(p, r, 0.08/(n+1)); break;
        case 4: p = hanging2(n, n, r); break;
        case 5: p = mixed2(2*((n+1)/2), 2*((n+1)/2), r, true); break;
        default: p = grid2(n, n); break;
    }
    if (v == 4) { auto f = affine<2>(r, r.coin() ? 2 : 3); for (auto& q : p.pts) q = f(q); }
    if (v >= 2) canonical(p, r);
    return mon::cat("poly", v, "c", p.cells.size());
}
/* one cell, star-shaped with respect to its centroid, with most of its vertices on a few spikes */
inline std::string make_star(g2_t& m, mon::Rng& r)
{
    for (;;) {
        size_t core = r.integer(3, 7), spike = r.integer(0, core-1), k = r.integer(1, 5), spike2 = r.coin(0.3) ? (spike+2)%core : core; std::vector<disk::point<T,2>> q; T w = 2*M_PI/core, R = r.real(1.5, 4), phase = r.real(0, 6.28);
        auto put = [&](T a, T rho) { q.push_back(disk::point<T,2>(rho*std::cos(a+phase), rho*std::sin(a+phase))); };
        for (size_t i = 0; i < core; i++) { put(w*i, r.real(0.8, 1.1)); if (i != spike && i != spike2) continue; T half = w*r.real(0.02, 0.3), mid = w*(i+r.real(0.4, 0.6)); for (size_t j = 0; j <= 2*k; j++) { T t = (T(j)-T(k))/k; put(mid+half*t, 0.7+(R-0.7)*(1-std::abs(t))+(R-0.7)*0.2*t*t*(1-t*t)); } }
        T A = 0, cx = 0, cy = 0; size_t n = q.size(); for (size_t i = 0; i < n; i++) { auto& a = q[i]; auto& b = q[(i+1)%n]; T c = a.x()*b.y()-b.x()*a.y(); A += c/2; cx += (a.x()+b.x())*c/6; cy += (a.y()+b.y())*c/6; } cx /= A; cy /= A;
        bool ok = A > 0.5; for (size_t i = 0; i < n && ok; i++) { T ax = q[i].x()-cx, ay = q[i].y()-cy, bx = q[(i+1)%n].x()-cx, by = q[(i+1)%n].y()-cy; ok = ax*by-ay*bx > 0.01*std::hypot(bx-ax, by-ay); } if (!ok) continue;
        T s = std::pow(10., r.integer(-2, 2)), x = r.real(-3, 3), y = r.real(-3, 3); Poly2 p; std::vector<size_t> c; for (auto& z : q) { p.pts.push_back(disk::point<T,2>(s*(z.x()+x), s*(z.y()+y))); c.push_back(c.size()); } p.cells.push_back(c); build(p, m); return mon::cat("star", n, "spikes", 1+(spike2 < core)); }
}
inline std::string make(g2_t& m, mon::Rng& r, int v, size_t lvl)
{
    if (v == 0) {
        auto h = disk::make_fvca5_hex_mesher(m); h.make_level(lvl ? lvl-1 : 0);
        return mon::cat("fvca5hex", lvl ? lvl-1 : 0);
    }
    Poly2 p; auto d = make_poly(p, r, v, lvl); build(p, m); return d;
}
inline std::string make(s3_t& m, mon::Rng& r, int v, size_t lvl)
{
    auto mesher = disk::make_simple_mesher(m);
    for (size_t i = 0; i < lvl; i++) mesher.refine();
    if (v >= 1) {
        jiggle_simplices<s3_t,3>(m, r, 0.1/(1<<lvl), boundary_points(m));
        auto f = affine<3>(r, v == 1 ? 1 : (r.coin() ? 2 : 3)); m.transform([&](const disk::point<T,3>& p) { return f(p); });
    }
    if (v >= 1) renumber(m, r);
    return mon::cat("tet", v, "l", lvl);
}
inline std::string make(c3_t& m, mon::Rng& r, int v, size_t lvl)
{
    size_t nx = r.integer(1, 1+lvl), ny = r.integer(1, 1+lvl), nz = r.integer(1, 1+lvl);
    auto xs = graded(nx, r, v ? 0.35 : 0), ys = graded(ny, r, v ? 0.35 : 0), zs = graded(nz, r, v ? 0.35 : 0);
    if (v == 1) { T a = r.real(-2,2); for (auto& x : xs) x = a+1.7*x; T s = r.real(0.3,2); for (auto& z : zs) z = s*z-1; }
    build_tensor(m, xs, ys, zs);
    return mon::cat("hex", v, "n", nx, "x", ny, "x", nz);
}
inline std::string make(g3_t& m, mon::Rng& r, int v, size_t lvl)
{
    Poly3 q; std::string d;
    if (v == 0) { c3_t c; d = make(c, r, 1, lvl); q = to_poly3(c); }
    else if (v == 1) { s3_t s; d = make(s, r, 1, lvl > 1 ? 1 : 0); q = to_poly3(s); }
    else { Poly2 p; d = make_poly(p, r, v, lvl, true); q = extrude(p, 1 + (lvl > 1), r, 0.15); }
    if (v == 3) { auto f = affine<3>(r, 2); for (auto& p : q.pts) p = f(p); }
    if (v == 4) { auto f = affine<3>(r, 1); for (auto& p : q.pts) p = f(p); }
    build(q, m);
    return "ph" + mon::cat(v) + d;
}

template<typename M> std::string cell_sig(const M& m, const typename M::cell& cl)
{
    return mon::cat(mname<M>::v, "/v", points(m, cl).size(), "/f", howmany_faces(m, cl));
}

/* point inside helpers */
template<typename M> constexpr size_t dim() { return M::dimension; }
template<size_t D> Eigen::Matrix<T,D,1> vec(const disk::point<T,D>& p) { Eigen::Matrix<T,D,1> v; for (size_t i = 0; i < D; i++) v(i) = p[i]; return v; }

} // namespace vm
