// C27: what is written is what was given. Every family is written to the silo
// format and read back with the silo library (PART 1); post-processing meshes
// and their conversion are compared with the mesh they come from (PART 2);
// text dumps are read back (PART 3).
#include <filesystem>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include "mon.hpp"
#include "meshes.hpp"
#include "topo.hpp"
#include "oracle.hpp"
#if PART == 1
#include <silo.h>
#include "diskpp/mesh/rational.hpp"
/* the n-th write to the library fails, as on a full disk */
namespace inj { inline int left = -1, fired = 0; template<typename F> int call(F&& f) { if (left == 0) { left = -1; fired++; return -1; } if (left > 0) left--; return f(); } }
#define DBPutUcdvar1(...) inj::call([&] { return DBPutUcdvar1(__VA_ARGS__); })
#define DBPutUcdvar(...) inj::call([&] { return DBPutUcdvar(__VA_ARGS__); })
#define DBPutUcdmesh(...) inj::call([&] { return DBPutUcdmesh(__VA_ARGS__); })
#define DBPutZonelist(...) inj::call([&] { return DBPutZonelist(__VA_ARGS__); })
#define DBPutZonelist2(...) inj::call([&] { return DBPutZonelist2(__VA_ARGS__); })
#define DBPutPHZonelist(...) inj::call([&] { return DBPutPHZonelist(__VA_ARGS__); })
#define DBPutDefvars(...) inj::call([&] { return DBPutDefvars(__VA_ARGS__); })
#define DBPutPointmesh(...) inj::call([&] { return DBPutPointmesh(__VA_ARGS__); })
#define DBPutPointvar(...) inj::call([&] { return DBPutPointvar(__VA_ARGS__); })
#define DBPutPointvar1(...) inj::call([&] { return DBPutPointvar1(__VA_ARGS__); })
#include "diskpp/output/silo.hpp"
#elif PART == 2
#include "diskpp/output/gmshConvertMesh.hpp"
#else
#include <iomanip>
#include "diskpp/loaders/loader.hpp"
#include "diskpp/mesh/mesh_hierarchy.hpp"
#include "diskpp/output/hdf5_io.hpp"
#endif
using namespace mon; using namespace vm; using T = double;
static std::string dir;
struct Hush { std::streambuf *o, *e; std::ostringstream s; Hush() { o = std::cout.rdbuf(s.rdbuf()); e = std::cerr.rdbuf(s.rdbuf()); } ~Hush() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
using Ids = std::vector<size_t>;

template<typename E> Ids pids(const E& e) { Ids r; for (auto p : e.point_ids()) r.push_back(p); return r; }
inline Ids srt(Ids v) { std::sort(v.begin(), v.end()); return v; }
using V3 = Eigen::Matrix<T,3,1>;
template<size_t D> V3 v3(const disk::point<T,D>& p) { V3 v = V3::Zero(); for (size_t i = 0; i < D; i++) v(i) = p[i]; return v; }

#if PART == 1
struct Db { DBfile *f; Db(const std::string& n) { f = DBOpen(n.c_str(), DB_PDB, DB_READ); } ~Db() { if (f) DBClose(f); } };
template<typename S> std::vector<T> values(const void *p, int n) { std::vector<T> r; for (int i = 0; i < n; i++) r.push_back(((const S *)p)[i]); return r; }
inline std::vector<T> values(const void *p, int type, int n) { return type == DB_DOUBLE ? values<double>(p, n) : type == DB_FLOAT ? values<float>(p, n) : std::vector<T>(); }
template<typename M> Ids face_key(const M& m, const typename M::face& f) { return srt(pids(f)); }

template<typename M> void zones_polygons(const M& m, const DBzonelist *z, const std::string& k, const std::string& d)
{
    if (!check(k+"zones", z && z->nzones == (int)m.cells_size() && z->ndims == 2, d)) return;
    std::set<Ids> fk; size_t s = 0, used = 0; std::vector<int> sz; for (int i = 0; i < z->nshapes; i++) for (int j = 0; j < z->shapecnt[i]; j++) sz.push_back(z->shapesize[i]);
    if (!check(k+"zones.counted", sz.size() == m.cells_size(), d)) return;
    for (auto& cl : m) {
        Ids n; for (int j = 0; j < sz[s] && used < (size_t)z->lnodelist; j++) n.push_back(z->nodelist[used++]-z->origin);
        check(k+"zone.nodes", srt(n) == srt(pids(cl)), d);
        auto fcs = faces(m, cl); std::set<Ids> a, b; for (auto& f : fcs) a.insert(face_key(m, f)); for (size_t j = 0; j < n.size(); j++) b.insert(srt({n[j], n[(j+1)%n.size()]}));
        check(k+"zone.outline", a == b, d); s++;
    }
    check(k+"zones.all-nodes", (int)used == z->lnodelist, d);
}
template<typename M> void zones_hex(const M& m, const DBzonelist *z, const std::string& k, const std::string& d)
{
    if (!check(k+"zones", z && z->nzones == (int)m.cells_size() && z->ndims == 3 && z->nshapes == 1 && z->shapesize[0] == 8 && z->shapetype[0] == DB_ZONETYPE_HEX && z->lnodelist == 8*z->nzones, d)) return;
    static const int F[6][4] = {{0,1,2,3},{4,5,6,7},{0,1,5,4},{1,2,6,5},{2,3,7,6},{3,0,4,7}}; size_t u = 0;
    for (auto& cl : m) { Ids n; for (int j = 0; j < 8; j++) n.push_back(z->nodelist[u++]-z->origin); check(k+"zone.nodes", srt(n) == srt(pids(cl)), d); auto fcs = faces(m, cl); std::set<Ids> a, b; for (auto& f : fcs) a.insert(face_key(m, f)); for (auto& f : F) b.insert(srt({n[f[0]], n[f[1]], n[f[2]], n[f[3]]})); check(k+"zone.faces", a == b, d);
        /* and the cycles are cycles: opposite corners of a quadrilateral are further apart than neighbours in a box */
        auto P = [&](int j) { return v3(*std::next(m.points_begin(), n[j])); }; bool ok = true; for (auto& f : F) ok &= (P(f[0])+P(f[2])-P(f[1])-P(f[3])).norm() < 1e-9*(P(f[0])-P(f[2])).norm(); check(k+"zone.parallelograms", ok, d); }
}
template<typename M> void zones_tet(const M& m, const DBzonelist *z, const std::string& k, const std::string& d)
{
    if (!check(k+"zones", z && z->nzones == (int)m.cells_size() && z->ndims == 3 && z->nshapes == 1 && z->shapesize[0] == 4 && z->shapetype[0] == DB_ZONETYPE_TET && z->lnodelist == 4*z->nzones, d)) return;
    size_t u = 0; for (auto& cl : m) { Ids n; for (int j = 0; j < 4; j++) n.push_back(z->nodelist[u++]-z->origin); check(k+"zone.nodes", srt(n) == srt(pids(cl)), d); }
}
inline void zones_ph(const g3_t& m, const DBphzonelist *z, const std::string& k, const std::string& d)
{
    if (!check(k+"zones", z && z->nzones == (int)m.cells_size() && z->nfaces == (int)m.faces_size(), d)) return;
    std::vector<Ids> fl; int u = 0; for (int i = 0; i < z->nfaces; i++) { Ids n; for (int j = 0; j < z->nodecnt[i] && u < z->lnodelist; j++) n.push_back(z->nodelist[u++]-z->origin); fl.push_back(n); }
    check(k+"faces.all-nodes", u == z->lnodelist, d); size_t i = 0; for (auto itor = m.faces_begin(); itor != m.faces_end(); ++itor, i++) check(k+"face.nodes", fl[i] == pids(*itor), d);
    auto P = [&](size_t j) { return v3(*std::next(m.points_begin(), j)); }; u = 0; size_t c = 0; std::map<int,int> sum;
    for (auto& cl : m) { std::set<size_t> a, b; auto fcs = faces(m, cl); for (auto& f : fcs) a.insert(offset(m, f)); T vol = 0; V3 o = v3(barycenter(m, cl)); bool range = true, outward = true; std::string bad;
        for (int j = 0; j < z->facecnt[c]; j++) { int f = z->facelist[u++], s = 1; if (f < 0) { f = ~f; s = -1; } if (f >= z->nfaces) { range = false; continue; } b.insert(f); sum[f] += s; V3 n = V3::Zero(), q = V3::Zero(); auto& l = fl[f]; for (size_t p = 0; p < l.size(); p++) { n += (P(l[p])-o).cross(P(l[(p+1)%l.size()])-o)/2; q += P(l[p])/l.size(); } if (s*n.dot(q-o) < 0) { outward = false; bad = cat(l.size(), " nodes"); } vol += s*n.dot(q-o)/3; }
        check(k+"zone.faces", range && a == b, d); check(k+"zone.faces-outward", outward, d+" face with "+bad); same(k+"zone.enclosed-volume", vol, measure(m, cl), 1e-7, 0, d); c++; }
    size_t f = 0; for (auto itor = m.faces_begin(); itor != m.faces_end(); ++itor, f++) if (!m.is_boundary(*itor)) check(k+"face.opposite-senses", sum[f] == 0, d);
}
template<typename M> void coordinates(const M& m, const DBucdmesh *u, const std::string& k, const std::string& d)
{
    constexpr int D = M::dimension; if (!check(k+"coordinates.count", u->ndims == D && u->nnodes == (int)m.points_size(), d)) return; bool ok = true;
    for (int a = 0; a < D; a++) { auto x = values(u->coords[a], u->datatype, u->nnodes); ok &= x.size() == m.points_size(); size_t i = 0; if (ok) for (auto it = m.points_begin(); it != m.points_end(); ++it, i++) ok &= x[i] == T((*it)[a]); } check(k+"coordinates", ok, d);
}
/* what was accepted can be read back unchanged, what was refused cannot */
inline void variable(const std::string& file, bool accepted, const std::string& name, const std::string& mesh, const std::vector<T>& want, int centering, const std::string& k, const std::string& d)
{
    Db db(file); if (!check(k+"reopened", db.f != nullptr, d)) return; DBucdvar *v = DBGetUcdvar(db.f, name.c_str());
    check(k+"variable.reported", accepted == (v != nullptr), cat(d, " ", name, accepted ? " accepted" : " refused")); if (!v) return;
    auto mn = (char *)DBGetVar(db.f, (name+"_meshid").c_str()); (void)mn; if (mn) free(mn); check(k+"variable.size", v->nels == (int)want.size() && v->nvals == 1, d+" "+name); check(k+"variable.centering", v->centering == centering, d+" "+name); check(k+"variable.mesh", v->meshname && (std::string(v->meshname) == mesh || std::string(v->meshname) == "/"+mesh), d+" "+name); if (v->nels == (int)want.size()) check(k+"variable.values", values(v->vals[0], v->datatype, v->nels) == want, d+" "+name); DBFreeUcdvar(v);
}
inline void vector_expression(const std::string& file, bool accepted, const std::string& name, int comps, const std::string& k, const std::string& d)
{
    Db db(file); DBdefvars *e = DBGetDefvars(db.f, ("def_"+name).c_str()); check(k+"expression.reported", accepted == (e != nullptr), d); if (!e) return; std::string s; for (const char *c = e->defns[0]; *c; c++) if (!isspace((unsigned char)*c)) s += *c; std::string w = "{"; for (int i = 0; i < comps; i++) w += (i ? "," : "")+name+"_"+"xyz"[i]; check(k+"expression", e->ndefs == 1 && e->names[0] == name && e->types[0] == DB_VARTYPE_VECTOR && s == w+"}", d+" "+s); DBFreeDefvars(e);
}
template<typename M> void silo(const M& mm)
{
    const std::string F = mname<M>::v; constexpr int D = M::dimension;
    for (int v = 0; v < (int)nvariants(mm)+(std::is_same_v<M,g2_t> ? 1 : 0); v++) for (size_t it = 0; it < n_of(2, 8); it++) run_case(cat("silo/", F, "/", v, "/", it), [&](Rng& r) {
        M m; std::string d; if constexpr (std::is_same_v<M,g2_t>) d = v == (int)nvariants(m) ? make_star(m, r) : make(m, r, v, it%3 ? 2 : 1); else d = make(m, r, v, it%3 ? 1 : 0); if constexpr (std::is_same_v<M,s2_t> || std::is_same_v<M,s3_t>) if (it%2) renumber(m, r); std::string file = dir+cat("/", F, v, "_", it, ".silo"), mn = it%2 ? "mesh" : "m_2"; Hush h; auto k = "silo."+F+".";
        disk::silo_database db; check(k+"created", db.create(file), d); check(k+"mesh-accepted", db.add_mesh(m, mn), d);
        auto rv = [&](size_t n) { Eigen::Matrix<T,Eigen::Dynamic,1> x(n); for (size_t i = 0; i < n; i++) x(i) = r.coin(0.1) ? 0.0 : r.normal()*std::pow(10., r.integer(-3,3)); return x; }; auto std_ = [](const Eigen::Matrix<T,Eigen::Dynamic,1>& x) { return std::vector<T>(x.data(), x.data()+x.size()); };
        struct W { bool ok; std::string n; std::vector<T> v; int c; }; std::vector<W> ws; std::vector<std::tuple<bool,std::string,int>> es;
        for (int q = 0; q < 2; q++) { auto cn = q ? disk::nodal_variable_t : disk::zonal_variable_t; int dc = q ? DB_NODECENT : DB_ZONECENT; size_t n = q ? m.points_size() : m.cells_size(); std::string s = q ? "n" : "z";
            for (int i = 0; i < (int)r.integer(1, 4); i++) { auto x = rv(n); auto nm = cat("u", i, s); ws.push_back({db.add_variable(mn, nm, x, cn), nm, std_(x), dc}); }
            { auto x = std_(rv(n)); auto nm = "vec"+s; ws.push_back({db.add_variable(mn, nm, x, cn), nm, x, dc}); }
            { Eigen::Matrix<float,Eigen::Dynamic,1> x = rv(n).template cast<float>(); auto nm = "flt"+s; std::vector<T> w; for (size_t i = 0; i < n; i++) w.push_back(x(i)); ws.push_back({db.add_variable(mn, nm, x, cn), nm, w, dc}); }
            { Eigen::Matrix<T,Eigen::Dynamic,2> x(n,2); x.col(0) = rv(n); x.col(1) = rv(n); auto nm = "two"+s; bool ok = db.add_variable(mn, nm, x, cn); for (int c = 0; c < 2; c++) ws.push_back({ok, nm+"_"+"xyz"[c], std_(x.col(c)), dc}); es.push_back({ok, nm, 2}); }
            { Eigen::Matrix<T,Eigen::Dynamic,3> x(n,3); for (int c = 0; c < 3; c++) x.col(c) = rv(n); auto nm = "three"+s; bool ok = db.add_variable(mn, nm, x, cn); for (int c = 0; c < 3; c++) ws.push_back({ok, nm+"_"+"xyz"[c], std_(x.col(c)), dc}); es.push_back({ok, nm, 3}); }
            { auto x = std_(rv(n)); auto nm = "old"+s; bool ok; std::vector<std::complex<T>> z; for (auto a : x) z.push_back({a, r.real(-1,1)}); std::vector<T> im; for (auto& a : z) im.push_back(a.imag()); bool okc; if (q) { disk::silo_nodal_variable<T> o(nm, x); ok = db.add_variable(mn, o); disk::silo_nodal_variable<std::complex<T>> c("cpx"+s, z); okc = db.add_variable(mn, c); } else { disk::silo_zonal_variable<T> o(nm, x); ok = db.add_variable(mn, o); disk::silo_zonal_variable<std::complex<T>> c("cpx"+s, z); okc = db.add_variable(mn, c); }
              ws.push_back({ok, nm, x, dc}); ws.push_back({okc, "cpx"+s+"_real", x, dc}); ws.push_back({okc, "cpx"+s+"_imag", im, dc}); } }
        for (auto& w : ws) check(k+"variable-accepted", w.ok, d+" "+w.n);
        bool ex = db.add_expression("sum", "<u0n>+<flt"+std::string("n>"), DB_VARTYPE_SCALAR); check(k+"expression-accepted", ex, d); check(k+"closed", db.close(), d); check(k+"closed-twice", db.close(), d);
        { bool a = db.add_mesh(m, "late"), b = db.add_variable(mn, "late", rv(m.cells_size()), disk::zonal_variable_t); auto x = std_(rv(m.cells_size())); bool c = db.add_variable(mn, "late", (const std::vector<T>&)x, disk::zonal_variable_t); Eigen::Matrix<T,Eigen::Dynamic,2> y = Eigen::Matrix<T,Eigen::Dynamic,2>::Zero(m.cells_size(), 2); bool e = db.add_variable(mn, "late", y, disk::zonal_variable_t); Eigen::Matrix<T,Eigen::Dynamic,3> y3 = Eigen::Matrix<T,Eigen::Dynamic,3>::Zero(m.cells_size(), 3); bool e3 = db.add_variable(mn, "late", y3, disk::zonal_variable_t); check(k+"closed-refuses.mesh", !a); check(k+"closed-refuses.variable", !b && !c); check(k+"closed-refuses.vector", !e && !e3); check(k+"closed-refuses.expression", !db.add_expression("a", "b", DB_VARTYPE_SCALAR)); disk::silo_zonal_variable<T> o("late", x); check(k+"closed-refuses.old", !db.add_variable(mn, o)); }
        /* add to the finished file */
        { disk::silo_database ap; check(k+"appended", ap.open(file), d); auto x = rv(m.cells_size()); ws.push_back({ap.add_variable(mn, "more", x, disk::zonal_variable_t), "more", std_(x), DB_ZONECENT}); check(k+"variable-accepted", ws.back().ok); }
        { Db f(file); if (!check(k+"reopened", f.f != nullptr, d)) return; DBucdmesh *u = DBGetUcdmesh(f.f, mn.c_str()); if (check(k+"mesh-read", u != nullptr, d)) { coordinates(m, u, k, d); if constexpr (D == 2) zones_polygons(m, u->zones, k, d); else if constexpr (std::is_same_v<M,c3_t>) zones_hex(m, u->zones, k, d); else if constexpr (std::is_same_v<M,s3_t>) zones_tet(m, u->zones, k, d); else zones_ph(m, u->phzones, k, d); DBFreeUcdmesh(u); }
          DBdefvars *e = DBGetDefvars(f.f, "def_sum"); if (check(k+"expression.kept", e && e->ndefs == 1 && e->names[0] == std::string("sum") && e->types[0] == DB_VARTYPE_SCALAR && e->defns[0] == std::string("<u0n>+<fltn>"), d)) DBFreeDefvars(e); }
        for (auto& w : ws) variable(file, w.ok, w.n, mn, w.v, w.c, k, d); for (auto& [ok, n, c] : es) vector_expression(file, ok, n, c, k, d);
        sig(cat("silo/", F, "/", v, "/", m.cells_size(), "/", ws.size())); unlink(file.c_str()); });
}
/* single precision meshes */
template<template<typename,size_t,typename> class MM, size_t D, typename S> void noop(const MM<float,D,S>&) {}
inline void points_and_float()
{
    for (size_t it = 0; it < n_of(6, 40); it++) run_case(cat("silo/points/", it), [&](Rng& r) { Hush h; std::string file = dir+cat("/p", it, ".silo"); disk::silo_database db; check("silo.points.created", db.create(file)); size_t n = r.integer(1, 60); auto go = [&](auto one, int type) { using S = decltype(one); std::vector<disk::point<S,2>> p; for (size_t i = 0; i < n; i++) p.push_back(disk::point<S,2>(S(r.normal()), S(r.normal()))); std::string nm = type == DB_FLOAT ? "pf" : "pd"; check("silo.points.accepted", db.add_mesh(p, nm)); std::vector<T> a, b; std::vector<std::vector<T>> q(r.integer(1,3)); for (auto& x : q) for (size_t i = 0; i < n; i++) x.push_back(r.normal()); for (size_t i = 0; i < n; i++) a.push_back(r.normal()); check("silo.points.variable-accepted", db.add_variable(nm, nm+"_a", a) && db.add_variable(nm, nm+"_q", q)); db.close();
        { Db f(file); DBpointmesh *m = DBGetPointmesh(f.f, nm.c_str()); if (check("silo.points.read", m && m->ndims == 2 && m->nels == (int)n)) { bool ok = true; for (int c = 0; c < 2; c++) { auto x = values(m->coords[c], m->datatype, n); ok &= x.size() == n; for (size_t i = 0; i < n && ok; i++) ok &= x[i] == T(p[i][c]); } check("silo.points.coordinates", ok); DBFreePointmesh(m); }
          DBmeshvar *w = DBGetPointvar(f.f, (nm+"_a").c_str()); if (check("silo.points.variable-read", w && w->nvals == 1 && w->nels == (int)n)) { check("silo.points.values", values(w->vals[0], w->datatype, n) == a); DBFreeMeshvar(w); } w = DBGetPointvar(f.f, (nm+"_q").c_str()); if (check("silo.points.vector-read", w && w->nvals == (int)q.size() && w->nels == (int)n)) { bool ok = true; for (size_t c = 0; c < q.size(); c++) ok &= values(w->vals[c], w->datatype, n) == q[c]; check("silo.points.vector-values", ok); DBFreeMeshvar(w); } }
        check("silo.points.reopen", db.open(file)); }; go(1.0, DB_DOUBLE); go(1.0f, DB_FLOAT);
        db.close(); std::vector<T> a(n, 1.0); std::vector<std::vector<T>> q(2, a), none; check("silo.points.closed-refuses", !db.add_variable("pd", "x", a) && !db.add_variable("pd", "x", q)); check("silo.points.reopen", db.open(file)); check("silo.points.none", !db.add_variable("pd", "x", none)); q[1].pop_back(); check("silo.points.ragged", !db.add_variable("pd", "y", q)); unlink(file.c_str()); sig(cat("points/", n)); });
    for (size_t it = 0; it < n_of(4, 20); it++) run_case(cat("silo/float/", it), [&](Rng& r) { Hush h; auto go = [&](auto m, std::string nm) { using M = decltype(m); constexpr int D = M::dimension; auto mesher = disk::make_simple_mesher(m); for (long i = 0; i < r.integer(0, 2); i++) mesher.refine(); float s = r.real(0.3, 3); m.transform([&](const typename M::point_type& p) { return p*s; }); std::string file = dir+"/"+nm+".silo"; disk::silo_database db; check("silo.float.accepted", db.create(file) && db.add_mesh(m, nm)); db.close(); { Db f(file); DBucdmesh *u = DBGetUcdmesh(f.f, nm.c_str()); if (check("silo.float.read", u != nullptr)) { coordinates(m, u, "silo.float.", nm); if constexpr (D == 2) zones_polygons(m, u->zones, "silo.float.", nm); DBFreeUcdmesh(u); } } unlink(file.c_str()); sig(cat("float/", nm, "/", m.cells_size())); };
        go(disk::simplicial_mesh<float,2>(), "fs2"); go(disk::simplicial_mesh<float,3>(), "fs3"); go(disk::cartesian_mesh<float,2>(), "fc2"); });
}
inline void refusals()
{
    run_case("silo/refusals", [&](Rng& r) { Hush h; std::string k = "silo.refuses."; g2_t g; make(g, r, 1, 1); s2_t s; make(s, r, 1, 1); g3_t p; make(p, r, 0, 0); c2_t c; make(c, r, 1, 1); c3_t c3; make(c3, r, 0, 0); s3_t s3; make(s3, r, 0, 0);
        { disk::silo_database db; Eigen::Matrix<T,Eigen::Dynamic,1> x = Eigen::Matrix<T,Eigen::Dynamic,1>::Ones(g.cells_size()); check(k+"never-opened", !db.add_mesh(g, "m") && !db.add_variable("m", "u", x, disk::zonal_variable_t)); check(k+"never-opened.expression", !db.add_expression("a", "b", DB_VARTYPE_SCALAR)); }
        /* names silo cannot store: the answer must agree with what the file has */
        std::string file = dir+"/names.silo"; disk::silo_database db; db.create(file); db.add_mesh(g, "m"); size_t n = g.cells_size(); struct W { bool ok; std::string n; std::vector<T> v; }; std::vector<W> ws; std::vector<std::tuple<bool,std::string,int>> es; int q = 0;
        for (std::string bad : {"ok_name"}) { Eigen::Matrix<T,Eigen::Dynamic,1> x(n); for (size_t i = 0; i < n; i++) x(i) = r.real(-1,1); std::vector<T> w(x.data(), x.data()+n); ws.push_back({db.add_variable("m", bad, x, disk::zonal_variable_t), bad, w}); std::string b2 = bad.empty() ? bad : bad+"v"; ws.push_back({db.add_variable("m", b2, (const std::vector<T>&)w, disk::zonal_variable_t), b2, w}); std::string b3 = bad.empty() ? bad : bad+"o"; disk::silo_zonal_variable<T> o(b3, w); ws.push_back({db.add_variable("m", o), b3, w}); if (!bad.empty()) { Eigen::Matrix<T,Eigen::Dynamic,2> y(n,2); y.col(0) = x; y.col(1) = -x; bool ok = db.add_variable("m", bad+"t", y, disk::zonal_variable_t); std::vector<T> w2(y.data()+n, y.data()+2*n); ws.push_back({ok, bad+"t_x", w}); ws.push_back({ok, bad+"t_y", w2}); es.push_back({ok, bad+"t", 2}); Eigen::Matrix<T,Eigen::Dynamic,3> y3(n,3); y3 << x, -x, x; ok = db.add_variable("m", bad+"h", y3, disk::zonal_variable_t); ws.push_back({ok, bad+"h_z", w}); es.push_back({ok, bad+"h", 3}); std::vector<std::complex<T>> z; for (auto a : w) z.push_back({a, -a}); disk::silo_zonal_variable<std::complex<T>> oc(bad+"c", z); ok = db.add_variable("m", oc); ws.push_back({ok, bad+"c_real", w}); } q++; }
        db.close(); for (auto& w : ws) if (!w.n.empty()) variable(file, w.ok, w.n, "m", w.v, DB_ZONECENT, k+"names.", "'"+w.n+"'"); for (auto& w : ws) if (w.n.empty()) check(k+"empty-name", !w.ok); for (auto& [ok, nm, cc] : es) vector_expression(file, ok, nm, cc, k+"names.", nm);
        /* every single write fails in turn: the answer says so */
        { std::string f2 = dir+"/keep.silo"; disk::silo_database d2; d2.create(f2); size_t nn = g.cells_size(); Eigen::Matrix<T,Eigen::Dynamic,1> x = Eigen::Matrix<T,Eigen::Dynamic,1>::Ones(nn); Eigen::Matrix<T,Eigen::Dynamic,2> x2 = Eigen::Matrix<T,Eigen::Dynamic,2>::Ones(nn,2); Eigen::Matrix<T,Eigen::Dynamic,3> x3 = Eigen::Matrix<T,Eigen::Dynamic,3>::Ones(nn,3); std::vector<T> w(nn, 2.); std::vector<std::vector<T>> ww(2, w); std::vector<std::complex<T>> zc(nn, 1.); int q = 0; std::vector<disk::point<T,2>> pp(nn);
          auto each = [&](const std::string& what, auto f) { for (int n = 0; n < 8; n++) { inj::left = n; inj::fired = 0; bool ok = f(cat("n", q++)); bool hit = inj::fired > 0; inj::left = -1; check(k+"failed-write."+what, ok == !hit, cat("write ", n)); if (!hit) break; if (n == 7) skip("more writes than expected"); } sig("failed-write/"+what); };
          each("mesh.poly", [&](std::string n) { return d2.add_mesh(g, n); }); each("mesh.tri", [&](std::string n) { return d2.add_mesh(s, n); }); each("mesh.quad", [&](std::string n) { return d2.add_mesh(c, n); }); each("mesh.polyhedra", [&](std::string n) { return d2.add_mesh(p, n); }); each("mesh.hex", [&](std::string n) { return d2.add_mesh(c3, n); }); each("mesh.tet", [&](std::string n) { return d2.add_mesh(s3, n); }); each("mesh.points", [&](std::string n) { return d2.add_mesh(pp, n); });
          for (auto cn : {disk::zonal_variable_t, disk::nodal_variable_t}) { std::string z = cn == disk::zonal_variable_t ? ".zonal" : ".nodal"; each("variable"+z, [&](std::string n) { return d2.add_variable("m", n, x, cn); }); each("two"+z, [&](std::string n) { return d2.add_variable("m", n, x2, cn); }); each("three"+z, [&](std::string n) { return d2.add_variable("m", n, x3, cn); }); each("vector"+z, [&](std::string n) { return d2.add_variable("m", n, (const std::vector<T>&)w, cn); }); }
          each("old.zonal", [&](std::string n) { disk::silo_zonal_variable<T> o(n, w); return d2.add_variable("m", o); }); each("old.nodal", [&](std::string n) { disk::silo_nodal_variable<T> o(n, w); return d2.add_variable("m", o); }); each("complex.zonal", [&](std::string n) { disk::silo_zonal_variable<std::complex<T>> o(n, zc); return d2.add_variable("m", o); }); each("complex.nodal", [&](std::string n) { disk::silo_nodal_variable<std::complex<T>> o(n, zc); return d2.add_variable("m", o); });
          each("expression", [&](std::string n) { return d2.add_expression(n, "<u>", DB_VARTYPE_SCALAR); }); each("point-variable", [&](std::string n) { return d2.add_variable("pm", n, w); }); each("point-vector", [&](std::string n) { return d2.add_variable("pm", n, ww); }); }
        /* re-creating a database through the same object starts again and keeps the first file readable */
        { disk::silo_database d2; std::string a = dir+"/one.silo", b = dir+"/two.silo"; check(k+"switch", d2.create(a) && d2.add_mesh(g, "m") && d2.create(b) && d2.add_mesh(g, "m") && d2.close()); for (auto f : {a, b}) { Db o(f); DBucdmesh *u = o.f ? DBGetUcdmesh(o.f, "m") : nullptr; if (check(k+"switch.read", u != nullptr, f)) DBFreeUcdmesh(u); } }
        sig("refusals"); });
    /* last: the library itself does not recover well from a file it could not open */
    run_case("silo/unwritable", [&](Rng& r) { Hush h; std::string k = "silo.refuses."; g2_t g; make(g, r, 1, 1); s2_t s; make(s, r, 1, 1); g3_t p; make(p, r, 0, 0); c2_t c; make(c, r, 1, 1); c3_t c3; make(c3, r, 0, 0); s3_t s3; make(s3, r, 0, 0);
        for (auto f : {dir+"/no/such/directory/x.silo", dir, std::string("")}) { disk::silo_database db; check(k+"create", !db.create(f), f); check(k+"mesh", !db.add_mesh(g, "m") && !db.add_mesh(s, "m") && !db.add_mesh(p, "m") && !db.add_mesh(c, "m") && !db.add_mesh(c3, "m") && !db.add_mesh(s3, "m"), f); check(k+"close", db.close()); }
        { std::ofstream(dir+"/text.silo") << "this is not a database\n"; disk::silo_database db; check(k+"open-text", !db.open(dir+"/text.silo")); check(k+"open-missing", !db.open(dir+"/missing.silo")); }
        sig("unwritable"); });
}
#endif

#if PART == 2
template<typename M> T simplex_measure(const std::vector<V3>& p) { if constexpr (M::dimension == 2) return ((p[1]-p[0]).cross(p[2]-p[0]))(2)/2; else return (p[1]-p[0]).dot((p[2]-p[0]).cross(p[3]-p[0]))/6; }
/* the simplices cover the cell once: measures of absolute value and of
   low-order moments add up to those of the cell */
template<size_t D> struct Moments { T m = 0; V3 f = V3::Zero(); T h = 0; void add(const std::vector<V3>& p) { T a = D == 1 ? (p[1]-p[0]).norm() : D == 2 ? std::abs((p[1]-p[0]).cross(p[2]-p[0])(2))/2 : std::abs((p[1]-p[0]).dot((p[2]-p[0]).cross(p[3]-p[0])))/6; V3 c = V3::Zero(); for (auto& x : p) c += x; m += a; f += a*c/p.size(); T s = c.squaredNorm(); for (auto& x : p) s += x.squaredNorm(); h += a*s/(p.size()*(p.size()+1)); } };
template<size_t D> void same_moments(const std::string& k, const Moments<D>& a, const Moments<D>& b, const std::string& d) { T s = b.m*(1+std::sqrt(b.h/b.m)); near(k+".measure", std::abs(a.m-b.m)/b.m, 1e-7, d); near(k+".first-moment", (a.f-b.f).norm()/s, 1e-7, d); near(k+".second-moment", std::abs(a.h-b.h)/(b.m+b.h), 1e-7, d); }
/* independent moments of a cell: signed fan around the origin of the outline (2D), of the faces (3D) */
template<typename M> std::vector<Ids> outline(const M& m, const typename M::cell& cl)
{
    auto fcs = faces(m, cl); std::vector<Ids> loops; auto cyc = [&](const std::vector<Ids>& e) { std::map<size_t,std::vector<size_t>> nb; for (auto& x : e) { nb[x[0]].push_back(x[1]); nb[x[1]].push_back(x[0]); } Ids l{e[0][0]}; size_t prev = e[0][0], cur = e[0][1]; while (cur != l[0] && l.size() <= e.size()) { l.push_back(cur); size_t nx = nb[cur][0] == prev ? nb[cur][1] : nb[cur][0]; prev = cur; cur = nx; } return l; };
    if constexpr (M::dimension == 2) { std::vector<Ids> e; for (auto& f : fcs) e.push_back(pids(f)); loops.push_back(cyc(e)); }
    else for (auto& f : fcs) { Ids l = pids(f); loops.push_back(l); }
    return loops;
}
template<typename M> Moments<M::dimension> cell_moments(const M& m, const typename M::cell& cl)
{
    constexpr size_t D = M::dimension; Moments<D> r; auto P = [&](size_t j) { return v3(*std::next(m.points_begin(), j)); }; auto L = outline(m, cl); V3 o = v3(barycenter(m, cl));
    auto acc = [&](T a, std::vector<V3> p) { V3 c = V3::Zero(); for (auto& x : p) c += x; T s = c.squaredNorm(); for (auto& x : p) s += x.squaredNorm(); r.m += a; r.f += a*c/p.size(); r.h += a*s/(p.size()*(p.size()+1)); };
    if constexpr (D == 2) { auto& l = L[0]; T sg = 0; for (size_t i = 0; i < l.size(); i++) sg += (P(l[i])-o).cross(P(l[(i+1)%l.size()])-o)(2); sg = sg < 0 ? -1 : 1; for (size_t i = 0; i < l.size(); i++) { V3 a = P(l[i]), b = P(l[(i+1)%l.size()]); acc(sg*((a-o).cross(b-o))(2)/2, {o,a,b}); } }
    else for (auto& l : L) { V3 n = V3::Zero(); for (size_t i = 0; i < l.size(); i++) n += (P(l[i])-o).cross(P(l[(i+1)%l.size()])-o); V3 q = P(l[0]); T sg = n.dot(q-o) < 0 ? -1 : 1; for (size_t i = 1; i+1 < l.size(); i++) { V3 a = P(l[i]), b = P(l[i+1]); acc(sg*(q-o).dot((a-o).cross(b-o))/6, {o,q,a,b}); } }
    return r;
}
template<typename M> void post(const M& mm)
{
    const std::string F = mname<M>::v; constexpr size_t D = M::dimension;
    for (int v = 0; v < (int)nvariants(mm)+(std::is_same_v<M,g2_t> ? 1 : 0); v++) for (size_t it = 0; it < n_of(3, 12); it++) run_case(cat("post/", F, "/", v, "/", it), [&](Rng& r) {
        M m; std::string d; bool star = false; if constexpr (std::is_same_v<M,g2_t>) { star = v == (int)nvariants(m); d = star ? make_star(m, r) : make(m, r, v, it%3 ? 2 : 1); } else d = make(m, r, v, it%3 ? 1 : 0); if constexpr (std::is_same_v<M,s2_t> || std::is_same_v<M,s3_t>) if (it%2) renumber(m, r); if (it%3 == 2) { T s = std::pow(10., r.integer(-5, 3)); m.transform([&](const typename M::point_type& p) { return p*s; }); d += cat(" scaled ", s); }
        auto k = "post."+F+"."; disk::PostMesh<M> pm(m); auto pmesh = pm.mesh(); auto st = pmesh.backend_storage(); auto P = [&](size_t j) { return v3(st->points.at(j)); };
        bool kept = st->points.size() >= m.points_size() && st->nodes.size() == st->points.size(); size_t i = 0; if (kept) for (auto it2 = m.points_begin(); it2 != m.points_end(); ++it2, i++) kept &= (v3(*it2)-P(i)).norm() == 0; check(k+"points-kept", kept, d); if (!kept) return;
        bool nid = true; for (size_t q = 0; q < st->nodes.size(); q++) nid &= size_t(st->nodes[q].point_ids()[0]) == q; check(k+"nodes", nid, d);
        check(k+"edges-kept", st->edges.size() == m.backend_storage()->edges.size(), d);
        /* simplices come cell by cell: cut the list where the measure is complete */
        std::vector<Ids> sx; if constexpr (D == 2) for (auto& s : st->surfaces) sx.push_back(pids(s)); else for (auto& s : st->volumes) sx.push_back(pids(s));
        std::map<size_t,std::vector<size_t>> byset; size_t c = 0, u = 0; T tot = 0, want = 0; std::vector<size_t> cnt(st->points.size(), 0);
        for (auto& cl : m) { auto nodes = pm.nodes_cell(c); Ids nn; for (auto x : nodes) nn.push_back(x); std::set<size_t> ns(nn.begin(), nn.end()); auto own = pids(cl); bool sub = true; for (auto x : own) sub &= ns.count(x) > 0; check(k+"cell-nodes", sub && ns.size() == nn.size(), d);
            auto w = cell_moments(m, cl); Moments<D> got; size_t n0 = u; while (u < sx.size()) { bool in = true; for (auto x : sx[u]) in &= ns.count(x) > 0; if (!in || got.m > w.m*(1-1e-7)) break; std::vector<V3> p; for (auto x : sx[u]) p.push_back(P(x)); got.add(p); u++; }
            same_moments<D>(k+"cell", got, w, cat(d, " cell ", c, " pieces ", u-n0)); std::set<size_t> used; for (size_t q = n0; q < u; q++) for (auto x : sx[q]) used.insert(x); if (D == 3) check(k+"cell-nodes.used", used == ns, d); c++; tot += got.m; want += w.m; }
        check(k+"no-extra-pieces", u == sx.size(), cat(d, " ", sx.size()-u, " more"));
        /* added points are where the cell and its faces are */
        /* conversion of the post-processing mesh */
        auto g = disk::convertMesh(pm); bool cok = g.getNumberofNodes() == st->points.size(); for (size_t q = 0; q < st->points.size() && cok; q++) { auto n = g.getNode(q); V3 x(n.getCoordinate()[0], n.getCoordinate()[1], n.getCoordinate()[2]); cok &= (x-P(q)).norm() == 0 && n.getIndex() == q+1; } check("convert.post."+F+".nodes", cok, d); check("convert.post."+F+".vertices", g.getVertices().size() == st->points.size() && g.getEdges().size() == st->edges.size(), d);
        bool eok = true; for (size_t q = 0; q < g.getEdges().size() && q < st->edges.size(); q++) { auto a = g.getEdges()[q].getNodes(); auto b = pids(st->edges[q]); eok &= srt(a) == srt({b[0]+1, b[1]+1}); } check("convert.post."+F+".edges", eok, d);
        { std::vector<Ids> el; if constexpr (D == 2) for (auto& t : g.getTriangles()) el.push_back(t.getNodes()); else for (auto& t : g.getTetrahedra()) el.push_back(t.getNodes()); bool same = el.size() == sx.size(), pos = true; for (size_t q = 0; q < el.size() && same; q++) { Ids e = el[q]; std::vector<V3> p; for (auto& x : e) { x--; p.push_back(P(x)); } same &= srt(e) == srt(sx[q]); T a = simplex_measure<M>(p); T sz = (p[1]-p[0]).norm()*(p[2]-p[0]).norm(); pos &= a >= -1e-9*sz*(D == 3 ? (p[M::dimension]-p[0]).norm() : 1); } check("convert.post."+F+".elements", same, d); check("convert.post."+F+".orientation", pos, d); }
        /* conversion of the mesh itself */
        if (!star && D >= 2) { Hush h; auto g2 = disk::convertMesh(m); std::string kk = "convert."+F+"."; bool ok = g2.getNumberofNodes() == m.points_size(); for (size_t q = 0; q < m.points_size() && ok; q++) { auto x = g2.getNode(q).getCoordinate(); V3 y(x[0], x[1], x[2]); ok &= (y-P(q)).norm() == 0 && g2.getNode(q).getIndex() == q+1; } check(kk+"nodes", ok, d); std::set<size_t> idx; auto see = [&](auto& l) { for (auto& e : l) idx.insert(e.getIndex()); }; see(g2.getEdges()); see(g2.getTriangles()); see(g2.getQuadrangles()); see(g2.getTetrahedra()); see(g2.getHexahedra()); check(kk+"distinct-numbers", idx.size() == g2.getNumberofElements()-g2.getVertices().size(), d);
            Moments<D> a, b; auto tri = [&](std::vector<size_t> n, std::initializer_list<int> l) { std::vector<V3> p; for (int q : l) p.push_back(P(n[q]-1)); a.add(p); }; size_t other = 0; for (auto& cl : m) { if constexpr (D == 3) { bool quads = true; auto fcs = faces(m, cl); for (auto& f : fcs) quads &= f.point_ids().size() == 4; if (cl.point_ids().size() != 4 && !(cl.point_ids().size() == 8 && fcs.size() == 6 && quads)) { other++; continue; } } auto w = cell_moments(m, cl); b.m += w.m; b.f += w.f; b.h += w.h; } if (std::is_same_v<M,g3_t>) check(kk+"other-shapes-kept", other == 0 || g2.getTetrahedra().size()+g2.getHexahedra().size() >= m.cells_size(), cat(d, " ", other, " cells that are neither tetrahedra nor hexahedra"));
            bool pos = true; if constexpr (D == 2) { for (auto& t : g2.getTriangles()) { tri(t.getNodes(), {0,1,2}); auto n = t.getNodes(); pos &= simplex_measure<M>({P(n[0]-1), P(n[1]-1), P(n[2]-1)}) >= -1e-9*(P(n[1]-1)-P(n[0]-1)).norm()*(P(n[2]-1)-P(n[0]-1)).norm(); } for (auto& t : g2.getQuadrangles()) { auto n = t.getNodes(); T s1 = simplex_measure<M>({P(n[0]-1), P(n[1]-1), P(n[2]-1)}), s2 = simplex_measure<M>({P(n[0]-1), P(n[2]-1), P(n[3]-1)}); pos &= s1+s2 > 0; tri(n, {0,1,2}); tri(n, {0,2,3}); } same_moments<D>(kk+"mesh", a, b, d); check(kk+"orientation", pos, d); }
            else { for (auto& t : g2.getTetrahedra()) { tri(t.getNodes(), {0,1,2,3}); auto n = t.getNodes(); pos &= simplex_measure<M>({P(n[0]-1), P(n[1]-1), P(n[2]-1), P(n[3]-1)}) >= 0; } for (auto& t : g2.getHexahedra()) { auto n = t.getNodes(); static const int F6[6][4] = {{0,3,2,1},{4,5,6,7},{0,1,5,4},{1,2,6,5},{2,3,7,6},{3,0,4,7}}; V3 o = V3::Zero(); for (auto x : n) o += P(x-1)/8; for (auto& f : F6) for (int s = 0; s < 2; s++) a.add({o, P(n[f[0]]-1), P(n[f[1+s]]-1), P(n[f[2+s]]-1)}); } if (other == 0 || g2.getTetrahedra().size()+g2.getHexahedra().size()+other == m.cells_size()) { if (b.m > 0) same_moments<D>(kk+"mesh", a, b, d); } if (!std::is_same_v<M,c3_t>) check(kk+"orientation", pos, d); } }
        sig(cat("post/", F, "/", v, "/", m.cells_size(), "/", sx.size())); });
}
inline void fields()
{
    for (size_t it = 0; it < n_of(20, 200); it++) run_case(cat("fields/", it), [&](Rng& r) { using namespace disk; T s = r.normal(); check("field.scalar", convertToVectorGmsh(s) == std::vector<T>({s, 0, 0})); auto go = [&](auto one) { constexpr int D = decltype(one)::value; static_vector<T,D> a; static_matrix<T,D,D> b; std::vector<T> wa(3, 0.), wb(9, 0.); for (int i = 0; i < D; i++) { wa[i] = a(i) = r.normal(); for (int j = 0; j < D; j++) wb[i+3*j] = b(i,j) = r.normal(); } if constexpr (D > 1) { check("field.vector", convertToVectorGmsh(a) == wa); check("field.matrix", convertToVectorGmsh(b) == wb); } point<T,D> p; for (int i = 0; i < D; i++) p[i] = a(i); auto c = init_coor(p); auto n = convertPoint(p, it+3); bool ok = n.getIndex() == it+3; for (int i = 0; i < 3; i++) ok &= c[i] == wa[i] && n.getCoordinate()[i] == wa[i]; check("field.point", ok); }; go(std::integral_constant<int,1>()); go(std::integral_constant<int,2>()); go(std::integral_constant<int,3>());
        { s2_t m; make(m, r, 0, 1); for (auto& cl : m) { auto t = convertTriangle(cl, 5); auto w = pids(cl); for (auto& x : w) x++; check("element.triangle", t.getNodes() == w && t.getIndex() == 5); } size_t i = 0; for (auto f = m.faces_begin(); f != m.faces_end(); ++f, i++) { auto e = convertEdge(*f, i); auto w = pids(*f); for (auto& x : w) x++; check("element.edge", e.getNodes() == w && e.getIndex() == i); } }
        { c2_t m; make(m, r, 1, 1); for (auto& cl : m) { auto n = convertQuadrangle(cl, 2).getNodes(); std::set<Ids> a, b; for (auto& f : faces(m, cl)) a.insert(srt(pids(f))); for (int q = 0; q < 4; q++) b.insert(srt({n[q]-1, n[(q+1)%4]-1})); check("element.quadrangle", a == b); } }
        if (it < 4) { s3_t m; make(m, r, 0, 0); for (auto& cl : m) { auto w = pids(cl); for (auto& x : w) x++; check("element.tetrahedron", convertTetrahedron(cl, 1).getNodes() == w); } c3_t h; make(h, r, 0, 0); static const int Q[6][4] = {{0,1,2,3},{4,5,6,7},{0,1,5,4},{1,2,6,5},{2,3,7,6},{3,0,4,7}}; for (auto& cl : h) { auto n = convertHexahedron(cl, 1).getNodes(); std::set<Ids> a, b; for (auto& f : faces(h, cl)) a.insert(srt(pids(f))); for (auto& q : Q) b.insert(srt({n[q[0]]-1, n[q[1]]-1, n[q[2]]-1, n[q[3]]-1})); check("element.hexahedron", a == b && srt(n).front() >= 1); } } sig("fields"); });
}
#endif

#if PART == 3
inline void dumps()
{
    for (size_t it = 0; it < n_of(10, 60); it++) run_case(cat("netgen/", it), [&](Rng& r) { Hush h; s2_t m; auto d = make(m, r, it%4, it%3); if (it%2) renumber(m, r); T s = std::pow(10., r.integer(-4, 4)); m.transform([&](const disk::point<T,2>& p) { return p*s; }); std::string f = dir+cat("/d", it, ".mesh2d"); disk::dump_netgen_format(m, f); s2_t q; if (!check("netgen.loads", disk::load_mesh_netgen(f.c_str(), q), d)) return; if (!check("netgen.sizes", q.points_size() == m.points_size() && q.cells_size() == m.cells_size() && q.faces_size() == m.faces_size() && q.boundary_faces_size() == m.boundary_faces_size(), d)) return;
        T e = 0; auto a = m.points_begin(), b = q.points_begin(); for (; a != m.points_end(); ++a, ++b) e = std::max({e, std::abs(a->x()-b->x()), std::abs(a->y()-b->y())}); near("netgen.coordinates", e/s, 1e-15, cat(d, " scale ", s)); std::multiset<Ids> x, y; for (auto& c : m) x.insert(srt(pids(c))); for (auto& c : q) y.insert(srt(pids(c))); check("netgen.cells", x == y, d); std::set<Ids> bx, by; for (auto i = m.boundary_faces_begin(); i != m.boundary_faces_end(); ++i) bx.insert(srt(pids(*i))); for (auto i = q.boundary_faces_begin(); i != q.boundary_faces_end(); ++i) by.insert(srt(pids(*i))); check("netgen.boundary", bx == by, d); unlink(f.c_str()); sig(cat("netgen/", it%4, "/", m.cells_size(), "/", s)); });
    for (size_t it = 0; it < n_of(20, 200); it++) run_case(cat("sparse/", it), [&](Rng& r) { int n = r.integer(1, 30), c = r.integer(1, 30); Eigen::SparseMatrix<T> A(n, c); std::vector<Eigen::Triplet<T>> t; for (long i = r.integer(0, 100); i > 0; i--) t.push_back(Eigen::Triplet<T>(r.integer(0, n-1), r.integer(0, c-1), r.normal()*std::pow(10., r.integer(-200, 200)))); A.setFromTriplets(t.begin(), t.end()); if (it%2 && A.coeff(0,0) == 0 && t.empty()) A.insert(0, 0) = 0; if (it%3) A.makeCompressed(); for (int hd = 0; hd < 2; hd++) { std::string f = dir+"/sp.txt"; if (hd) disk::dump_sparse_matrix_with_header(A, f); else disk::dump_sparse_matrix(A, f); std::ifstream is(f); long rr, cc, nz = -1; if (hd) { is >> rr >> cc >> nz; check("sparse.header", rr == n && cc == c && nz == (long)A.nonZeros()); } std::vector<Eigen::Triplet<T>> u; std::string i, j, v; while (is >> i >> j >> v) u.push_back(Eigen::Triplet<T>(std::stol(i), std::stol(j), std::strtod(v.c_str(), nullptr))); Eigen::SparseMatrix<T> B(n, c); B.setFromTriplets(u.begin(), u.end()); check("sparse.entries", u.size() == (size_t)A.nonZeros() && Eigen::Matrix<T,-1,-1>(A) == Eigen::Matrix<T,-1,-1>(B)); } sig(cat("sparse/", n/8, "/", A.nonZeros()/16)); });
    run_case("hdf5", [&](Rng&) { for (int fail = 0; fail < 2; fail++) { h5stub::fail = fail; h5stub::bad_close = 0; h5stub::open.clear(); { disk::hdf5_context c(dir+"/a.h5"); if (!fail) check("hdf5.open", h5stub::open.count(c.get_file_descriptor()) == 1); } check("hdf5.closed", h5stub::open.empty()); check("hdf5.closes-only-what-is-open", h5stub::bad_close == 0, fail ? "creation failed" : ""); alignas(disk::hdf5_context) unsigned char buf[sizeof(disk::hdf5_context)]; for (auto& x : buf) x = 1; auto *p = new (buf) disk::hdf5_context(); p->~hdf5_context(); check("hdf5.default-closes-nothing", h5stub::bad_close == 0); h5stub::fail = false; }
        std::ofstream(dir+"/old.h5") << "x"; disk::hdf5_open_or_create((dir+"/old.h5").c_str()); disk::hdf5_open_or_create((dir+"/new.h5").c_str()); check("hdf5.open-or-create", h5stub::how[dir+"/old.h5"] == "open" && h5stub::how[dir+"/new.h5"] == "create"); sig("hdf5"); });
    for (size_t it = 0; it < n_of(8, 40); it++) run_case(cat("aspect/", it), [&](Rng& r) { auto go = [&](auto m) { make(m, r, 1, 1); std::string f = dir+"/aspect.txt"; disk::mesh_aspect(m, f); std::ifstream is(f); std::string l; std::getline(is, l); size_t i = 0; bool ok = true; for (auto& cl : m) { if (!std::getline(is, l)) { ok = false; break; } std::istringstream ss(l); T v[8]; for (T& x : v) ss >> x; T hT = disk::diameter(m, cl), a = 1e300, b = 0; for (auto& fc : disk::faces(m, cl)) { a = std::min(a, disk::diameter(m, fc)); b = std::max(b, disk::diameter(m, fc)); } T w[8] = {T(i), disk::measure(m, cl), hT, a, b, hT/a, hT/b, b/a}; for (int q = 0; q < 8; q++) ok &= std::abs(v[q]-w[q]) <= 1e-5*std::abs(w[q]); i++; } check("aspect", ok); }; go(s2_t()); go(g2_t()); go(s3_t()); sig("aspect"); });
    for (size_t it = 0; it < n_of(8, 40); it++) run_case(cat("matlab/", it), [&](Rng& r) { auto go = [&](auto m) { make(m, r, 1, 1); std::string f = dir+"/m.m"; disk::dump_to_matlab(m, f); std::ifstream is(f); std::string l; size_t red = 0, green = 0, text = 0; while (std::getline(is, l)) { red += l.find("'Color', 'r'") != std::string::npos; green += l.find("'Color', 'g'") != std::string::npos; text += l.rfind("text(", 0) == 0; } size_t R = 0, G = 0; for (auto& cl : m) for (auto& fc : disk::faces(m, cl)) (m.is_boundary(fc) ? R : G)++; check("matlab", red == R && green == G && text == m.cells_size()+2*(R+G)); }; go(s2_t()); go(g2_t()); go(c2_t()); sig("matlab"); });
}
#endif
int main(int argc, char **argv)
{
    init(argc, argv, "C27"); char t[] = "/tmp/c27.XXXXXX"; dir = mkdtemp(t);
#if PART == 1
    DBShowErrors(DB_NONE, nullptr); silo(s2_t()); silo(c2_t()); silo(g2_t()); silo(s3_t()); silo(c3_t()); silo(g3_t()); points_and_float(); refusals();
#elif PART == 2
    post(s2_t()); post(c2_t()); post(g2_t()); post(s3_t()); post(c3_t()); post(g3_t()); fields();
#else
    dumps();
#endif
    { std::error_code ec; std::filesystem::remove_all(dir, ec); }
    return finish();
}
