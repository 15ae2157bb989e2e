// C19, gmsh geometries: the mesh loaded from a geometry covers it, its regions
// and its boundary numbers are those of the geometry.
#include "topo.hpp"
#include "oracle.hpp"
#define HAVE_GMSH
#include <fstream>
#include <filesystem>
#include "diskpp/loaders/loader.hpp"
using namespace mon; using namespace vm;
static std::string dir;
struct Quiet { std::streambuf *o; std::ostringstream s; Quiet() { o = std::cout.rdbuf(s.rdbuf()); } ~Quiet() { std::cout.rdbuf(o); } };
static std::string num(double v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }

/* n columns of a quadrilateral strip: points 2i+1 (bottom), 2i+2 (top) */
struct Strip { size_t n; std::vector<std::array<double,2>> b, t; double h; };
static Strip strip(Rng& r) { Strip s; s.n = r.integer(1, 3); double ox = r.real(-3,3), oy = r.real(-3,3), sc = std::exp(r.real(-2,2)); for (size_t i = 0; i <= s.n; i++) { s.b.push_back({ox+sc*(i+0.2*r.real(-1,1)), oy+sc*0.3*r.real(-1,1)}); s.t.push_back({ox+sc*(i+0.2*r.real(-1,1)), oy+sc*(1+0.3*r.real(-1,1))}); } s.h = sc*r.real(0.4, 1.1); return s; }
/* curves: bottom i, top i, vertical i, with random tags; surfaces with random tags */
struct Geo { std::string text; std::vector<size_t> bot, top, ver, srf; };
static Geo geo(const Strip& s, Rng& r)
{
    std::ostringstream o; o.precision(17); Geo g; auto tags = [&](size_t n, size_t base) { std::vector<size_t> t; for (size_t i = 0; i < n; i++) t.push_back(base+i*r.integer(1,3)+i*3); r.shuffle(t); std::sort(t.begin(), t.end()); t.erase(std::unique(t.begin(), t.end()), t.end()); while (t.size() < n) t.push_back(t.back()+1); r.shuffle(t); return t; };
    for (size_t i = 0; i <= s.n; i++) { o << "Point(" << 2*i+1 << ") = {" << s.b[i][0] << "," << s.b[i][1] << ",0," << s.h << "};\nPoint(" << 2*i+2 << ") = {" << s.t[i][0] << "," << s.t[i][1] << ",0," << s.h << "};\n"; }
    if (r.integer(0, 1)) o << "Point(700) = {" << s.b[0][0]-3*s.h << "," << s.b[0][1] << ",0," << s.h << "};\n"; /* used by nothing */
    auto ct = tags(3*s.n+1, r.integer(1, 5)); size_t k = 0; g.srf = tags(s.n, r.integer(1, 9));
    for (size_t i = 0; i <= s.n; i++) { g.ver.push_back(ct[k++]); o << "Line(" << g.ver[i] << ") = {" << 2*i+1 << "," << 2*i+2 << "};\n"; }
    for (size_t i = 0; i < s.n; i++) { g.bot.push_back(ct[k++]); g.top.push_back(ct[k++]); o << "Line(" << g.bot[i] << ") = {" << 2*i+1 << "," << 2*i+3 << "};\nLine(" << g.top[i] << ") = {" << 2*i+2 << "," << 2*i+4 << "};\n"; }
    for (size_t i = 0; i < s.n; i++) o << "Curve Loop(" << 900+i << ") = {" << g.bot[i] << "," << g.ver[i+1] << ",-" << g.top[i] << ",-" << g.ver[i] << "};\nPlane Surface(" << g.srf[i] << ") = {" << 900+i << "};\n";
    g.text = o.str(); return g;
}
static double area(const Strip& s, size_t i) { std::array<std::array<double,2>,4> p{s.b[i], s.b[i+1], s.t[i+1], s.t[i]}; double a = 0; for (int k = 0; k < 4; k++) a += p[k][0]*p[(k+1)%4][1]-p[k][1]*p[(k+1)%4][0]; return a/2; }
static double off(std::array<double,2> a, std::array<double,2> b, double x, double y) { double dx = b[0]-a[0], dy = b[1]-a[1], l = std::hypot(dx, dy); double u = ((x-a[0])*dx+(y-a[1])*dy)/(l*l); return std::max({std::abs((x-a[0])*dy-(y-a[1])*dx)/l/l, -u, u-1.0}); }
static size_t rank_of(const std::vector<size_t>& all, size_t t) { size_t k = 0; for (auto x : all) k += x < t; return k; }

template<typename M> void put_and_load(const std::string& text, const std::string& ext, M& m, bool dispatch)
{
    std::string f = dir + "/g." + ext; { std::ofstream o(f); o << text; } Quiet q;
    if (dispatch) { size_t calls = 0; int rc = disk::dispatch_all_meshes(f.c_str(), [&](auto mm) { calls++; if constexpr (std::is_same_v<decltype(mm), M>) m = mm; }); check("dispatched", rc == 0 && calls == 1, ext); }
    else { disk::gmsh_geometry_loader<M> l; bool a = l.read_mesh(f), b = l.populate_mesh(m); check("loads", a && b, ext); }
}
int main(int argc, char **argv)
{
    init(argc, argv, "C19"); char t[] = "/tmp/c19g.XXXXXX"; dir = mkdtemp(t);
    for (size_t it = 0; it < n_of(6, 40); it++) run_case(cat("geo2s/", it), [&](Rng& r) {
        Strip s = strip(r); Geo g = geo(s, r); s2_t m; put_and_load(g.text, "geo2s", m, it%2); std::string d = cat("strip of ", s.n); const std::string F = "geo2s";
        check_mesh(m, d, true, true); std::map<size_t, double> a; std::vector<size_t> curves; for (auto* v : {&g.bot, &g.top, &g.ver}) curves.insert(curves.end(), v->begin(), v->end());
        for (auto& cl : m) { a[m.domain_info(cl).tag()] += measure(m, cl); check(F+".region-number", m.domain_info(cl).id() == rank_of(g.srf, m.domain_info(cl).tag()), cat(d, " ", m.domain_info(cl).id(), " tag ", m.domain_info(cl).tag())); }
        check(F+".regions", a.size() == s.n, d); for (size_t i = 0; i < s.n; i++) near(F+".region-area", std::abs(a[g.srf[i]]-area(s, i))/area(s, i), 1e-10, d);
        std::map<size_t, double> len; for (auto it = m.faces_begin(); it != m.faces_end(); ++it) { auto bi = m.boundary_info(*it); if (!bi.is_boundary()) continue; auto b = barycenter(m, *it); len[bi.tag()] += measure(m, *it); check(F+".boundary-number", bi.id() == rank_of(curves, bi.tag()), cat(d, " id ", bi.id(), " tag ", bi.tag()));
            for (size_t i = 0; i <= s.n; i++) if (g.ver[i] == bi.tag()) { check(F+".on-its-curve", off(s.b[i], s.t[i], b.x(), b.y()) < 1e-9, d); check(F+".interface", bi.is_internal() == (i > 0 && i < s.n), d); }
            for (size_t i = 0; i < s.n; i++) { if (g.bot[i] == bi.tag()) check(F+".on-its-curve", off(s.b[i], s.b[i+1], b.x(), b.y()) < 1e-9 && !bi.is_internal(), d); if (g.top[i] == bi.tag()) check(F+".on-its-curve", off(s.t[i], s.t[i+1], b.x(), b.y()) < 1e-9 && !bi.is_internal(), d); } }
        auto l = [&](std::array<double,2> p, std::array<double,2> q) { return std::hypot(p[0]-q[0], p[1]-q[1]); };
        check(F+".curves", len.size() == curves.size(), d); for (size_t i = 0; i <= s.n; i++) near(F+".curve-length", std::abs(len[g.ver[i]]-l(s.b[i], s.t[i]))/l(s.b[i], s.t[i]), 1e-10, d);
        for (size_t i = 0; i < s.n; i++) { near(F+".curve-length", std::abs(len[g.bot[i]]-l(s.b[i], s.b[i+1]))/l(s.b[i], s.b[i+1]), 1e-10, d); near(F+".curve-length", std::abs(len[g.top[i]]-l(s.t[i], s.t[i+1]))/l(s.t[i], s.t[i+1]), 1e-10, d); }
        sig(cat(F, "/", m.cells_size())); });
    auto three = [&](auto tag, const std::string& F, size_t it) { using M = decltype(tag); run_case(cat(F, "/", it), [&](Rng& r) {
        Strip s = strip(r); Geo g = geo(s, r); double H = s.h*r.real(0.6, 2); std::ostringstream o; o.precision(17); o << g.text; size_t nl = r.integer(1, 3);
        for (size_t i = 0; i < s.n; i++) { o << "Extrude {0,0," << H << "} { Surface{" << g.srf[i] << "}; "; if (F == "geo3g") o << "Layers{" << nl << "}; Recombine; "; o << "}\n"; }
        M m; put_and_load(o.str(), F, m, it%2); std::string d = cat(F, " strip of ", s.n);
        check_mesh(m, d, true, true); std::map<size_t, double> v; std::map<size_t, std::set<size_t>> ids; std::map<size_t, std::set<size_t>> where; 
        for (auto& cl : m) { auto di = m.domain_info(cl); v[di.tag()] += measure(m, cl); ids[di.tag()].insert(di.id()); auto b = barycenter(m, cl); for (size_t i = 0; i < s.n; i++) { bool in = true; std::array<std::array<double,2>,4> p{s.b[i], s.b[i+1], s.t[i+1], s.t[i]}; for (int k = 0; k < 4; k++) in = in && (p[(k+1)%4][0]-p[k][0])*(b.y()-p[k][1])-(p[(k+1)%4][1]-p[k][1])*(b.x()-p[k][0]) > 0; if (in) where[di.tag()].insert(i); } }
        check(F+".regions", v.size() == s.n, cat(d, " ", v.size())); size_t k = 0; std::set<size_t> used; for (auto& [tg, val] : v) { check(F+".region-number", ids[tg].size() == 1 && *ids[tg].begin() == k, d); k++; check(F+".region-is-one-piece", where[tg].size() == 1, d); if (where[tg].size() == 1) { size_t i = *where[tg].begin(); used.insert(i); near(F+".region-volume", std::abs(val-area(s, i)*H)/(area(s, i)*H), 1e-9, d); } }
        check(F+".regions-cover", used.size() == s.n, d);
        std::map<size_t, std::vector<disk::point<T,3>>> pl; std::map<size_t, double> ar; std::map<size_t, std::set<size_t>> bid; std::map<size_t, std::set<bool>> in; size_t nb = 0;
        for (auto it = m.faces_begin(); it != m.faces_end(); ++it) { auto bi = m.boundary_info(*it); if (!bi.is_boundary()) continue; nb++; for (auto p : points(m, *it)) pl[bi.tag()].push_back(p); ar[bi.tag()] += measure(m, *it); bid[bi.tag()].insert(bi.id()); in[bi.tag()].insert(bi.is_internal()); }
        check(F+".boundary-surfaces", pl.size() == 5*s.n+1, cat(d, " ", pl.size())); std::set<size_t> nums; for (auto& [tg, id] : bid) { check(F+".one-number-per-surface", id.size() == 1 && in[tg].size() == 1, d); nums.insert(*id.begin()); } check(F+".numbers-distinct", nums.size() == bid.size() && *nums.rbegin() == nums.size()-1, d);
        double tot = 0, want = 0; size_t nin = 0; for (auto& [tg, a] : ar) { tot += a; nin += *in[tg].begin(); auto& P = pl[tg]; /* coplanar: some triple spans the plane of all */
            auto x = P[0]; disk::point<T,3> y = x; double best = 0; for (auto& p : P) { double q = std::hypot(p.x()-x.x(), std::hypot(p.y()-x.y(), p.z()-x.z())); if (q > best) { best = q; y = p; } } std::array<double,3> u{y.x()-x.x(), y.y()-x.y(), y.z()-x.z()}, nn{0,0,0}; double bn = 0; for (auto& p : P) { std::array<double,3> w{p.x()-x.x(), p.y()-x.y(), p.z()-x.z()}; std::array<double,3> c{u[1]*w[2]-u[2]*w[1], u[2]*w[0]-u[0]*w[2], u[0]*w[1]-u[1]*w[0]}; double q = std::hypot(c[0], std::hypot(c[1], c[2])); if (q > bn) { bn = q; nn = c; } }
            for (auto& p : P) near(F+".surface-plane", std::abs(nn[0]*(p.x()-x.x())+nn[1]*(p.y()-x.y())+nn[2]*(p.z()-x.z()))/bn/best, 1e-9, d); }
        check(F+".interfaces", nin == s.n-1, cat(d, " ", nin)); auto l = [&](std::array<double,2> p, std::array<double,2> q) { return std::hypot(p[0]-q[0], p[1]-q[1]); };
        for (size_t i = 0; i < s.n; i++) want += 2*area(s, i)+H*(l(s.b[i], s.b[i+1])+l(s.t[i], s.t[i+1])); for (size_t i = 0; i <= s.n; i++) want += H*l(s.b[i], s.t[i]); near(F+".surface-area", std::abs(tot-want)/want, 1e-6, d);
        sig(cat(F, "/", m.cells_size())); }); };
    for (size_t it = 0; it < n_of(4, 24); it++) three(s3_t(), "geo3s", it);
    for (size_t it = 0; it < n_of(4, 24); it++) three(g3_t(), "geo3g", it);
    run_case("geo2s/broken", [&](Rng& r) { for (std::string text : {"Point(1) = {0,0", "Plane Surface(3) = {7};\n", "gibberish\n"}) { auto res = isolated([&]() { std::string f = dir + "/bad.geo2s"; { std::ofstream o(f); o << text; } s2_t m; disk::gmsh_geometry_loader<s2_t> l; bool a = false; Quiet q; try { a = l.read_mesh(f) && l.populate_mesh(m); } catch (const std::exception&) {} catch (const std::string&) {} return a && m.cells_size() > 0 ? 7 : 3; }, 20); check("geo2s.broken-refused", !res.crashed && !res.hung && WIFEXITED(res.status) && WEXITSTATUS(res.status) == 3, cat(text, " ", res.text.substr(0, 200))); }
        auto res = isolated([&]() { s2_t m; disk::gmsh_geometry_loader<s2_t> l; bool a = false; Quiet q; try { a = l.read_mesh(dir + "/absent.geo2s") && l.populate_mesh(m); } catch (const std::exception&) {} return a && m.cells_size() > 0 ? 7 : 3; }, 20); check("geo2s.absent-refused", !res.crashed && !res.hung && WIFEXITED(res.status) && WEXITSTATUS(res.status) == 3, res.text.substr(0, 200)); });
    { std::error_code ec; std::filesystem::remove_all(dir, ec); }
    return finish();
}
