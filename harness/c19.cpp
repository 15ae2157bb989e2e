// C19: mesh files.  A model mesh is written in every supported format with
// permuted numberings, then loaded and compared without relying on any order;
// damaged files must be refused, or at least give a mesh that can be walked.
#include "topo.hpp"
#include "oracle.hpp"
#include "writers.hpp"
#include <fstream>
#include <new>
#include <filesystem>
#include <unistd.h>
#include <sys/stat.h>
#include "diskpp/loaders/loader.hpp"
using namespace mon; using namespace vm;

/* absurd element counts in a damaged file: bad_alloc, as on a real machine */
static void *lim(size_t n) { if (n > (size_t(1) << 28)) throw std::bad_alloc(); void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n) { return lim(n); }
void *operator new[](size_t n) { return lim(n); }
void *operator new(size_t n, const std::nothrow_t&) noexcept { return n > (size_t(1) << 28) ? nullptr : malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t&) noexcept { return n > (size_t(1) << 28) ? nullptr : malloc(n ? n : 1); }
void operator delete(void *p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void *p, const std::nothrow_t&) noexcept { free(p); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }

struct Quiet { std::streambuf *o; std::ostringstream s; Quiet() { o = std::cout.rdbuf(s.rdbuf()); } ~Quiet() { std::cout.rdbuf(o); } };
/* ------------------------------------------------------------ the comparison */
static std::string dir;
static std::string put(const std::string& name, const std::string& text) { std::string f = dir + "/" + name; std::ofstream o(f, std::ios::binary); o << text; return f; }
template<typename M, typename L> bool load(const std::string& f, M& m, L&& l) { Quiet q; return l(f.c_str(), m); }

template<typename M> void compare(M& m, const Mdl& q, const std::string& d, const std::string& F)
{
    check(F+".sizes", m.points_size() == q.P.size() && m.cells_size() == q.C.size() && m.faces_size() == q.F.size(), cat(d, " points ", m.points_size(), "/", q.P.size(), " cells ", m.cells_size(), "/", q.C.size(), " faces ", m.faces_size(), "/", q.F.size()));
    check_mesh(m, d, true, true);
    std::map<Key, const Cell*> cs; for (auto& c : q.C) cs[key(q, c.v)] = &c; std::map<Key, const Face*> fs; for (auto& f : q.F) fs[key(q, f.v)] = &f;
    for (auto& cl : m) { auto it = cs.find(lkey(m, cl)); check(F+".cell-of-the-file", it != cs.end(), d); if (it == cs.end()) continue;
        check(F+".region", m.domain_info(cl).id() == it->second->reg, [&]{ return cat(d, " region ", m.domain_info(cl).id(), " expected ", it->second->reg); }()); near(F+".cell-measure", std::abs(measure(m, cl)-it->second->meas)/it->second->meas, 1e-11, d);
        std::set<Key> a, b; for (auto& fc : faces(m, cl)) a.insert(lkey(m, fc)); for (auto k : it->second->f) b.insert(key(q, q.F[k].v)); check(F+".faces-of-cell", a == b, d); }
    for (auto it = m.faces_begin(); it != m.faces_end(); ++it) { auto w = fs.find(lkey(m, *it)); check(F+".face-of-the-file", w != fs.end(), d); if (w == fs.end()) continue; const Face& f = *w->second;
        check(F+".boundary", m.is_boundary(*it) == f.listed, d); auto bi = m.boundary_info(*it);
        if (f.owners == 1) check(F+".boundary-number", bi.id() == f.id, cat(d, " id ", bi.id(), " expected ", f.id)); else { check(F+".interface", bi.is_internal() == f.listed, d); if (f.listed) check(F+".interface-number", bi.id() == f.id, d); }
        near(F+".face-measure", std::abs(measure(m, *it)-f.meas)/f.meas, 1e-6, d); }
    sig(cat(F, "/", q.C.size(), "/", q.F.size()));
}

/* walk everything reachable by index: under the address sanitizer */
template<typename M> bool walk(M& m)
{
    size_t np = m.points_size(), n = 0; double s = 0; std::vector<int> own(m.faces_size(), 0); bool ok = m.cells_size() > 0;
    for (auto& cl : m) { for (auto p : cl.point_ids()) ok = ok && size_t(p) < np; for (auto& p : points(m, cl)) s += p.x(); auto fi = faces_id(m, cl); auto fcs = faces(m, cl); for (size_t i = 0; i < fcs.size(); i++) { size_t o = offset(m, fcs[i]); ok = ok && o == size_t(fi[i]) && o < own.size(); if (o < own.size()) own[o]++; for (auto p : fcs[i].point_ids()) ok = ok && size_t(p) < np; n += m.is_boundary(fcs[i]); } n += m.domain_info(cl).id(); }
    for (auto o : own) ok = ok && o <= 2; for (auto it = m.faces_begin(); it != m.faces_end(); ++it) { n += m.boundary_info(*it).id(); for (auto p : points(m, *it)) s += p.x(); }
    auto cv = connectivity_via_faces(m); for (auto& cl : m) for (auto& fc : faces(m, cl)) n += cv.neighbour_via(m, cl, fc).second;
    volatile double sink = s + n; (void)sink; return ok;
}

template<typename M, typename L> void hostile(Rng& r, const std::string& text, const std::string& ext, const std::string& F, const std::string& d, L&& l, bool lines)
{
    std::vector<std::pair<size_t,size_t>> tok; for (size_t i = 0; i < text.size();) { if (isspace((unsigned char)text[i])) { i++; continue; } size_t j = i; while (j < text.size() && !isspace((unsigned char)text[j])) j++; tok.push_back({i, j}); i = j; }
    static bool hung = false; /* one hang per program is enough */
    auto attempt = [&](const std::string& file, bool must_refuse, const std::string& what) {
        if (hung) return;
        auto res = isolated([&] { M m; bool ok = false; try { ok = load(file, m, l); } catch (const std::exception&) { return 3; } if (!ok) return 3; return walk(m) ? 5 : 6; }, 10); hung = hung || res.hung;
        int rc = WIFEXITED(res.status) ? WEXITSTATUS(res.status) : -1; std::string t = cat(d, " ", what, " rc ", rc, " ", res.text.substr(0, 600));
        check(F+".damaged-no-crash", !res.crashed && !res.hung && rc != 1, t); if (res.crashed || res.hung) return;
        check(F+".damaged-topology-valid", rc != 6 && rc != 42, t);
        if (must_refuse) check(F+".damaged-refused", rc == 3, t); else sig(cat(F, "/damage ", rc == 3 ? "refused" : "accepted")); };
    attempt(dir + "/missing." + ext, true, "missing file"); attempt(put("empty." + ext, ""), true, "empty file"); { std::string x = dir + "/dir." + ext; mkdir(x.c_str(), 0700); attempt(x, true, "a directory"); }
    attempt(put("blank." + ext, std::string(4096, '\n')), true, "a page of newlines"); attempt(put("zeros." + ext, "0 0 0 0 0 0\n"), true, "zeros");
    for (size_t t = 0; t < n_of(8, 60); t++) { size_t k = t == 0 ? tok.size()-1 : t == 1 ? 1 : r.integer(1, tok.size()-1); std::string s = text.substr(0, tok[k].first); if (r.coin(0.3)) { size_t pad = 4096 - (tok[k-1].second % 4096); s = std::string(pad, '\n') + text.substr(0, tok[k-1].second); }
        if (ext == "msh") { s = text.substr(0, tok[k].first); } attempt(put("trunc." + ext, s), true, cat("truncated before token ", k, " of ", tok.size(), " '", text.substr(tok[k].first, std::min<size_t>(20, tok[k].second-tok[k].first)), "'")); }
    static const char *bad[] = {"0","-1","1","2","3","99999999999","4294967296","18446744073709551615","abc","1e30","nan","", "7 7","-"};
    for (size_t t = 0; t < n_of(14, 150); t++) { size_t k = r.coin(0.7) ? r.integer(tok.size()/3, tok.size()-1) : r.integer(0, tok.size()-1); std::string nw = r.coin(0.7) ? bad[r.integer(0, 13)] : [&]{ auto& o = tok[r.integer(0, tok.size()-1)]; return text.substr(o.first, o.second-o.first); }();
        std::string s = text.substr(0, tok[k].first) + nw + text.substr(tok[k].second); attempt(put("mut." + ext, s), false, cat("token ", k, " '", text.substr(tok[k].first, tok[k].second-tok[k].first), "' -> '", nw, "'")); }
    for (size_t t = 0; t < n_of(3, 20); t++) { /* two lines swapped */ std::vector<std::string> ln; std::istringstream is(text); std::string x; while (getline(is, x)) ln.push_back(x); size_t a = r.integer(0, ln.size()-1), b = r.integer(0, ln.size()-1); std::swap(ln[a], ln[b]); std::string s; for (auto& y : ln) s += y + "\n"; attempt(put("swap." + ext, s), false, cat("lines ", a, " and ", b, " swapped")); }
}

template<typename M, typename SRC, typename WR, typename L>
void format(const std::string& F, const std::string& ext, size_t its, WR&& wr, L&& l, bool paged, bool shuffle_vts, size_t maxvts, std::vector<size_t> variants)
{
    for (size_t it = 0; it < its; it++) run_case(cat(F, "/", it), [&](Rng& r) {
        SRC s; size_t v = variants[it % variants.size()]; std::string d = cat(F, " ", make(s, r, v, 0));
        for (auto& cl : s) if (cl.point_ids().size() > maxvts) { skip(F+".polygon-not-in-the-format"); return; }
        Mdl q = model(s, r, shuffle_vts, r.coin(0.3)); std::string text = wr(q, r);
        std::string full = text; if (paged && r.coin(0.5)) { while (!full.empty() && isspace((unsigned char)full.back())) full.pop_back(); size_t pad = 4096 - full.size() % 4096; full = std::string(pad, r.coin(0.5) ? '\n' : ' ') + full; d += " page-sized"; }
        M m; bool ok = load(put(cat("m", it, ".", ext), full), m, l); check(F+".loads", ok, d); if (!ok) return;
        compare(m, q, d, F);
        { M m2; bool ok2 = false; Quiet qq; disk::dispatch_all_meshes((dir + "/m" + std::to_string(it) + "." + ext).c_str(), [&](auto mm) { if constexpr (std::is_same_v<decltype(mm), M>) ok2 = mm.cells_size() == m.cells_size() && mm.faces_size() == m.faces_size(); }); bool known = ext != "medit2d" && ext != "medit3d" && ext != "poly2d" && ext != "poly3d"; if (known) check(F+".dispatched-by-extension", ok2, d); }
        if (it % 2 == 0) hostile<M>(r, text, ext, F, d, l, !paged); });
}

int main(int argc, char **argv)
{
    init(argc, argv, "C19");
    char t[] = "/tmp/c19.XXXXXX"; dir = mkdtemp(t);
    size_t n = n_of(6, 24);
#if PART == 0
    format<s2_t, s2_t>("netgen2d", "mesh2d", n, w_netgen, [](const char *f, auto& m) { return disk::load_mesh_netgen(f, m); }, true, true, 99, {0,1,2,3});
    format<s3_t, s3_t>("netgen3d", "mesh", n, w_netgen, [](const char *f, auto& m) { return disk::load_mesh_netgen(f, m); }, true, true, 99, {0,1,2});
    format<c2_t, c2_t>("quad", "quad", n, w_cart, [](const char *f, auto& m) { return disk::load_mesh_diskpp_cartesian(f, m); }, true, false, 99, {0,1,2});
    format<c3_t, c3_t>("hex", "hex", n, w_cart, [](const char *f, auto& m) { return disk::load_mesh_diskpp_cartesian(f, m); }, true, false, 99, {0,1});
    format<g2_t, g2_t>("fvca5", "typ1", n, w_fvca5, [](const char *f, auto& m) { return disk::load_mesh_fvca5_2d(f, m); }, false, false, 8, {0,1,2,3,4,5});
#else
    format<g3_t, g3_t>("fvca6", "msh", n, w_fvca6, [](const char *f, auto& m) { return disk::load_mesh_fvca6_3d(f, m); }, false, false, 99, {0,1,2,3,4});
    format<g2_t, g2_t>("medit2d", "medit2d", n, w_medit2, [](const char *f, auto& m) { return disk::load_mesh_medit(f, m); }, false, false, 6, {0,1,2,3,4,5});
    format<g3_t, g3_t>("medit3d", "medit3d", n, w_medit3, [](const char *f, auto& m) { return disk::load_mesh_medit(f, m); }, false, false, 99, {0,1,2,3,4});
    format<g2_t, g2_t>("poly2d", "poly2d", n, w_poly, [](const char *f, auto& m) { return disk::load_mesh_poly(f, m); }, false, false, 99, {0,1,2,3,4,5});
    format<g3_t, g3_t>("poly3d", "poly3d", n, w_poly, [](const char *f, auto& m) { return disk::load_mesh_poly(f, m); }, false, false, 99, {0,1,2,3,4});
#endif
    { std::string cmd = dir; for (auto e : {"c19"}) (void)e; std::error_code ec; std::filesystem::remove_all(cmd, ec); }
    return finish();
}
