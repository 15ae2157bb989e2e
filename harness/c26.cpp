// C26: concurrent use, under the thread sanitizer. Threads load meshes, or work
// on one constant mesh, with random delays; every thread works before any
// sequential run has warmed anything up, and its results are then compared bit
// by bit with a sequential run. Monitors and random streams are only used by
// the main thread; the trace of the threads is ordered by relaxed counters,
// which synchronise nothing.
#include <atomic>
#include <thread>
#include <filesystem>
#include <optional>
#include "hho.hpp"
#include "writers.hpp"
#include "diskpp/loaders/loader_utils.hpp"
namespace jit {
inline std::atomic<uint64_t> seed{1}; inline std::atomic<uint32_t> clock_{0};
inline uint64_t& state() { static thread_local uint64_t s = seed.fetch_add(0x9e3779b97f4a7c15ull, std::memory_order_relaxed)*0xbf58476d1ce4e5b9ull|1; return s; }
inline uint64_t next() { auto& s = state(); s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
/* a delay: nothing, a yield, a short spin, a sleep */
inline void wait() { uint64_t k = next()%16; if (k < 8) return; if (k < 12) { std::this_thread::yield(); return; } if (k < 14) { volatile int x = 0; for (uint64_t i = next()%2000; i > 0; i--) x = x+1; return; } std::this_thread::sleep_for(std::chrono::microseconds(next()%(k == 15 ? 300 : 60))); }
}
#ifdef THREADED /* the workers of the loaders start and are awaited at random times */
#undef THREAD
#undef WAIT_THREAD
#define THREAD(name, body) jit::wait(); std::thread name([&] { jit::wait(); body })
#define WAIT_THREAD(name) jit::wait(); name.join()
#endif
#include "diskpp/loaders/loader.hpp"
#if PART != 1
#include "diskpp/methods/hho_slapl.hpp"
#include "diskpp/methods/hho_assemblers.hpp"
#include "diskpp/methods/implementation_hho/curl.hpp"
#include "diskpp/methods/vem"
#include "diskpp/methods/dg"
#include "diskpp/mechanics/behaviors/laws/behaviorlaws.hpp"
#endif

static std::atomic<unsigned> reports{0};
/* races repeat themselves: enough is enough, and a race can become an endless loop */
extern "C" void __tsan_on_report(void *) { if (reports.fetch_add(1, std::memory_order_relaxed) > 200) _exit(66); }

/* libstdc++ fills the caches of the character facet lazily and without synchronisation (GCC bug 77704): fill them before any thread runs */
inline void warm_facets() { auto& f = std::use_facet<std::ctype<char>>(std::locale()); for (int c = 0; c < 256; c++) { f.narrow(char(c), 0); f.widen(char(c)); } }
using Out = std::vector<double>;
inline void put(Out& o, double x) { o.push_back(x); }
inline void put(Out& o, const std::complex<double>& x) { o.push_back(x.real()); o.push_back(x.imag()); }
template<typename D> void put(Out& o, const Eigen::MatrixBase<D>& a) { auto m = a.eval(); put(o, m.rows()); put(o, m.cols()); for (long j = 0; j < m.cols(); j++) for (long i = 0; i < m.rows(); i++) put(o, m(i,j)); }
template<typename U, size_t D> void put(Out& o, const disk::point<U,D>& p) { for (size_t i = 0; i < D; i++) put(o, p.at(i)); }
template<typename A, typename B> void put(Out& o, const std::pair<A,B>& p) { put(o, p.first); put(o, p.second); }
template<typename A> void put(Out& o, const std::vector<A>& v) { put(o, v.size()); for (const auto& x : v) put(o, x); }
template<typename A, size_t N> void put(Out& o, const std::array<A,N>& v) { for (const auto& x : v) put(o, x); }
template<typename A> void putq(Out& o, const A& qps) { put(o, qps.size()); for (auto& q : qps) { put(o, q.point()); put(o, q.weight()); } }
inline bool identical(const Out& a, const Out& b) { return a.size() == b.size() && (a.empty() || !std::memcmp(a.data(), b.data(), a.size()*sizeof(double))); }
inline std::string where(const Out& a, const Out& b) { if (a.size() != b.size()) return cat("sizes ", a.size(), " ", b.size()); for (size_t i = 0; i < a.size(); i++) if (std::memcmp(&a[i], &b[i], sizeof(double))) return cat("entry ", i, ": ", a[i], " sequentially ", b[i]); return "equal"; }

/* everything in the storage of a mesh */
template<typename M> Out dump(const M& m)
{
    Out o; put(o, m.points_size()); for (auto it = m.points_begin(); it != m.points_end(); ++it) put(o, *it);
    auto st = m.backend_storage(); auto list = [&](auto& v) { put(o, v.size()); for (auto& e : v) for (auto p : e.point_ids()) put(o, double(size_t(p))); };
    put(o, st->nodes.size()); list(st->edges); if constexpr (M::dimension == 2 || M::dimension == 3) list(st->surfaces); if constexpr (M::dimension == 3) list(st->volumes);
    for (auto& cl : m) { put(o, m.domain_info(cl).id()); for (auto& f : faces(m, cl)) put(o, offset(m, f)); } for (auto it = m.faces_begin(); it != m.faces_end(); ++it) { auto b = m.boundary_info(*it); put(o, b.is_boundary()); put(o, b.is_internal()); put(o, b.id()); }
    return o;
}

struct Stamp { uint32_t t0, t1; uint16_t th, task; };
/* Runs tasks [0,n) on nt threads: all of them in each thread, each in its own order, or shared out. results[thread][task] */
struct Pool {
    std::vector<std::vector<Out>> res; std::vector<std::vector<std::string>> err; std::vector<std::vector<char>> done; std::vector<Stamp> trace;
    template<typename F> void run(size_t nt, size_t n, bool shared_out, Rng& r, F&& f) {
        res.assign(nt, std::vector<Out>(n)); err.assign(nt, std::vector<std::string>(n)); done.assign(nt, std::vector<char>(n, 0)); trace.clear();
        std::vector<std::vector<size_t>> order(nt, std::vector<size_t>(n)); std::vector<std::vector<Stamp>> tr(nt); std::vector<size_t> first(n); for (size_t i = 0; i < n; i++) first[i] = i; r.shuffle(first);
        bool same = r.coin(0.4); for (size_t t = 0; t < nt; t++) { order[t] = first; if (!same) r.shuffle(order[t]); else if (r.coin(0.3)) std::rotate(order[t].begin(), order[t].begin()+1%n, order[t].end()); }
        jit::seed.store(r.g()|1, std::memory_order_relaxed); std::atomic<size_t> nexti{0}; std::atomic<size_t> ready{0}; bool delays = r.coin(0.7);
        auto body = [&](size_t t) {
            ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < nt) std::this_thread::yield(); /* all start together */
            for (size_t k = 0;; k++) { size_t i; if (shared_out) { size_t j = nexti.fetch_add(1, std::memory_order_relaxed); if (j >= n) break; i = order[0][j]; } else { if (k >= n) break; i = order[t][k]; }
                if (delays) jit::wait(); Stamp s; s.th = t; s.task = i; s.t0 = jit::clock_.fetch_add(1, std::memory_order_relaxed);
                try { f(t, i, res[t][i]); } catch (const std::exception& e) { err[t][i] = std::string("exception ")+e.what(); } catch (...) { err[t][i] = "unknown exception"; }
                done[t][i] = 1; s.t1 = jit::clock_.fetch_add(1, std::memory_order_relaxed); tr[t].push_back(s); } };
        std::vector<std::thread> th; for (size_t t = 0; t < nt; t++) th.emplace_back(body, t); for (auto& x : th) x.join(); for (auto& v : tr) trace.insert(trace.end(), v.begin(), v.end());
    }
    /* pairs of tasks of different threads that ran at the same time; hash of the order of starts and ends */
    void evidence(const std::string& what, size_t nt, size_t kinds) { std::sort(trace.begin(), trace.end(), [](auto& a, auto& b) { return a.t0 < b.t0; }); std::set<std::pair<uint16_t,uint16_t>> ov; std::string h; for (size_t i = 0; i < trace.size(); i++) { h += char('a'+trace[i].th); for (size_t j = i+1; j < trace.size() && trace[j].t0 < trace[i].t1; j++) if (trace[j].th != trace[i].th) { ov.insert({std::min<uint16_t>(trace[i].task%kinds, trace[j].task%kinds), std::max<uint16_t>(trace[i].task%kinds, trace[j].task%kinds)}); h += char('A'+trace[j].th); } }
        sig(cat(what, "/order ", fnv(h)%0xffffff)); for (auto& p : ov) sig(cat(what, "/together ", p.first, "-", p.second)); check("threads.ran", trace.size() > 0); st().events["tasks.overlapping-pairs"].n += ov.size(); (void)nt; }
};
static void verdict(const std::string& fam, unsigned before, const Pool& p, size_t n, const std::function<void(size_t, Out&, std::string&)>& seq, const std::function<std::string(size_t)>& name)
{
    unsigned after = reports.load(); check("no-race-reported", after == before, cat(after-before, " reports of the thread sanitizer during ", fam));
    std::vector<char> claimed(n, 0);
    for (size_t i = 0; i < n; i++) { Out w; std::string we; seq(i, w, we); if (!we.empty()) skip(fam+": "+we); for (size_t t = 0; t < p.res.size(); t++) if (p.done[t][i]) { claimed[i] = 1; check_f(fam+".same-as-sequential", p.err[t][i] == we && identical(p.res[t][i], w), [&]() { return cat(name(i), " thread ", t, " of ", p.res.size(), " ", where(p.res[t][i], w), " ", p.err[t][i], " | ", we); }); } }
    bool all = true; for (char c : claimed) all = all && c; check(fam+".every-task-once-at-least", all);
}

#if PART == 1
static std::string dir;
static std::string putf(const std::string& name, const std::string& text) { std::string f = dir+"/"+name; std::ofstream o(f, std::ios::binary); o << text; return f; }
struct Job { std::string what, file; std::function<bool(Out&)> load; };
template<typename M, typename WR, typename L> Job job(const std::string& what, const std::string& ext, size_t v, size_t lvl, Rng& r, WR&& wr, L l, bool shuffle, size_t serial)
{
    M s; make(s, r, v, lvl); Mdl q = model(s, r, shuffle, r.coin(0.3)); std::string text = wr(q, r); if (r.coin(0.15)) text = text.substr(0, text.size()*2/3); /* refused in the same way */
    Job j; j.what = what; j.file = putf(cat(what, serial, ".", ext), text); j.load = [l, f = j.file](Out& o) { M m; bool ok = l(f.c_str(), m); put(o, ok); if (ok) { Out d = dump(m); o.insert(o.end(), d.begin(), d.end()); } return ok; }; return j;
}
template<typename M> Job maker(const std::string& what, size_t v, size_t lvl, uint64_t seed) { Job j; j.what = what; j.load = [=](Out& o) { Rng r(seed); M m; make(m, r, v, lvl); o = dump(m); return true; }; return j; }
static Job random_job(Rng& r, size_t serial)
{
    auto nv = [&](auto&& m) { return (size_t)r.integer(0, nvariants(m)-1); };
    switch (r.integer(0, 13)) {
    case 0: case 1: return job<s2_t>("netgen2d", "mesh2d", nv(s2_t()), r.integer(0, 2), r, w_netgen, [](const char *f, auto& m) { return disk::load_mesh_netgen(f, m); }, true, serial);
    case 2: case 3: return job<s3_t>("netgen3d", "mesh", nv(s3_t()), r.integer(0, 1), r, w_netgen, [](const char *f, auto& m) { return disk::load_mesh_netgen(f, m); }, true, serial);
    case 4: case 5: return job<c2_t>("quad", "quad", nv(c2_t()), r.integer(0, 2), r, w_cart, [](const char *f, auto& m) { return disk::load_mesh_diskpp_cartesian(f, m); }, false, serial);
    case 6: case 7: return job<c3_t>("hex", "hex", nv(c3_t()), r.integer(0, 1), r, w_cart, [](const char *f, auto& m) { return disk::load_mesh_diskpp_cartesian(f, m); }, false, serial);
    case 8: return job<g2_t>("poly2d", "poly2d", nv(g2_t()), 0, r, w_poly, [](const char *f, auto& m) { return disk::load_mesh_poly(f, m); }, false, serial);
    case 9: return job<g3_t>("poly3d", "poly3d", nv(g3_t()), 0, r, w_poly, [](const char *f, auto& m) { return disk::load_mesh_poly(f, m); }, false, serial);
    case 10: return job<g3_t>("fvca6", "msh", nv(g3_t()), 0, r, w_fvca6, [](const char *f, auto& m) { return disk::load_mesh_fvca6_3d(f, m); }, false, serial);
    case 11: return maker<s2_t>("mesher2d", nv(s2_t()), 2, r.g());
    case 12: return maker<s3_t>("mesher3d", nv(s3_t()), 1, r.g());
    default: return maker<g2_t>("polygons", nv(g2_t()), 1, r.g());
    }
}
int main(int argc, char **argv)
{
    init(argc, argv, "C26"); warm_facets(); char t[] = "/tmp/c26.XXXXXX"; dir = mkdtemp(t);
    for (size_t c = 0; c < n_of(500, 5000); c++) run_case(cat("load/", c), [&](Rng& r) { if (reports.load() > 20) { skip("races found already"); return; }
        size_t nt = c%4 == 0 ? 1 : r.integer(2, 6), n = c%4 == 0 ? 6 : r.integer(2, 5); std::vector<Job> jobs; for (size_t i = 0; i < n; i++) jobs.push_back(random_job(r, i));
        Pool p; unsigned before = reports.load(); p.run(nt, n, r.coin(0.3), r, [&](size_t, size_t i, Out& o) { jobs[i].load(o); }); std::string s; for (auto& j : jobs) s += j.what+" ";
        for (auto& j : jobs) sig(cat("load/", j.what, "/threads ", nt)); p.evidence("load", nt, n);
        verdict("load", before, p, n, [&](size_t i, Out& o, std::string& e) { try { jobs[i].load(o); } catch (const std::exception& x) { e = std::string("exception ")+x.what(); } catch (...) { e = "unknown exception"; } }, [&](size_t i) { return jobs[i].what; });
        for (auto& j : jobs) if (!j.file.empty()) std::filesystem::remove(j.file); });
    { std::error_code ec; std::filesystem::remove_all(dir, ec); }
    return finish();
}
#else
template<typename M> struct Shared {
    static constexpr size_t D = M::dimension; using cell = typename M::cell; const M& m; size_t k; disk::hho_degree_info hdi; std::vector<cell> cls; disk::scalar_boundary_conditions<M> sbc; disk::vector_boundary_conditions<M> vbc; Poly<D> f, g; Eigen::Matrix<T,D,D> K; disk::MaterialData<T> mat;
    disk::MeshDegreeInfo<M> mdi; std::vector<disk::DegreeInfo> none;
    using op = std::function<void(const Shared&, size_t, Out&)>; std::vector<std::pair<std::string, op>> cellops, wholeops;
    Shared(const M& m_, size_t k_, Rng& r) : m(m_), k(k_), hdi(k_, k_), cls(m_.cells_begin(), m_.cells_end()), sbc(m_), vbc(m_), f(Poly<D>::random(3, r, orc::frame(m_).first, orc::frame(m_).second)), g(Poly<D>::random(2, r, orc::frame(m_).first, orc::frame(m_).second)), K(spd(D, r, 0.5, 2)), mat(1.3, 0.7, 0.2, 0.1, 0.05), mdi(m_, k_, k_, k_) {
        auto ff = [this](const pt<D>& x) -> T { return f(x); }; auto vf = [this](const pt<D>& x) { V<D> v; for (size_t i = 0; i < D; i++) v(i) = f(x)*(i+1)+g(x); return v; };
        std::set<size_t> ids; for (auto it = m.faces_begin(); it != m.faces_end(); ++it) if (m.is_boundary(*it)) ids.insert(m.boundary_id(*it)); bool first = true; for (auto id : ids) { if (first || r.coin()) { sbc.addDirichletBC(disk::DIRICHLET, id, std::function<T(pt<D>)>(ff)); vbc.addDirichletBC(disk::DIRICHLET, id, std::function<V<D>(pt<D>)>(vf)); } else { sbc.addNeumannBC(disk::NEUMANN, id, std::function<T(pt<D>)>(ff)); vbc.addNeumannBC(disk::NEUMANN, id, std::function<V<D>(pt<D>)>(vf)); } first = false; }
    }
};
template<typename M> void operations(Shared<M>& s)
{
    constexpr size_t D = M::dimension; using S = Shared<M>; auto& C = s.cellops; auto& W = s.wholeops; using P = pt<D>;
    auto add = [&](const char *n, auto f) { C.push_back({n, [f](const S& s, size_t i, Out& o) { f(s, s.m, s.cls[i], o); }}); };
    add("geometry", [](const S& s, const M& m, const auto& cl, Out& o) { put(o, points(m, cl)); put(o, barycenter(m, cl)); put(o, measure(m, cl)); put(o, diameter(m, cl)); put(o, offset(m, cl)); put(o, m.domain_info(cl).id()); put(o, m.lookup(cl)); auto b = barycenter(m, cl);
        for (auto& fc : faces(m, cl)) { put(o, points(m, fc)); put(o, barycenter(m, fc)); put(o, measure(m, fc)); put(o, diameter(m, fc)); put(o, normal(m, cl, fc)); put(o, offset(m, fc)); put(o, m.is_boundary(fc)); put(o, m.boundary_info(fc).id()); put(o, m.lookup(fc)); }
        for (auto i : faces_id(m, cl)) put(o, i); put(o, howmany_faces(m, cl)); });
    add("quadratures", [](const S& s, const M& m, const auto& cl, Out& o) { for (size_t d = 0; d <= 2*s.k+3; d++) putq(o, integrate(m, cl, d)); for (auto& fc : faces(m, cl)) for (size_t d = 0; d <= 2*s.k+3; d++) putq(o, integrate(m, fc, d)); });
    add("bases", [](const S& s, const M& m, const auto& cl, Out& o) { size_t k = s.k+1; auto b = disk::make_scalar_monomial_basis(m, cl, k); auto v = disk::make_vector_monomial_basis(m, cl, k); auto t = disk::make_matrix_monomial_basis(m, cl, k); auto y = disk::make_sym_matrix_monomial_basis(m, cl, k);
        for (auto& q : integrate(m, cl, 2)) { put(o, b.eval_functions(q.point())); put(o, b.eval_gradients(q.point())); put(o, v.eval_functions(q.point())); put(o, v.eval_divergences(q.point())); for (auto& x : t.eval_functions(q.point())) put(o, x); for (auto& x : y.eval_functions(q.point())) put(o, x); for (auto& x : v.eval_gradients(q.point())) put(o, x); }
        for (auto& fc : faces(m, cl)) { auto fb = disk::make_scalar_monomial_basis(m, fc, k); auto fv = disk::make_vector_monomial_basis(m, fc, k); for (auto& q : integrate(m, fc, 2)) { put(o, fb.eval_functions(q.point())); put(o, fv.eval_functions(q.point())); } put(o, disk::make_mass_matrix(m, fc, fb)); }
        put(o, disk::make_mass_matrix(m, cl, b)); put(o, disk::make_stiffness_matrix(m, cl, b)); put(o, disk::make_mass_matrix(m, cl, v)); put(o, disk::make_rhs(m, cl, b, [&](const P& x) -> T { return s.f(x); }, 1)); });
    add("projections", [](const S& s, const M& m, const auto& cl, Out& o) { auto sf = [&](const P& x) -> T { return s.f(x); }; auto vf = [&](const P& x) { V<D> v; for (size_t i = 0; i < D; i++) v(i) = s.f(x)*(i+1); return v; }; put(o, disk::project_function(m, cl, s.hdi, disk::scalar_rhs_function<M>(sf), 2)); put(o, disk::project_function(m, cl, s.hdi, disk::vector_rhs_function<M>(vf), 2)); put(o, disk::project_function(m, cl, s.k+1, disk::scalar_rhs_function<M>(sf), 1)); put(o, disk::project_function(m, cl, s.mdi, disk::scalar_rhs_function<M>(sf), 2)); });
    add("scalar HHO", [](const S& s, const M& m, const auto& cl, Out& o) { auto [R, A] = disk::make_scalar_hho_laplacian(m, cl, s.hdi); auto G = disk::make_vector_hho_gradrec(m, cl, s.hdi); MX Z = disk::make_scalar_hho_stabilization(m, cl, R, s.hdi); put(o, R); put(o, A); put(o, Z); put(o, G); put(o, disk::make_scalar_hdg_stabilization(m, cl, s.hdi)); put(o, disk::make_scalar_dg_stabilization(m, cl, s.hdi, true));
        put(o, disk::make_scalar_hho_laplacian(m, cl, s.hdi, disk::diffusion_tensor<M>(s.K))); auto cb = disk::make_scalar_monomial_basis(m, cl, s.hdi.cell_degree()); VX b = disk::make_rhs(m, cl, cb, [&](const P& x) -> T { return s.f(x); }); auto sc = disk::make_scalar_static_condensation(m, cl, s.hdi, MX(A+Z), b); put(o, sc); put(o, disk::make_scalar_static_decondensation(m, cl, s.hdi, MX(A+Z), b, sc.second)); });
    add("vector HHO", [](const S& s, const M& m, const auto& cl, Out& o) { disk::hho_degree_info hdi(std::max<size_t>(s.k, 1), std::max<size_t>(s.k, 1)); auto L = disk::make_vector_hho_laplacian(m, cl, hdi); auto E = disk::make_vector_hho_symmetric_laplacian(m, cl, hdi); auto G = disk::make_matrix_hho_gradrec(m, cl, hdi); auto Y = disk::make_matrix_hho_symmetric_gradrec(m, cl, hdi); put(o, L); put(o, E); put(o, G); put(o, Y); put(o, disk::make_vector_hdg_stabilization(m, cl, hdi)); put(o, disk::make_hho_divergence_reconstruction(m, cl, hdi)); put(o, disk::make_vector_hho_stabilization(m, cl, L.first, hdi)); });
    add("boundary conditions", [](const S& s, const M& m, const auto& cl, Out& o) { for (auto& fc : faces(m, cl)) { put(o, s.sbc.is_dirichlet_face(fc)); put(o, s.vbc.is_dirichlet_face(fc)); put(o, s.sbc.is_neumann_face(fc)); if (s.sbc.is_dirichlet_face(fc)) { put(o, s.sbc.dirichlet_boundary_func(fc)(barycenter(m, fc))); put(o, s.sbc.dirichlet_imposed_dofs(m.lookup(fc), s.k)); put(o, s.vbc.dirichlet_boundary_type(fc)); } } put(o, s.sbc.cell_has_dirichlet_faces(cl)); });
    add("behaviour laws", [](const S& s, const M& m, const auto& cl, Out& o) { disk::LinearIsotropicAndKinematicHardening_qp<T,D> q; disk::HenckyMises_qp<T,D> h; for (int k = 0; k < 4; k++) { Eigen::Matrix<T,D,D> E = (0.01*(k+1))*(s.K+s.K.transpose()); auto w = q.compute_whole(E, s.mat, true); put(o, w.first); put(o, q.getElasticStrain()); q.update(); put(o, h.compute_whole(E, s.mat, true).first); } });
    add("simplified interface", [](const S& s, const M& m, const auto& cl, Out& o) { namespace sl = disk::hho::slapl; sl::degree_info di(s.k, s.k); auto [R, A] = sl::local_operator(m, cl, di); put(o, R); put(o, A); put(o, sl::local_stabilization(m, cl, di, R)); });
    if constexpr (D == 3) add("curl", [](const S& s, const M& m, const auto& cl, Out& o) { disk::hho_degree_info hdi(disk::priv::hdi_named_args{ .rd = s.k+1, .cd = s.k+1, .fd = s.k+1 }); auto X = disk::curl_reconstruction(m, cl, hdi); put(o, X); put(o, disk::curl_hdg_stabilization(m, cl, hdi)); put(o, disk::make_vector_mass_oper(m, cl, hdi)); });
    if constexpr (D == 2) add("virtual elements", [](const S& s, const M& m, const auto& cl, Out& o) { put(o, disk::vem_2d::compute_local(m, cl, s.k+1, [&](const P& x) -> T { return s.f(x); })); });
    auto whole = [&](const char *n, auto f) { W.push_back({n, [f](const S& s, size_t, Out& o) { f(s, s.m, o); }}); };
    whole("neighbours", [](const S& s, const M& m, Out& o) { auto cv = connectivity_via_faces(m); for (auto& cl : m) for (auto& fc : faces(m, cl)) { auto [n, ok] = cv.neighbour_via(m, cl, fc); put(o, ok); if (ok) put(o, offset(m, n)); } put(o, average_diameter(m)); });
    whole("copies", [](const S& s, const M& m, Out& o) { M c = m; M d; d = c; o = dump(d); });
    whole("scalar assembly", [](const S& s, const M& m, Out& o) { auto as = disk::make_diffusion_assembler(m, s.hdi, s.sbc); for (auto& cl : m) { auto L = disk::make_scalar_hho_laplacian(m, cl, s.hdi); MX A = L.second+disk::make_scalar_hdg_stabilization(m, cl, s.hdi); auto cb = disk::make_scalar_monomial_basis(m, cl, s.hdi.cell_degree()); VX b = disk::make_rhs(m, cl, cb, [&](const P& x) -> T { return s.f(x); }); auto sc = disk::make_scalar_static_condensation(m, cl, s.hdi, A, b); as.assemble(m, cl, s.sbc, sc.first, sc.second, 1); } if (s.sbc.nb_faces_neumann()) as.impose_neumann_boundary_conditions(m, s.sbc); as.finalize(); put(o, as.RHS); put(o, MX(as.LHS)); if (as.RHS.size()) { Eigen::SparseLU<Eigen::SparseMatrix<T>> lu(as.LHS); VX x = lu.solve(as.RHS); put(o, x); for (auto& cl : m) put(o, as.take_local_data(m, cl, s.sbc, x)); } });
    whole("vector assembly", [](const S& s, const M& m, Out& o) { auto as = disk::make_vector_primal_hho_assembler(m, s.mdi, s.vbc); for (auto& cl : m) { MX A = disk::make_vector_hho_laplacian(m, cl, s.mdi).second+disk::make_vector_hdg_stabilization(m, cl, s.mdi); auto cb = disk::make_vector_monomial_basis(m, cl, s.k); VX b = disk::make_rhs(m, cl, cb, [&](const P& x) { V<D> v; for (size_t i = 0; i < D; i++) v(i) = s.f(x); return v; }); auto sc = std::get<0>(disk::make_vector_static_condensation_withMatrix(m, cl, s.mdi, A, b)); as.assemble(m, cl, s.vbc, sc.first, sc.second, 1); } if (s.vbc.nb_faces_neumann()) as.impose_neumann_boundary_conditions(m, s.vbc); as.finalize(); put(o, as.RHS); put(o, MX(as.LHS)); });
}
template<typename M> void run(size_t its)
{
    M proto; for (size_t c = 0; c < its; c++) run_case(cat(kind<M>(), "/", c), [&](Rng& r) { if (reports.load() > 20) { skip("races found already"); return; }
        M m; std::string d = make(m, r, c%nvariants(proto), M::dimension == 3 ? 0 : r.integer(0, 1)); size_t k = M::dimension == 3 ? r.integer(0, 1) : r.integer(0, 2); if (m.cells_size() > (M::dimension == 3 ? 30 : 60)) { skip("large mesh"); return; }
        Shared<M> s(m, k, r); operations(s); size_t nc = s.cls.size(), use = std::min<size_t>(nc, M::dimension == 3 ? 2 : 4), ops = s.cellops.size(), wo = s.wholeops.size(), n = use*ops+wo; std::vector<size_t> pick(nc); for (size_t i = 0; i < nc; i++) pick[i] = i; r.shuffle(pick);
        /* task i: operation i%ops on a cell, then the whole-mesh operations */
        auto task = [&](size_t i, Out& o) { if (i < use*ops) s.cellops[i%ops].second(s, pick[i/ops], o); else s.wholeops[i-use*ops].second(s, 0, o); };
        auto name = [&](size_t i) { return cat(d, " k=", k, " ", i < use*ops ? s.cellops[i%ops].first : s.wholeops[i-use*ops].first); };
        size_t nt = r.integer(2, 6); Pool p; unsigned before = reports.load(); p.run(nt, n, r.coin(0.25), r, [&](size_t, size_t i, Out& o) { task(i, o); }); p.evidence(cat(kind<M>(), "/k", k, "/threads ", nt), nt, ops);
        verdict("shared-mesh", before, p, n, [&](size_t i, Out& o, std::string& e) { try { task(i, o); } catch (const std::exception& x) { e = std::string("exception ")+x.what(); } catch (...) { e = "unknown exception"; } }, name); });
}
int main(int argc, char **argv)
{
    init(argc, argv, "C26"); warm_facets();
#if PART == 2
    run<s2_t>(n_of(90, 900)); run<c2_t>(n_of(70, 700));
#elif PART == 5
    run<g2_t>(n_of(120, 1200));
#elif PART == 3
    run<s3_t>(n_of(40, 400)); run<c3_t>(n_of(20, 200));
#else
    run<g3_t>(n_of(40, 400));
#endif
    return finish();
}
#endif
