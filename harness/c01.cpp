// C01: mesh topology. Every generator, every refinement history, every builder.
#include "meshes.hpp"
#include "topo.hpp"
#include "diskpp/loaders/loader_uniform.hpp"
using namespace vm;

/* Which side of the unit box a face lies on: 2*axis (+1 for the far side), -1 none */
template<typename M>
int side_of(const M& m, const typename M::face& fc)
{
    auto pts = points(m, fc);
    for (size_t d = 0; d < M::dimension; d++) {
        bool lo = true, hi = true;
        for (auto& p : pts) { lo = lo && std::abs(p[d]) < 1e-12; hi = hi && std::abs(p[d]-1) < 1e-12; }
        if (lo) return 2*d; if (hi) return 2*d+1;
    }
    return -1;
}


/* boundary numbers mean the same side at every refinement level */
template<typename M>
void check_numbering(M& m, const std::map<int,size_t>& want, const std::string& desc)
{
    std::string S = std::string(mname<M>::v) + ".";
    const M& cm = m;
    for (auto it = cm.faces_begin(); it != cm.faces_end(); ++it) {
        int s = side_of(cm, *it);
        mon::check(S+"boundary-is-geometric-boundary", cm.is_boundary(*it) == (s >= 0), desc);
        if (s >= 0 && cm.is_boundary(*it))
            mon::check(S+"boundary-number-is-side", cm.boundary_id(*it) == want.at(s), mon::cat(desc, " side ", s, " id ", cm.boundary_id(*it)));
    }
}

/* the order of the elements and their equality are those of the lists of their subelements */
template<typename E>
void check_order(mon::Rng& r, const std::string& name)
{
    using I = typename E::subelement_type::id_type;
    std::vector<std::vector<size_t>> ls;
    for (int i = 0; i < 24; i++) { std::vector<size_t> l; if (i && r.integer(0, 1)) l = ls[r.integer(0, i-1)]; if (!l.empty() && r.integer(0, 1)) l.resize(r.integer(1, l.size())); size_t more = r.integer(l.empty() ? 2 : 0, 3); for (size_t k = 0; k < more; k++) l.push_back(r.integer(0, 3)); ls.push_back(l); }
    auto mk = [](const std::vector<size_t>& l) { std::vector<I> v; for (auto x : l) v.push_back(I(x)); return E(v); };
    for (auto& a : ls) for (auto& b : ls) { auto ea = mk(a), eb = mk(b); std::string d = mon::cat(a.size(), " against ", b.size(), " subelements");
        mon::check(name+".equal-iff-same-subelements", (ea == eb) == (a == b), d); mon::check(name+".ordered-as-subelements", (ea < eb) == (a < b), d); mon::sig(mon::cat(name, a.size(), b.size())); }
}

template<typename M>
void run_variants(size_t maxlvl, size_t reps)
{
    M dummy;
    for (size_t v = 0; v < nvariants(dummy); v++) for (size_t l = (std::is_same_v<M,s2_t> || std::is_same_v<M,s3_t>) ? 0 : 1; l <= maxlvl; l++) for (size_t r = 0; r < reps; r++)
        mon::run_case(mon::cat(mname<M>::v, ".v", v, ".l", l, ".r", r), [&](mon::Rng& rng) {
            M m; auto d = make(m, rng, v, l);
            check_mesh(m, d);
        });
}

template<typename M>
void run_mesher(size_t levels, const std::map<int,size_t>& numbering, size_t cells0, size_t factor)
{
    for (size_t l = 0; l <= levels; l++)
        mon::run_case(mon::cat("mesher.", mname<M>::v, ".l", l), [&](mon::Rng&) {
            M m; auto mesher = disk::make_simple_mesher(m);
            size_t want = cells0;
            std::string S = std::string(mname<M>::v) + ".";
            for (size_t i = 0; i < l; i++) {
                std::vector<disk::point<double,M::dimension>> before(m.points_begin(), m.points_end());
                mesher.refine(); want *= factor;
                bool kept = m.points_size() > before.size();
                for (size_t k = 0; k < before.size() && kept; k++) for (size_t d = 0; d < M::dimension; d++) kept = kept && before[k][d] == (*std::next(m.points_begin(), k))[d];
                mon::check(S+"refine-keeps-points", kept);
                mon::check(S+"refine-cell-count", m.cells_size() == want);
                auto sb = m.boundary_faces_size(); mon::check(S+"refine-has-boundary", sb > 0);
            }
            check_mesh(m, mon::cat("mesher l", l));
            check_numbering(m, numbering, mon::cat("mesher l", l));
        });
}

int main(int argc, char **argv)
{
    mon::init(argc, argv, "C01");
    using disk::point;
#if PART == 2
    run_mesher<s2_t>(mon::n_of(4,5), {{2,0},{1,1},{3,2},{0,3}}, 4, 4);
    run_mesher<c2_t>(mon::n_of(4,5), {{2,0},{1,1},{3,2},{0,3}}, 4, 4);
    for (size_t l = 0; l <= mon::n_of(4,5); l++) mon::run_case(mon::cat("mesher.hex2d.l", l), [&](mon::Rng&) {
        g2_t m; auto h = disk::make_fvca5_hex_mesher(m); h.make_level(l);
        check_mesh(m, mon::cat("fvca5hex", l));
        check_numbering(m, {{2,0},{1,1},{3,2},{0,3}}, mon::cat("fvca5hex", l));
    });
    run_variants<g1_t>(6, mon::n_of(2,10));
    run_variants<s2_t>(3, mon::n_of(2,10));
    run_variants<c2_t>(3, mon::n_of(2,10));
    run_variants<g2_t>(5, mon::n_of(4,30));
    for (size_t n : {1,2,3,7,8,20}) mon::run_case(mon::cat("uniform1d.", n), [&](mon::Rng& r) {
        g1_t m; double a = r.real(-2,2); disk::uniform_mesh_loader<double,1> ld(a, a+r.real(0.1,3), n);
        mon::check("1d.populate", ld.populate_mesh(m)); check_mesh(m, mon::cat("uniform", n));
        mon::check("1d.uniform-size", m.cells_size() == n);
    });
    mon::run_case("single.1d", [&](mon::Rng& r) { g1_t m; disk::make_single_element_mesh(m, r.real(-1,0), r.real(1,2)); check_mesh(m, "single 1d"); });
    mon::run_case("single.tri", [&](mon::Rng& r) { s2_t m; disk::make_single_element_mesh(m, point<T,2>(0,0), point<T,2>(r.real(1,2),0), point<T,2>(0,1)); check_mesh(m, "single tri"); });
    mon::run_case("single.quad", [&](mon::Rng& r) { c2_t m; disk::make_single_element_mesh(m, point<T,2>(r.real(-1,1),0.), 1.0, 0.5); check_mesh(m, "single quad"); });
    for (size_t n : {3,4,5,6,9,17}) mon::run_case(mon::cat("single.poly", n), [&](mon::Rng& r) { g2_t m; disk::make_single_element_mesh(m, r.real(0.5,2), n); check_mesh(m, "single poly"); });
    for (size_t n : {3,4,5,8}) mon::run_case(mon::cat("single.csv", n), [&](mon::Rng& r) {
        std::string fn = mon::cat(mon::st().scratch, "/p", n, ".csv");
        { std::ofstream f(fn); f.precision(17); f << "x;y\n"; for (size_t i = 0; i < n; i++) f << std::cos(2*M_PI*i/n) << ";" << std::sin(2*M_PI*i/n) << "\n"; }
        g2_t m; mon::check("poly.csv-loads", disk::load_single_element_csv(m, fn)); mon::check("poly.csv-count", m.points_size() == n && m.faces_size() == n && m.cells_size() == 1);
        check_mesh(m, "csv");
    });
#else
    run_mesher<s3_t>(mon::n_of(2,3), {{4,0},{2,1},{0,2},{5,3},{3,4},{1,5}}, 6, 8);
    mon::run_case("element-order", [&](mon::Rng& r) { for (int i = 0; i < 4; i++) { check_order<g2_t::cell>(r, "polygon"); check_order<g3_t::cell>(r, "polyhedron"); } });
    run_variants<s3_t>(1, mon::n_of(1,5));
    run_variants<c3_t>(3, mon::n_of(2,15));
    run_variants<g3_t>(3, mon::n_of(2,15));
    mon::run_case("single.tet", [&](mon::Rng& r) { s3_t m; disk::make_single_element_mesh(m, point<T,3>(0,0,0), point<T,3>(1,0,0), point<T,3>(0,1,0), point<T,3>(0.,0.,r.real(0.5,2))); check_mesh(m, "single tet"); });
    mon::run_case("single.hex", [&](mon::Rng& r) { c3_t m; disk::make_single_element_mesh(m, point<T,3>(0,0,0), 1.0, r.real(0.5,2), 2.0); check_mesh(m, "single hex"); });
#endif
    return mon::finish();
}
