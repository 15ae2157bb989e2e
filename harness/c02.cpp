// C02: measures and normals against vertex arithmetic, on every family and placement.
#include "oracle.hpp"
using namespace vm; using namespace orc; using namespace mon;

template<typename M> void go(const M& m, const std::string& desc, double known_total)
{
    constexpr size_t D = M::dimension; std::string S = kind<M>() + ".";
    std::map<size_t, V<D>> seen; T total = 0, maxcond = 0;
    for (auto& c : m) {
        auto cp = vpts(m, c); T h = diam<D>(cp), vol = meas_cell(m, c); total += vol;
        T scale = std::pow(h, D), cond = 1; for (auto& q : cp) cond = std::max(cond, q.norm()/h); maxcond = std::max(maxcond, cond);
        near(S+"cell-measure", std::abs(measure(m, c) - vol)/scale, 1e-13*(10+cond), cat(desc, " got ", measure(m,c), " want ", vol));
        check(S+"cell-measure-positive", measure(m, c) > 0, desc);
        V<D> sum = V<D>::Zero(); Eigen::Matrix<T,D,D> gg = Eigen::Matrix<T,D,D>::Zero(); T ss = 0;
        for (auto& f : faces(m, c)) {
            T mf = measure(m, f), wf = meas_face(m, f);
            near(S+"face-measure", std::abs(mf-wf)/std::pow(h, D-1), std::is_same_v<M,g3_t> && vpts(m, f).size() > 4 ? 1e-7 : 1e-12, cat(desc, " got ", mf, " want ", wf));
            V<D> n; if constexpr (D == 1) n(0) = normal(m, c, f); else n = normal(m, c, f);
            near(S+"normal-unit", std::abs(n.norm()-1), 1e-13, desc);
            V<D> want = outward(m, c, f);
            near(S+"normal-outward", (n-want).norm(), 1e-12*(100+cond), cat(desc, " n=", n.transpose(), " want ", want.transpose()));
            auto fp = vpts(m, f);
            for (size_t i = 1; i < fp.size(); i++) near(S+"normal-orthogonal", std::abs(n.dot(fp[i]-fp[0]))/h, 1e-12*(20+cond), desc);
            if constexpr (D > 1) {
                V<D> nf = normal(m, f); near(S+"face-normal", std::min((nf-n).norm(), (nf+n).norm()), 1e-12*(100+cond), desc);
            }
            size_t id = offset(m, f);
            if (seen.count(id)) near(S+"normals-opposite", (n+seen[id]).norm(), 1e-12*(100+cond), desc); else seen[id] = n;
            sum += mf*n; ss += mf;
            /* divergence theorem on the coordinates */
            V<D> xf = V<D>::Zero(); for (auto& s : split_face(m, f)) xf += s.meas*mean<D>(s.p);
            gg += n*(xf - wf*cp[0]).transpose()*(mf/wf);
        }
        near(S+"normals-close", sum.norm()/ss, (std::is_same_v<M,g3_t> ? 1e-7 : 1e-12*(10+cond)), desc);
        near(S+"divergence-theorem", (gg - measure(m, c)*Eigen::Matrix<T,D,D>::Identity()).norm()/scale, (std::is_same_v<M,g3_t> ? 1e-7 : 1e-13*(100+cond)), desc);
        if constexpr (std::is_same_v<M, s2_t> || std::is_same_v<M, s3_t>) {
            Eigen::Matrix<T,D,D> A; for (size_t i = 0; i < D; i++) A.col(i) = cp[i+1]-cp[0];
            T sv = measure(m, c, true); check(S+"signed-measure-sign", (sv > 0) == (A.determinant() > 0), desc);
            near(S+"signed-measure", std::abs(std::abs(sv)-vol)/scale, 1e-12, desc);
        }
        sig(cell_sig(m, c));
    }
    if (known_total > 0) near(S+"domain-measure", std::abs(total-known_total)/known_total, 1e-11, desc);
    T t2 = 0; for (auto& c : m) t2 += measure(m, c); near(S+"cells-tile-domain", std::abs(t2-total)/total, 1e-12*(10+maxcond), desc);
}

template<typename M> void family(size_t maxlvl, size_t reps)
{
    M dummy; constexpr size_t D = M::dimension;
    for (size_t v = 0; v < nvariants(dummy); v++) for (size_t l = 0; l <= maxlvl; l++) for (size_t k = 0; k < reps; k++)
        run_case(cat(kind<M>(), "/v", v, "/l", l, "/", k), [&](Rng& r) {
            M m; auto d = make(m, r, v, l + (D==1)); go(m, d, -1);
            /* the same mesh after an affine map: measures scale by |det| */
            int kinds = general_affine<M>() ? 5 : 0;
            if (D > 1) for (int a : {1, 2, 3, 4, 5}) {
                if (!kinds && a != 1 && a != 4) continue;
                if (std::is_same_v<M, g2_t> && a == 5) continue; // polygons are stored counterclockwise
                std::vector<T> before; for (auto& c : m) before.push_back(meas_cell(m, c));
                M m2; Rng r2 = r; make(m2, r2, v, l); (void)m2;
                auto f = affine<D>(r, a); auto st = m.backend_storage(); auto keep = st->points;
                if (a == 1) { T s = std::pow(10., r.integer(-6, 6)); f.A = Eigen::Matrix<T,D,D>::Identity()*s; }
                m.transform([&](const disk::point<T,D>& p) { return f(p); });
                go(m, cat(d, "+affine", a), -1);
                size_t i = 0; T det = std::abs(f.A.determinant());
                for (auto& c : m) { T cond = 1, h = 0; { auto cp = vpts(m, c); h = meas_cell(m, c)/std::pow(diam<D>(cp), D-1); for (auto& q : cp) cond = std::max(cond, q.norm()/h); } near(kind<M>() + ".measure-scales", std::abs(measure(m, c)/(det*before[i]) - 1), 1e-12*(1000+cond), cat(d, " affine ", a)); i++; }
                st->points = keep;
            }
        });
}
/* rational coordinates: exact area and volume */
void rational_simplices(size_t n)
{
    using R = disk::rational<long>;
    for (size_t k = 0; k < n; k++) run_case(cat("rational/", k), [&](Rng& r) {
        { disk::simplicial_mesh<R,2> m; auto st = m.backend_storage(); long q[3][2], den = r.integer(1, 7);
          for (int i = 0; i < 3; i++) { for (int j = 0; j < 2; j++) q[i][j] = r.integer(-30, 30); st->points.push_back(disk::point<R,2>(R(q[i][0], den), R(q[i][1], den))); }
          using E = typename disk::simplicial_mesh<R,2>::surface_type; E s({disk::point_identifier<2>(0), disk::point_identifier<2>(1), disk::point_identifier<2>(2)}); st->surfaces.push_back(s);
          long det = (q[1][0]-q[0][0])*(q[2][1]-q[0][1]) - (q[2][0]-q[0][0])*(q[1][1]-q[0][1]);
          if (det) { R a = measure(m, s), b = measure(m, s, true);
            check("rational.area", a.num()*2*den*den == std::abs(det)*a.den(), cat("det ", det, " den ", den, " got ", a));
            check("rational.signed-area", b.num()*2*den*den == det*b.den(), cat("det ", det, " den ", den, " got ", b)); } else skip("degenerate rational triangle"); }
    });
}
int main(int argc, char **argv)
{
    init(argc, argv, "C02");
#if PART == 2
    family<g1_t>(6, n_of(4, 40)); family<s2_t>(2, n_of(5, 60)); family<c2_t>(3, n_of(5, 60)); family<g2_t>(3, n_of(6, 80));
    for (size_t k = 0; k < n_of(60, 3000); k++) run_case(cat("star/", k), [&](Rng& r) { g2_t m; auto d = make_star(m, r); go(m, d, -1); });
    rational_simplices(n_of(200, 5000));
#else
    family<s3_t>(1, n_of(2, 20)); family<c3_t>(2, n_of(3, 30)); family<g3_t>(2, n_of(3, 30));
#endif
    return finish();
}
