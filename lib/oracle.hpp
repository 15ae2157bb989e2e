// Independent arithmetic the monitors compare the library with: reference
// quadrature computed from scratch, own decomposition of elements in simplices,
// random polynomials with exact derivatives. Nothing here calls diskpp beyond
// reading the points and faces of an element (which C01 monitors).
#pragma once
#include "meshes.hpp"

namespace orc {
using vm::T;

/* Gauss-Legendre on [-1,1] by Newton iteration */
inline const std::vector<std::pair<double,double>>& gl(size_t n)
{
    static std::map<size_t, std::vector<std::pair<double,double>>> cache;
    auto it = cache.find(n); if (it != cache.end()) return it->second;
    std::vector<std::pair<double,double>> r;
    for (size_t i = 0; i < n; i++) {
        long double x = cosl(M_PIl*(i+0.75L)/(n+0.5L)), p0, p1, dp = 0;
        for (int k = 0; k < 100; k++) {
            p0 = 1; p1 = x;
            for (size_t j = 2; j <= n; j++) { long double p2 = ((2*j-1)*x*p1 - (j-1)*p0)/j; p0 = p1; p1 = p2; }
            if (n == 0) break;
            dp = n*(x*p1 - p0)/(x*x-1);
            long double dx = p1/dp; x -= dx; if (fabsl(dx) < 1e-19L) break;
        }
        r.push_back({(double)x, (double)(2/((1-x*x)*dp*dp))});
    }
    return cache[n] = r;
}
inline double legendre(size_t n, double x) { double a = 1, b = x; if (!n) return 1; for (size_t j = 2; j <= n; j++) { double c = ((2*j-1)*x*b-(j-1)*a)/j; a = b; b = c; } return b; }

template<size_t D> using pt = disk::point<T,D>;
template<size_t D> using V = Eigen::Matrix<T,D,1>;
template<size_t D> V<D> v(const pt<D>& p) { return vm::vec<D>(p); }
template<size_t D> pt<D> P(const V<D>& x) { pt<D> p; for (size_t i = 0; i < D; i++) p[i] = x(i); return p; }

/* a K-simplex embedded in R^D: K+1 vertices, weight = signed K-measure */
template<size_t D> struct Simplex { std::vector<V<D>> p; T meas; };
template<size_t D> using QP = std::vector<std::pair<pt<D>, T>>;

template<size_t D> T kmeasure(const std::vector<V<D>>& p)
{
    size_t K = p.size()-1; if (K == 0) return 1;
    Eigen::MatrixXd A(D, K); for (size_t i = 0; i < K; i++) A.col(i) = p[i+1]-p[0];
    double f = 1; for (size_t i = 2; i <= K; i++) f *= i;
    if (K == D) return std::abs(A.determinant())/f;
    if constexpr (D == 3) if (K == 2) { V<3> a = A.col(0), b = A.col(1); return a.cross(b).norm()/2; }
    return A.col(0).norm();
}

/* collapsed tensor Gauss: exact for total degree <= deg, weights sum to meas */
template<size_t D> void simplex_qps(const Simplex<D>& s, size_t deg, QP<D>& out)
{
    size_t K = s.p.size()-1, n = deg/2 + 2; auto& g = gl(n);
    if (K == 0) { out.push_back({P<D>(s.p[0]), s.meas}); return; }
    auto u = [&](size_t i) { return 0.5*(1+g[i].first); };
    auto w = [&](size_t i) { return 0.5*g[i].second; };
    for (size_t i = 0; i < n; i++) {
        if (K == 1) { V<D> x = (1-u(i))*s.p[0] + u(i)*s.p[1]; out.push_back({P<D>(x), w(i)*s.meas}); continue; }
        for (size_t j = 0; j < n; j++) {
            if (K == 2) {
                double a = u(i), b = u(j)*(1-a);
                V<D> x = (1-a-b)*s.p[0] + a*s.p[1] + b*s.p[2];
                out.push_back({P<D>(x), 2*w(i)*w(j)*(1-a)*s.meas}); continue;
            }
            for (size_t k = 0; k < n; k++) {
                double a = u(i), b = u(j)*(1-a), c = u(k)*(1-a-b);
                V<D> x = (1-a-b-c)*s.p[0] + a*s.p[1] + b*s.p[2] + c*s.p[3];
                out.push_back({P<D>(x), 6*w(i)*w(j)*w(k)*(1-a)*(1-a-b)*s.meas});
            }
        }
    }
}

template<typename M, typename E> std::vector<V<M::dimension>> vpts(const M& m, const E& e)
{
    std::vector<V<M::dimension>> r; auto st = m.backend_storage();
    for (auto p : e.point_ids()) r.push_back(v<M::dimension>(st->points[size_t(p)]));
    return r;
}
/* vertices of a 2D cell in cyclic order */
template<typename M> std::vector<V<2>> polygon(const M& m, const typename M::cell& c)
{
    auto p = vpts(m, c);
    if constexpr (std::is_same_v<M, vm::c2_t>) std::swap(p[2], p[3]);
    return p;
}
inline T shoelace(const std::vector<V<2>>& p) { T a = 0; for (size_t i = 0; i < p.size(); i++) { auto& q = p[i]; auto& r = p[(i+1)%p.size()]; a += (q(0)-p[0](0))*(r(1)-p[0](1))-(r(0)-p[0](0))*(q(1)-p[0](1)); } return a/2; }

template<size_t D> V<D> mean(const std::vector<V<D>>& p) { V<D> c = V<D>::Zero(); for (auto& q : p) c += q; return c/T(p.size()); }

template<typename M> std::vector<Simplex<M::dimension>> split_face(const M& m, const typename M::face& f)
{
    constexpr size_t D = M::dimension; auto p = vpts(m, f); std::vector<Simplex<D>> r;
    if constexpr (D == 3) {
        for (size_t i = 1; i+1 < p.size(); i++) { std::vector<V<D>> q{p[0], p[i], p[i+1]}; r.push_back({q, kmeasure<D>(q)}); }
    } else r.push_back({p, kmeasure<D>(p)});
    return r;
}
template<typename M> std::vector<Simplex<M::dimension>> split_cell(const M& m, const typename M::cell& c)
{
    constexpr size_t D = M::dimension; std::vector<Simplex<D>> r;
    if constexpr (D == 1) { auto p = vpts(m, c); r.push_back({p, std::abs(p[1](0)-p[0](0))}); }
    else if constexpr (D == 2) {
        auto p = polygon(m, c); T sg = shoelace(p) < 0 ? -1 : 1;
        for (size_t i = 1; i+1 < p.size(); i++) {
            V<2> a = p[i]-p[0], b = p[i+1]-p[0];
            r.push_back({{p[0], p[i], p[i+1]}, sg*(a(0)*b(1)-a(1)*b(0))/2});
        }
    } else {
        auto apex = mean<D>(vpts(m, c));
        for (auto& f : faces(m, c)) { auto p = vpts(m, f);
            for (size_t i = 1; i+1 < p.size(); i++) { std::vector<V<D>> q{apex, p[0], p[i], p[i+1]}; r.push_back({q, kmeasure<D>(q)}); } }
    }
    return r;
}
template<typename M> QP<M::dimension> qps_cell(const M& m, const typename M::cell& c, size_t deg) { QP<M::dimension> q; for (auto& s : split_cell(m, c)) simplex_qps<M::dimension>(s, deg, q); return q; }
template<typename M> QP<M::dimension> qps_face(const M& m, const typename M::face& c, size_t deg) { QP<M::dimension> q; for (auto& s : split_face(m, c)) simplex_qps<M::dimension>(s, deg, q); return q; }
template<typename M> T meas_cell(const M& m, const typename M::cell& c) { T a = 0; for (auto& s : split_cell(m, c)) a += s.meas; return a; }
template<typename M> T meas_face(const M& m, const typename M::face& c) { T a = 0; for (auto& s : split_face(m, c)) a += s.meas; return a; }
template<size_t D> T diam(const std::vector<V<D>>& p) { T d = 0; for (auto& a : p) for (auto& b : p) d = std::max(d, (a-b).norm()); return d; }

/* outward unit normal from the vertices alone */
template<typename M> V<M::dimension> outward(const M& m, const typename M::cell& c, const typename M::face& f)
{
    constexpr size_t D = M::dimension; auto fp = vpts(m, f); auto cp = vpts(m, c);
    if constexpr (D == 1) { V<1> n; n(0) = fp[0](0) > mean<1>(cp)(0) ? 1 : -1; return n; }
    else if constexpr (D == 2) {
        auto p = polygon(m, c); T sg = shoelace(p) < 0 ? -1 : 1;
        for (size_t i = 0; i < p.size(); i++) {
            auto& a = p[i]; auto& b = p[(i+1)%p.size()];
            if ((a == fp[0] && b == fp[1]) || (a == fp[1] && b == fp[0])) { V<2> d = b-a; V<2> n(d(1), -d(0)); return sg*n/n.norm(); }
        }
        return V<2>::Zero();
    } else {
        /* vector area of the face, sign from the vertex mean (cells are star shaped w.r.t. it) */
        V<3> n = V<3>::Zero(); for (size_t i = 1; i+1 < fp.size(); i++) n += (fp[i]-fp[0]).cross(fp[i+1]-fp[0]);
        n /= n.norm(); if (n.dot(mean<3>(fp)-mean<3>(cp)) < 0) n = -n; return n;
    }
}

/* random polynomials with exact derivatives, in coordinates (x-c)/h */
template<size_t D> struct Poly {
    std::vector<std::array<int,D>> e; std::vector<T> a; V<D> c = V<D>::Zero(); T h = 1;
    static void multi(int deg, std::vector<std::array<int,D>>& out)
    {
        std::array<int,D> x{}; 
        std::function<void(size_t,int)> rec = [&](size_t i, int left) {
            if (i == D) { out.push_back(x); return; }
            for (int k = 0; k <= left; k++) { x[i] = k; rec(i+1, left-k); } x[i] = 0; };
        rec(0, deg);
    }
    static Poly random(int deg, mon::Rng& r, const V<D>& c, T h)
    { Poly p; p.c = c; p.h = h; if (deg >= 0) multi(deg, p.e); for (size_t i = 0; i < p.e.size(); i++) p.a.push_back(r.real(-1,1)); return p; }
    static T mono(const std::array<int,D>& e, const V<D>& s) { T v = 1; for (size_t i = 0; i < D; i++) for (int k = 0; k < e[i]; k++) v *= s(i); return v; }
    T operator()(const V<D>& x) const { V<D> s = (x-c)/h; T v = 0; for (size_t k = 0; k < e.size(); k++) v += a[k]*mono(e[k], s); return v; }
    T operator()(const pt<D>& x) const { return (*this)(vm::vec<D>(x)); }
    Poly d(size_t i) const { Poly q; q.c = c; q.h = h; for (size_t k = 0; k < e.size(); k++) if (e[k][i] > 0) { auto f = e[k]; f[i]--; q.e.push_back(f); q.a.push_back(a[k]*e[k][i]/h); } return q; }
    V<D> grad(const V<D>& x) const { V<D> g; for (size_t i = 0; i < D; i++) g(i) = d(i)(x); return g; }
    V<D> grad(const pt<D>& x) const { return grad(vm::vec<D>(x)); }
    T lap(const pt<D>& x) const { T v = 0; for (size_t i = 0; i < D; i++) v += d(i).d(i)(x); return v; }
    Poly operator*(T s) const { Poly q = *this; for (auto& x : q.a) x *= s; return q; }
};
template<typename M> std::pair<V<M::dimension>, T> frame(const M& m)
{
    std::vector<V<M::dimension>> p; for (auto it = m.points_begin(); it != m.points_end(); ++it) p.push_back(v<M::dimension>(*it));
    V<M::dimension> lo = p[0], hi = p[0]; for (auto& q : p) { lo = lo.cwiseMin(q); hi = hi.cwiseMax(q); }
    return {(lo+hi)/2, std::max((hi-lo).norm()/2, 1e-300)};
}
/* a uniformly random point of a simplex, strictly inside by the margin eps */
template<size_t D> V<D> inside(const Simplex<D>& s, mon::Rng& r, T eps = 0.02)
{
    std::vector<T> w; T sum = 0; for (size_t i = 0; i < s.p.size(); i++) { w.push_back(eps - std::log(r.real(1e-9,1))); sum += w.back(); }
    V<D> x = V<D>::Zero(); for (size_t i = 0; i < s.p.size(); i++) x += w[i]/sum*s.p[i]; return x;
}
template<typename M> V<M::dimension> random_in_cell(const M& m, const typename M::cell& c, mon::Rng& r)
{
    auto s = split_cell(m, c); std::vector<size_t> pos; for (size_t i = 0; i < s.size(); i++) if (s[i].meas > 0) pos.push_back(i);
    return inside<M::dimension>(s[pos[r.integer(0, pos.size()-1)]], r);
}
template<typename M> V<M::dimension> random_in_face(const M& m, const typename M::face& c, mon::Rng& r)
{ auto s = split_face(m, c); return inside<M::dimension>(s[r.integer(0, s.size()-1)], r); }
template<typename M> std::string kind() { return vm::mname<M>::v; }
/* shape of a face or cell: vertex count and which vertices are aligned with their neighbours */
template<typename M, typename E> std::string shape_sig(const M& m, const E& e)
{
    auto p = vpts(m, e); std::string s = std::to_string(p.size()); size_t n = p.size(); if (n < 3 || n > 24) return s;
    for (size_t i = 0; i < n; i++) { auto a = (p[(i+1)%n]-p[i]).eval(), b = (p[(i+n-1)%n]-p[i]).eval(); s += (a.dot(b) < -0.99999*a.norm()*b.norm()) ? 'a' : '.'; }
    return s;
}
/* one element of every shape (at most cap of them) plus n random ones */
template<typename M, typename E> std::vector<E> pick(const M& m, const std::vector<E>& all, size_t n, mon::Rng& r, size_t cap = 8)
{
    std::vector<E> out; std::set<std::string> seen; auto sh = all; r.shuffle(sh);
    for (auto& e : sh) { if (seen.size() >= cap) break; if (seen.insert(shape_sig(m, e)).second) out.push_back(e); }
    for (size_t i = 0; i < n; i++) out.push_back(all[r.integer(0, all.size()-1)]);
    return out;
}
} // namespace orc
