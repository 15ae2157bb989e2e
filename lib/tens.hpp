// helpers for the behaviour-law monitors: random tensors, second-order dual
// numbers, and the matrix logarithm with two derivatives
#pragma once
#include "mon.hpp"
#include "diskpp/common/eigen.hpp"
namespace tens {
using T = double; using mon::Rng;
template<int D> using Mx = Eigen::Matrix<T,D,D>;
template<int D> using T4 = Eigen::Matrix<T,D*D,D*D>;
/* entry ijkl of a fourth-order tensor stored in blocks (ij)(kl) */
template<int D> T at(const T4<D>& a, int i, int j, int k, int l) { return a(i*D+k, j*D+l); }
template<int D> Mx<D> dot2(const T4<D>& a, const Mx<D>& m) { Mx<D> r = Mx<D>::Zero(); for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) for (int k = 0; k < D; k++) for (int l = 0; l < D; l++) r(i,j) += at<D>(a,i,j,k,l)*m(k,l); return r; }
template<int D> T asym(const T4<D>& a) { T e = 0; for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) for (int k = 0; k < D; k++) for (int l = 0; l < D; l++) e = std::max(e, std::abs(at<D>(a,i,j,k,l)-at<D>(a,k,l,i,j))); return e/(1+a.cwiseAbs().maxCoeff()); }
template<int D> T4<D> restrict3(const T4<3>& a) { T4<D> r; for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) for (int k = 0; k < D; k++) for (int l = 0; l < D; l++) r(i*D+k,j*D+l) = at<3>(a,i,j,k,l); return r; }
template<int D> Mx<3> embed(const Mx<D>& m, T d) { Mx<3> r = Mx<3>::Zero(); for (int i = D; i < 3; i++) r(i,i) = d; r.template block<D,D>(0,0) = m; return r; }
template<int D> Mx<D> rmat(Rng& r, T s = 1) { Mx<D> m; for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) m(i,j) = s*r.real(-1,1); return m; }
template<int D> Mx<D> rsym(Rng& r, T s = 1) { Mx<D> m = rmat<D>(r, s); return (m+m.transpose())/2; }
template<int D> Mx<D> rrot(Rng& r) { Mx<D> m; for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) m(i,j) = r.normal(); Eigen::HouseholderQR<Mx<D>> q(m); Mx<D> Q = q.householderQ(); if (Q.determinant() < 0) Q.col(0) *= -1; return Q; }
template<int D> Mx<D> dev(const Mx<D>& m) { return m-m.trace()/D*Mx<D>::Identity(); }
/* relative distance, absolute for small references; unequal NaNs count as infinite */
template<typename A, typename B> T dist(const A& a, const B& b, T floor = 1) { T d = (a-b).cwiseAbs().maxCoeff(), n = floor+b.cwiseAbs().maxCoeff(); T e = d/std::max(n, 1e-300); for (int i = 0; i < a.size(); i++) if (!std::isfinite(a(i))) return 1e300; return e; }
/* f + f1 x + f2 y + f12 x y with x^2 = y^2 = 0 */
struct HD { T f = 0, a = 0, b = 0, c = 0; HD(T v = 0) : f(v) {} HD(T v, T p, T q, T s) : f(v), a(p), b(q), c(s) {}
    HD apply(T g, T d, T dd) const { return {g, d*a, d*b, d*c+dd*a*b}; } };
inline HD operator+(const HD& x, const HD& y) { return {x.f+y.f, x.a+y.a, x.b+y.b, x.c+y.c}; }
inline HD operator-(const HD& x, const HD& y) { return {x.f-y.f, x.a-y.a, x.b-y.b, x.c-y.c}; }
inline HD operator*(const HD& x, const HD& y) { return {x.f*y.f, x.a*y.f+x.f*y.a, x.b*y.f+x.f*y.b, x.c*y.f+x.a*y.b+x.b*y.a+x.f*y.c}; }
inline HD inv(const HD& x) { return x.apply(1/x.f, -1/(x.f*x.f), 2/(x.f*x.f*x.f)); }
inline HD log(const HD& x) { return x.apply(std::log(x.f), 1/x.f, -1/(x.f*x.f)); }
inline HD pow(const HD& x, T p) { return x.apply(std::pow(x.f, p), p*std::pow(x.f, p-1), p*(p-1)*std::pow(x.f, p-2)); }
using HM = std::array<std::array<HD,3>,3>;
inline HM lift(const Mx<3>& F, const Mx<3>& A, const Mx<3>& B) { HM m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m[i][j] = HD(F(i,j), A(i,j), B(i,j), 0); return m; }
inline HD det(const HM& m) { return m[0][0]*(m[1][1]*m[2][2]-m[1][2]*m[2][1])-m[0][1]*(m[1][0]*m[2][2]-m[1][2]*m[2][0])+m[0][2]*(m[1][0]*m[2][1]-m[1][1]*m[2][0]); }
inline HD sq(const HM& m) { HD s; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) s = s+m[i][j]*m[i][j]; return s; }
template<typename F> void derivatives(const Mx<3>& X, const F& energy, T& e, Mx<3>& d, T4<3>& dd) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) { Mx<3> A = Mx<3>::Zero(), B = A; A(i,j) = 1; B(k,l) = 1; HD v = energy(lift(X, A, B)); e = v.f; d(i,j) = v.a; dd(i*3+k,j*3+l) = v.c; } }
/* log C and its derivatives from log C = int_0^1 (C-I)(s(C-I)+I)^-1 ds */
struct Log { std::vector<std::pair<T, Mx<3>>> q; std::vector<T> pts; Mx<3> L;
    Log(const Mx<3>& C) { Mx<3> B = C-Mx<3>::Identity(); L.setZero(); static const std::array<std::array<T,2>,8> gl = {{{0.0950125098376374,0.1894506104550685},{0.2816035507792589,0.1826034150449236},{0.4580167776572274,0.1691565193950025},{0.6178762444026438,0.1495959888165767},{0.7554044083550030,0.1246289712555339},{0.8656312023878318,0.0951585116824928},{0.9445750230732326,0.0622535239386479},{0.9894009349916499,0.0271524594117541}}}; int n = 24; std::vector<T> x; for (int i = 0; i <= n; i++) { T u = T(i)/n; x.push_back(u*u*(3-2*u)); } for (int i = 0; i < n; i++) for (auto& g : gl) for (int sg : {-1, 1}) { T h = (x[i+1]-x[i])/2, s = (x[i]+x[i+1])/2+sg*h*g[0], w = h*g[1]; Mx<3> R = (s*B+Mx<3>::Identity()).inverse(); q.push_back({w, R}); pts.push_back(s); L += w*B*R; } }
    Mx<3> d(const Mx<3>& E) const { Mx<3> r = Mx<3>::Zero(); for (auto& [w, R] : q) r += w*R*E*R; return r; }
    /* M : d2 log C [E, .], as a symmetric matrix; R symmetric */
    Mx<3> dd(const Mx<3>& M, const Mx<3>& E) const { Mx<3> r = Mx<3>::Zero(); for (size_t i = 0; i < q.size(); i++) { auto& [w, R] = q[i]; r -= w*pts[i]*(R*M*R*E*R+R*E*R*M*R); } return r; } };
/* first Piola stress and tangent of a small-strain answer (stress S, tangent C) in terms of (log F'F)/2 */
struct LogStress { Mx<3> P; T4<3> A; LogStress(const Mx<3>& F, const Log& L, const Mx<3>& S, const T4<3>& C) { Mx<3> dS = L.d(S); P = F*dS; for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) { Mx<3> H = Mx<3>::Zero(); H(k,l) = 1; Mx<3> dC = F.transpose()*H+H.transpose()*F; Mx<3> dE = L.d(dC)/2; Mx<3> v = H*dS+F*(L.dd(S, dC)+L.d(dot2<3>(C, dE))); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) A(i*3+k,j*3+l) = v(i,j); } } };
}
