// C23: fourth-order algebra, conversions, deformation and stress measures, and
// the logarithmic strain with both derivatives, against index loops, exact
// polynomial identities and an integral representation of the logarithm.
#include "mon.hpp"
#include "diskpp/common/eigen.hpp"
#include "diskpp/mechanics/behaviors/maths_tensor.hpp"
#include "diskpp/mechanics/behaviors/maths_utils.hpp"
#include "diskpp/mechanics/behaviors/maths_jacobian_derivate.hpp"
#include "diskpp/mechanics/behaviors/tensor_conversion.hpp"
#include "diskpp/mechanics/deformation_tensors.hpp"
#include "diskpp/mechanics/stress_tensors.hpp"
#include "diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp"
using namespace mon; using T = double;
template<int D> using Mx = disk::static_matrix<T,D,D>; template<int D> using T4 = disk::static_tensor<T,D>;
/* independent fourth-order tensor: plain array with four indices */
template<int D> struct Ten { T a[D][D][D][D] = {}; T& operator()(int i, int j, int k, int l) { return a[i][j][k][l]; } T operator()(int i, int j, int k, int l) const { return a[i][j][k][l]; }
    T4<D> pack() const { T4<D> r; r.setZero(); for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) for (int k = 0; k < D; k++) for (int l = 0; l < D; l++) r(i*D+k, j*D+l) = a[i][j][k][l]; return r; } };
#define LOOP4 for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) for (int k = 0; k < D; k++) for (int l = 0; l < D; l++)
template<int D> Mx<D> rmat(Rng& r, T s = 1) { Mx<D> m; for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) m(i,j) = s*r.real(-1,1); return m; }
template<int D> Mx<D> rsym(Rng& r, T s = 1) { Mx<D> m = rmat<D>(r, s); return (m+m.transpose())/2; }
template<int D> Mx<D> rrot(Rng& r) { Mx<D> m; for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) m(i,j) = r.normal(); Eigen::HouseholderQR<Mx<D>> q(m); Mx<D> Q = q.householderQ(); if (Q.determinant() < 0) Q.col(0) *= -1; return Q; }
template<int D> Mx<D> rdef(Rng& r, T s = 0.5) { for (;;) { Mx<D> F = Mx<D>::Identity()+rmat<D>(r, s); if (F.determinant() > 0.1) return F; } }
template<int D> Ten<D> rten(Rng& r, bool minor = false, bool major = false) { Ten<D> t; LOOP4 t(i,j,k,l) = r.real(-1,1); if (minor) { Ten<D> u; LOOP4 u(i,j,k,l) = (t(i,j,k,l)+t(j,i,k,l)+t(i,j,l,k)+t(j,i,l,k))/4; t = u; } if (major) { Ten<D> u; LOOP4 u(i,j,k,l) = (t(i,j,k,l)+t(k,l,i,j))/2; t = u; } return t; }
template<typename A, typename B> bool eqm(const std::string& k, const A& a, const B& b, T tol = 1e-13, const std::string& msg = "") { return near(k, (a-b).cwiseAbs().maxCoeff()/(1+b.cwiseAbs().maxCoeff()), tol, msg); }
template<int D> Mx<D> dot2(const Ten<D>& t, const Mx<D>& m) { Mx<D> r = Mx<D>::Zero(); LOOP4 r(i,j) += t(i,j,k,l)*m(k,l); return r; }
template<int D> void algebra(Rng& r)
{
    using namespace disk; std::string s = cat(D, "d"); auto A = rten<D>(r), B = rten<D>(r); T4<D> a = A.pack(), b = B.pack(); Mx<D> m = rmat<D>(r), n = rmat<D>(r);
    { bool ok = true; LOOP4 ok &= coeff<T,D>(a, i, j, k, l) == A(i,j,k,l); check("coeff.read", ok, s); T4<D> c = T4<D>::Zero(); LOOP4 coeff<T,D>(c, i, j, k, l, A(i,j,k,l)); check("coeff.write", c == a, s); for (int w = 0; w < 8; w++) { int q[4]; for (int& x : q) x = r.integer(0, D-1); q[w%4] = w < 4 ? -1 : D; bool t = false, u = false; try { coeff<T,D>(a, q[0], q[1], q[2], q[3]); } catch (const std::invalid_argument&) { t = true; } T4<D> z = a; try { coeff<T,D>(z, q[0], q[1], q[2], q[3], T(7)); } catch (const std::invalid_argument&) { u = true; } check("coeff.refused", t && u && z == a, s); } }
    { Mx<D> w = Mx<D>::Zero(), v = w; LOOP4 { w(i,j) += A(i,j,k,l)*m(k,l); v(i,j) += m(k,l)*A(k,l,i,j); } eqm("product.tensor-matrix", tm_prod<T,D>(a, m), w); eqm("product.matrix-tensor", tm_prod<T,D>(m, a), v); eqm("product.contracted", ContractedProduct<T,D>(a, m), w); eqm("product.contracted-left", ContractedProduct<T,D>(m, a), v); Mx<D> sum = Mx<D>::Zero(); for (int p = 0; p < D; p++) for (int q = 0; q < D; q++) { Mx<D> e = Mx<D>::Zero(), one = Mx<D>::Zero(); one(p,q) = m(p,q); e = tm_prod<T,D>(a, m, p, q); Mx<D> x = Mx<D>::Zero(); for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) x(i,j) = A(i,j,p,q)*m(p,q); eqm("product.one-entry", e, x); sum += e; } eqm("product.entries-add", sum, w); check("product.scalar", tm_prod<T>(T(3), T(-2)) == -6); }
    { Ten<D> K, P, Q, C, O, X; LOOP4 { K(i,j,k,l) = m(i,j)*n(k,l); P(i,j,k,l) = m(i,k)*n(j,l); Q(i,j,k,l) = m(i,l)*n(j,k); O(i,j,k,l) = (m(i,k)*n(j,l)+m(i,l)*n(j,k))/2; X(i,j,k,l) = A(k,l,i,j); for (int p = 0; p < D; p++) for (int q = 0; q < D; q++) C(i,j,k,l) += A(i,j,p,q)*B(p,q,k,l); }
      eqm("dyadic.matrices", Kronecker<T,D>(m, n), K.pack()); eqm("dyadic.sup", ProductSup<T,D>(m, n), P.pack()); eqm("dyadic.inf", ProductInf<T,D>(m, n), Q.pack()); eqm("dyadic.odot", Odot<T,D>(m, n), O.pack()); eqm("product.tensors", ContractedProduct<T,D>(a, b), C.pack()); eqm("transpose", disk::transpose<T,D>(a), X.pack()); }
    { static_vector<T,D> u, v; for (int i = 0; i < D; i++) { u(i) = r.real(-1,1); v(i) = r.real(-1,1); } Mx<D> w; T d = 0, e = 0; for (int i = 0; i < D; i++) { d += u(i)*v(i); for (int j = 0; j < D; j++) { w(i,j) = u(i)*v(j); e += m(i,j)*n(i,j); } } eqm("dyadic.vectors", Kronecker<T,D>(u, v), w); near("inner.vectors", std::abs(InnerProduct<T,D>(u, v)-d), 1e-14); near("inner.matrices", std::abs(InnerProduct<T,D>(m, n)-e), 1e-14); }
    { Mx<D> I = Mx<D>::Identity(); Ten<D> t1, t2, t3; auto d = [](int x, int y) { return T(x == y); }; LOOP4 { t1(i,j,k,l) = d(i,k)*d(j,l); t2(i,j,k,l) = (d(i,k)*d(j,l)+d(i,l)*d(j,k))/2; t3(i,j,k,l) = d(i,j)*d(k,l); } eqm("identity", IdentityTensor4<T,D>(), t1.pack()); eqm("identity.symmetric", IdentitySymTensor4<T,D>(), t2.pack()); eqm("identity.trace", IxI<T,D>(), t3.pack()); }
    { Mx<D> dv = disk::deviator<T,D>(m), sp = disk::spheric<T,D>(m); eqm("deviator.sum", Mx<D>(dv+sp), m); near("deviator.trace", std::abs(dv.trace()), 1e-14); eqm("spheric", sp, Mx<D>(m.trace()/D*Mx<D>::Identity())); if (dv.norm() > 0.05) { eqm("deviator.norm-derivative", disk::NormFroFirstDerivate<T,D>(dv), Mx<D>(dv/dv.norm())); } near("von-mises", std::abs(disk::mechanics::VonMisesCriteria<T,D>(m)-std::sqrt(1.5)*dv.norm()), 1e-14); T s3 = r.real(-2,2); near("von-mises.pressure", std::abs(disk::mechanics::VonMisesCriteria<T,D>(Mx<D>(m+s3*Mx<D>::Identity()))-disk::mechanics::VonMisesCriteria<T,D>(m)), 1e-13); }
    sig(cat("algebra/", D, "/", int(std::floor(4*m.determinant()))));
}
template<int D> void jacobian(Rng& r)
{
    Mx<D> M = rmat<D>(r, 2), H = rmat<D>(r, 2); auto d1 = disk::JacobianFirstDerivate(M); T4<D> d2 = disk::JacobianSecondDerivate(M); Mx<D> c = disk::JacobianFirstDerivate(H), cs = disk::JacobianFirstDerivate(Mx<D>(M+H)); Mx<D> bil = disk::tm_prod<T,D>(d2, H);
    /* the determinant is a polynomial: its expansion is finite */
    T quad = d1.cwiseProduct(H).sum()+bil.cwiseProduct(H).sum()/2+(D == 3 ? H.determinant() : 0); near("jacobian.expansion", std::abs(M.determinant()+quad-Mx<D>(M+H).determinant()), 1e-12, cat(D)); eqm("jacobian.second", bil, Mx<D>(cs-d1-(D == 3 ? c : Mx<D>::Zero())), 1e-13, cat(D)); if (D == 2) eqm("jacobian.linear", Mx<D>(cs-d1), c);
    if (std::abs(M.determinant()) > 0.1) eqm("jacobian.first", d1, Mx<D>(M.determinant()*M.inverse().transpose()), 1e-11, cat(D)); eqm("jacobian.major", disk::transpose<T,D>(d2), d2); sig(cat("jacobian/", D, "/", int(std::floor(2*M.determinant()))));
}
inline std::vector<T> mandel(const Mx<3>& m, size_t n) { T q = std::sqrt(2.); switch (n) { case 4: return {m(0,0), m(1,1), m(2,2), q*m(0,1)}; case 5: return {m(0,0), m(1,1), m(2,2), m(0,1), m(1,0)}; case 6: return {m(0,0), m(1,1), m(2,2), q*m(0,1), q*m(0,2), q*m(1,2)}; default: return {m(0,0), m(1,1), m(2,2), m(0,1), m(1,0), m(0,2), m(2,0), m(1,2), m(2,1)}; } }
inline Mx<3> representable(Rng& r, size_t n) { Mx<3> m = n == 4 || n == 6 ? rsym<3>(r) : rmat<3>(r); if (n < 6) { m(0,2) = m(2,0) = m(1,2) = m(2,1) = 0; } return m; }
inline void conversions(Rng& r)
{
    using namespace disk; Mx<2> m2 = rmat<2>(r); Mx<3> m3 = rmat<3>(r), e = Mx<3>::Zero(), o = Mx<3>::Zero(); e.block<2,2>(0,0) = m2; o = e; o(2,2) = 1; check("embed", convertMatrix3D(m2) == e && convertMatrix3D(m3) == m3 && convertMatrix3DwithOne(m2) == o && convertMatrix3DwithOne(m3) == m3); check("restrict", convertMatrix<T,2>(m3) == Mx<2>(m3.block<2,2>(0,0)) && convertMatrix<T,3>(m3) == m3 && convertMatrix<T,2>(convertMatrix3D(m2)) == m2);
    { auto A = rten<3>(r); T4<3> a = A.pack(); T4<2> b = convertTensor<T,2>(a); bool ok = true; constexpr int D = 2; LOOP4 ok &= disk::coeff<T,2>(b, i, j, k, l) == A(i,j,k,l); check("restrict.tensor", ok && convertTensor<T,3>(a) == a); Mx<2> w = tm_prod<T,2>(b, m2); eqm("restrict.acts", w, Mx<2>(tm_prod<T,3>(a, e).block<2,2>(0,0))); }
    { Mx<3> s = rsym<3>(r); auto A = rten<3>(r, true); Mx<3> y = dot2<3>(A, s); auto v = mandel(s, 6), w = mandel(y, 6); Eigen::Matrix<T,6,1> V, W; for (int i = 0; i < 6; i++) { V(i) = v[i]; W(i) = w[i]; } Eigen::Matrix<T,6,6> N = convertTensorNotationMangel<T,3>(A.pack()); eqm("mandel", Eigen::Matrix<T,6,1>(N*V), W); static const int I[6] = {0,1,2,0,0,1}, J[6] = {0,1,2,1,2,2}; bool ok = true; for (int p = 0; p < 6; p++) for (int q = 0; q < 6; q++) ok &= std::abs(N(p,q)-A(I[p],J[p],I[q],J[q])*(p > 2 ? std::sqrt(2.) : 1)*(q > 2 ? std::sqrt(2.) : 1)) < 1e-14; check("mandel.entries", ok);
      auto B = rten<2>(r, true); Mx<2> s2 = rsym<2>(r), y2 = dot2<2>(B, s2); auto v2 = mandel(convertMatrix3D(s2), 6), w2 = mandel(convertMatrix3D(y2), 6); for (int i = 0; i < 6; i++) { V(i) = v2[i]; W(i) = w2[i]; } eqm("mandel.plane", Eigen::Matrix<T,6,1>(convertTensorNotationMangel<T,2>(B.pack())*V), W); }
    for (size_t n : {4, 5, 6, 9}) { Mx<3> m = representable(r, n), back; std::vector<T> v(n), w = mandel(m, n); convertMatrixToMgis<T,T>(m, v); T d = 0; for (size_t i = 0; i < n; i++) d = std::max(d, std::abs(v[i]-w[i])); near(cat("mgis.to.", n), d, 1e-15); back.setConstant(7); convertMatrixFromMgis<T,T>(w, back); eqm(cat("mgis.from.", n), back, m, 1e-15); back.setConstant(-3); convertMatrixFromMgis<T,T>(v, back); eqm(cat("mgis.round-trip.", n), back, m, 1e-15);
        std::vector<T> K(n*n); for (auto& x : K) x = r.real(-1,1); T4<3> tens; tens.setConstant(5); convertTensorFromMgis<T,T>(K, tens); std::vector<T> y(n, 0.); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) y[i] += K[i*n+j]*w[j]; Mx<3> got = tm_prod<T,3>(tens, m); auto g = mandel(got, n); d = 0; for (size_t i = 0; i < n; i++) d = std::max(d, std::abs(g[i]-y[i])); near(cat("mgis.tensor.", n*n), d, 1e-13); Mx<3> clean; convertMatrixFromMgis<T,T>(y, clean); eqm(cat("mgis.tensor-result.", n*n), got, clean, 1e-13); if (n == 4 || n == 6) { constexpr int D = 3; bool ok = true; LOOP4 ok &= std::abs(coeff<T,3>(tens,i,j,k,l)-coeff<T,3>(tens,j,i,k,l)) < 1e-15 && std::abs(coeff<T,3>(tens,i,j,k,l)-coeff<T,3>(tens,i,j,l,k)) < 1e-15; check(cat("mgis.tensor-minor.", n*n), ok); } }
    for (size_t n : {0, 1, 3, 7, 8, 10, 35, 80}) { std::vector<T> v(n, 1.); Mx<3> m = m3; T4<3> t = T4<3>::Zero(); int c = 0; try { convertMatrixToMgis<T,T>(m, v); } catch (const std::runtime_error&) { c++; } try { convertMatrixFromMgis<T,T>(v, m); } catch (const std::runtime_error&) { c++; } try { convertTensorFromMgis<T,T>(v, t); } catch (const std::runtime_error&) { c++; } check("mgis.refused", c == 3, cat("size ", n)); }
    { constexpr int D = 3; auto C = rten<3>(r, true, true); Mx<3> S = rsym<3>(r), F = rdef<3>(r), dF = rmat<3>(r); T4<3> A = convertCtoA<T>(C.pack(), S, F); Mx<3> dE = (F.transpose()*dF+dF.transpose()*F)/2; eqm("material-to-first-piola", tm_prod<T,3>(A, dF), Mx<3>(dF*S+F*dot2<3>(C, dE)), 1e-12); bool ok = true; LOOP4 ok &= std::abs(coeff<T,3>(A,i,j,k,l)-coeff<T,3>(A,k,l,i,j)) < 1e-12; check("material-to-first-piola.major", ok); }
    sig(cat("conversions/", int(std::floor(4*m3.determinant()))));
}
template<int D> void kinematics(Rng& r)
{
    using namespace disk::mechanics; Mx<D> F = rdef<D>(r), G = F-Mx<D>::Identity(), I = Mx<D>::Identity(), R = rrot<D>(r); T t = 1e-13; eqm("strain.G-to-F", convertGtoF<T,D>(G), F, t); eqm("strain.F-to-G", convertFtoG<T,D>(F), G, t); Mx<D> C = F.transpose()*F, b = F*F.transpose(), E = (C-I)/2;
    eqm("strain.right", convertFtoCauchyGreenRight<T,D>(F), C, t); eqm("strain.right-G", convertGtoCauchyGreenRight<T,D>(G), C, t); eqm("strain.left", convertFtoCauchyGreenLeft<T,D>(F), b, t); eqm("strain.left-G", convertGtoCauchyGreenLeft<T,D>(G), b, t); eqm("strain.green", convertFtoGreenLagrange<T,D>(F), E, t); eqm("strain.green-G", convertGtoGreenLagrange<T,D>(G), E, t); eqm("strain.green-C", convertCauchyGreenRighttoGreenLagrange<T,D>(C), E, t);
    eqm("strain.linearized", convertGtoLinearizedStrain<T,D>(G), Mx<D>((G+G.transpose())/2), t); { Mx<D> W = rmat<D>(r); W = (W-W.transpose()).eval(); eqm("strain.linearized-spin", convertGtoLinearizedStrain<T,D>(W), Mx<D>(Mx<D>::Zero()), t); } eqm("strain.frame", convertFtoCauchyGreenRight<T,D>(Mx<D>(R*F)), C, t); eqm("strain.rigid", convertFtoGreenLagrange<T,D>(R), Mx<D>(Mx<D>::Zero()), t); eqm("strain.left-frame", convertFtoCauchyGreenLeft<T,D>(Mx<D>(F*R)), b, t);
    { T h = 1e-7; Mx<D> e = (convertGtoGreenLagrange<T,D>(Mx<D>(h*G)))/h; eqm("strain.small", e, convertGtoLinearizedStrain<T,D>(G), 1e-6); }
    Mx<D> s = rsym<D>(r, 3), Fi = F.inverse(); T J = F.determinant(); Mx<D> P = J*s*Fi.transpose(), S = J*Fi*s*Fi.transpose(); t = 1e-11; eqm("stress.cauchy-pk1", convertCauchytoPK1<T,D>(s, F), P, t); eqm("stress.cauchy-pk2", convertCauchytoPK2<T,D>(s, F), S, t); eqm("stress.pk1-pk2", convertPK1toPK2<T,D>(P, F), S, t); eqm("stress.pk2-pk1", convertPK2toPK1<T,D>(S, F), P, t); eqm("stress.pk1-cauchy", convertPK1toCauchy<T,D>(P, F), s, t); eqm("stress.pk2-cauchy", convertPK2toCauchy<T,D>(S, F), s, t);
    Mx<D> dF = rmat<D>(r), dE = (F.transpose()*dF+dF.transpose()*F)/2, d = dF*Fi; d = ((d+d.transpose())/2).eval(); T w = J*s.cwiseProduct(d).sum(); near("stress.power-pk1", std::abs(convertCauchytoPK1<T,D>(s, F).cwiseProduct(dF).sum()-w)/(1+std::abs(w)), t*10); near("stress.power-pk2", std::abs(convertCauchytoPK2<T,D>(s, F).cwiseProduct(dE).sum()-w)/(1+std::abs(w)), t*10); Mx<D> sr = R*s*R.transpose(), Fr = R*F; eqm("stress.frame", convertCauchytoPK2<T,D>(sr, Fr), S, t*10); sig(cat("kinematics/", D, "/", int(std::floor(4*J))));
}
/* log C and its first two derivatives from log C = int_0^1 (C-I)(s(C-I)+I)^-1 ds */
struct Log { std::vector<std::pair<T, Mx<3>>> q; Mx<3> L; Log(const Mx<3>& C) { Mx<3> B = C-Mx<3>::Identity(); L.setZero(); static const std::array<std::array<T,2>,8> gl = {{{0.0950125098376374,0.1894506104550685},{0.2816035507792589,0.1826034150449236},{0.4580167776572274,0.1691565193950025},{0.6178762444026438,0.1495959888165767},{0.7554044083550030,0.1246289712555339},{0.8656312023878318,0.0951585116824928},{0.9445750230732326,0.0622535239386479},{0.9894009349916499,0.0271524594117541}}}; int n = 24; /* graded panels towards both ends */ std::vector<T> x; for (int i = 0; i <= n; i++) { T u = T(i)/n; x.push_back(u*u*(3-2*u)); } for (int i = 0; i < n; i++) for (auto& g : gl) for (int sg : {-1, 1}) { T h = (x[i+1]-x[i])/2, s = (x[i]+x[i+1])/2+sg*h*g[0], w = h*g[1]; Mx<3> R = (s*B+Mx<3>::Identity()).inverse(); q.push_back({w, R}); pts.push_back(s); L += w*B*R; } } std::vector<T> pts;
    Mx<3> d(const Mx<3>& E) const { Mx<3> r = Mx<3>::Zero(); for (auto& [w, R] : q) r += w*R*E*R; return r; } Mx<3> dd(const Mx<3>& E, const Mx<3>& G) const { Mx<3> r = Mx<3>::Zero(); for (size_t i = 0; i < q.size(); i++) { auto& [w, R] = q[i]; r -= w*pts[i]*(R*E*R*G*R+R*G*R*E*R); } return r; } };
inline void logarithm(Rng& r, int spectrum, int gap)
{
    using namespace disk; using namespace disk::mechanics; T a = std::exp(r.real(-0.6, 0.6)), b = std::exp(r.real(-0.6, 0.6)), c = std::exp(r.real(-0.6, 0.6)), e = std::pow(10., -gap)*r.real(0.3, 1); if (gap >= 16) e = 0; Mx<3> D = Mx<3>::Zero(); std::string nm;
    switch (spectrum) { case 0: D.diagonal() << a, b, c; nm = "distinct"; break; case 1: D.diagonal() << a, a*(1+e), a*r.real(1.2, 2); nm = "low-pair"; break; case 2: D.diagonal() << a, a*(1+e), a*r.real(0.5, 0.8); nm = "high-pair"; break; case 3: D.diagonal() << a, a*(1+e), a*(1-e*r.real(0.1, 1)); nm = "triple"; break; case 4: D.diagonal() << 1, 1+e, 1+e*r.real(-1, 1); nm = "small-strain"; break; default: D.diagonal() << a, a*r.real(1.2, 2), a*(1+e); nm = "outer-pair"; }
    int frame = r.integer(0, 2); Mx<3> F = frame == 0 ? D : frame == 1 ? Mx<3>(D*rrot<3>(r)) : Mx<3>(rrot<3>(r)*D*rrot<3>(r)); Mx<3> C = F.transpose()*F; C = ((C+C.transpose())/2).eval(); auto ev = compute_eigenvalues<T,3>(C); std::string d = cat(nm, " gap 1e-", gap, " frame ", frame); eqm("log.eigen", Mx<3>(ev.second*ev.first.asDiagonal()*ev.second.transpose()), C, 1e-13, d); eqm("log.eigenvectors", Mx<3>(ev.second.transpose()*ev.second), Mx<3>(Mx<3>::Identity()), 1e-13, d);
    Log L(C); Mx<3> E = compute_Elog<T>(ev.first, ev.second); eqm("log.strain", E, Mx<3>(L.L/2), 1e-12, d); Mx<3> st = rsym<3>(r), H = rmat<3>(r), G = rmat<3>(r); H = ((H+H.transpose())/2).eval(); G = ((G+G.transpose())/2).eval();
    { auto [P, TL] = compute_projector_PK2<T>(st, ev.first, ev.second); auto only = compute_projector_PK2<T>(st, ev.first, ev.second, false); eqm("log.first-derivative", tm_prod<T,3>(P, H), L.d(H), 1e-11, d); eqm("log.second-derivative", Mx<3>(tm_prod<T,3>(TL, H)), Mx<3>([&]() { Mx<3> w; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { Mx<3> B = Mx<3>::Zero(); B(i,j) += 0.5; B(j,i) += 0.5; w(i,j) = 2*st.cwiseProduct(L.dd(H, B)).sum(); } return w; }()), 1e-9, d); check("log.first-only", only.first == P && only.second.isZero(), d); }
    { auto [P, TL] = compute_projector<T>(F, st, ev.first, ev.second); auto only = compute_projector<T>(F, st, ev.first, ev.second, false); Mx<3> dF = rmat<3>(r), dC = F.transpose()*dF+dF.transpose()*F; eqm("log.first-derivative-F", tm_prod<T,3>(P, dF), Mx<3>(L.d(dC)/2), 1e-11, d); check("log.first-only-F", only.first == P && only.second.isZero(), d); Mx<3> w; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { Mx<3> X = Mx<3>::Zero(); X(i,j) = 1; Mx<3> eC = F.transpose()*X+X.transpose()*F, mix = X.transpose()*dF+dF.transpose()*X; w(i,j) = (st.cwiseProduct(L.dd(dC, eC)).sum()+st.cwiseProduct(L.d(mix)).sum())/2; } eqm("log.second-derivative-F", tm_prod<T,3>(TL, dF), w, 1e-9, d); }
    { Mx<3> R = rrot<3>(r), F2 = R*F, C2 = F2.transpose()*F2; auto e2 = compute_eigenvalues<T,3>(C2); eqm("log.frame", compute_Elog<T>(e2.first, e2.second), E, 1e-12, d); near("log.volume", std::abs(E.trace()-std::log(F.determinant())), 1e-13, d); } sig(cat("log/", nm, "/", gap, "/", frame));
}
int main(int argc, char **argv)
{
    init(argc, argv, "C23"); size_t n = n_of(60, 600);
    for (size_t i = 0; i < n; i++) { run_case(cat("algebra/", i), [](Rng& r) { algebra<2>(r); algebra<3>(r); }); run_case(cat("jacobian/", i), [](Rng& r) { jacobian<2>(r); jacobian<3>(r); }); run_case(cat("conversions/", i), [](Rng& r) { conversions(r); }); run_case(cat("kinematics/", i), [](Rng& r) { kinematics<2>(r); kinematics<3>(r); }); }
    for (int s = 0; s < 6; s++) for (int g : {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}) run_case(cat("log/", s, "/", g), [&](Rng& r) { for (size_t k = 0; k < n_of(6, 60); k++) logarithm(r, s, g); });
    return finish();
}
