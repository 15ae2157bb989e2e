// C21: elastic and hyperelastic laws at a quadrature point against their stored
// energies, differentiated exactly with second-order dual numbers.
#include "tens.hpp"
#include "diskpp/mesh/mesh.hpp"
#include "diskpp/geometry/geometry.hpp"
#include "diskpp/loaders/loader.hpp"
#include "diskpp/methods/hho"
#include "diskpp/mechanics/behaviors/laws/behaviorlaws.hpp"
using namespace mon; using namespace tens; using Data = disk::MaterialData<T>;
enum { NEO, CAV };
inline HD volumetric(int type, const HD& J)
{
    HD one(1), u; switch (type) { case 1: u = log(J); return u*u; case 2: u = J-one; return u*u; case 3: u = HD(1/std::log(10.))*log(J); return u*u; case 4: u = one-inv(J); return u*u; case 5: u = J*J-one; return u*u; default: return HD(0.5)*(J*J-one-HD(2)*log(J)); }
}
inline HD stored(int law, int type, T la, T mu, const HM& F) { HD J = det(F), c = sq(F), iso = law == NEO ? HD(mu/2)*(c-HD(3)) : HD(2*mu/std::pow(3., 1.25))*pow(c, 0.75); return iso+HD(la/2)*volumetric(type, J)-HD(mu)*log(J); }
template<int D> Mx<D> deformation(Rng& r, int kind, std::string& nm)
{
    Mx<D> I = Mx<D>::Identity();
    switch (kind) { case 0: nm = "reference"; return I; case 1: nm = "small"; return I+rmat<D>(r, std::pow(10., -r.integer(3, 12))); case 2: { nm = "isochoric"; for (;;) { Mx<D> F = I+rmat<D>(r, 0.6); T J = F.determinant(); if (J > 0.2) return F*std::pow(J, -1./D); } } case 3: nm = "rotation"; return rrot<D>(r); case 4: nm = "dilation"; return I*std::exp(r.real(-0.8, 0.8)); case 5: { nm = "compressed"; Mx<D> F = rrot<D>(r)*std::exp(r.real(-0.3, 0.3)); F.col(0) *= r.real(0.05, 0.2); return F; } case 6: { nm = "shear"; Mx<D> F = I; F(0,1) = r.real(-3, 3); return F; } case 7: { nm = "stretched"; Mx<D> F = rrot<D>(r); for (int i = 0; i < D; i++) F.row(i) *= std::exp(r.real(-1, 2)); return F*rrot<D>(r); } default: nm = "general"; for (;;) { Mx<D> F = I+rmat<D>(r, 0.7); if (F.determinant() > 0.1) return F; } }
}
template<int D, template<typename,int> class Law> void hyper(Rng& r, int law, int type, int kind)
{
    std::string nm; Mx<D> F = deformation<D>(r, kind, nm); T la = std::exp(r.real(-3, 4)), mu = std::exp(r.real(-2, 3)); if (r.coin(0.2)) la = 0; Data data(la, mu); data.setType(type); disk::point<T,D> p; for (int i = 0; i < D; i++) p.at(i) = r.real(-1,1); T w = r.real(0.1, 2);
    std::string key = law == NEO ? "neohookean" : "cavitation", d = cat(nm, " type ", type, " dim ", D); Law<T,D> q(p, w); Mx<3> F3 = embed<D>(F, 1); T e; Mx<3> P; T4<3> A; derivatives(F3, [&](const HM& m) { return stored(law, type, la, mu, m); }, e, P, A); T sc = 1+la+mu, tol = 1e-11;
    auto [S, C] = q.compute_whole(F, data); T nP = P.cwiseAbs().maxCoeff(), nA = A.cwiseAbs().maxCoeff(); (void)nP; near(key+".stress", dist(S, Mx<D>(P.template block<D,D>(0,0)), sc+nA*1e-2), tol, d); near(key+".tangent", dist(C, restrict3<D>(A), sc), tol, d); near(key+".stress3D", dist(Mx<3>(q.compute_stress3D(data)), P, sc+nA*1e-2), tol, d); check(key+".stress-getter", Mx<D>(q.compute_stress(data)) == S, d); T en = q.compute_energy(data); near(key+".energy", std::isfinite(en) ? std::abs(en-e)/(sc+std::abs(e)) : 1e300, 1e-12, d);
    near(key+".major-symmetry", asym<D>(C), 1e-13, d); check(key+".no-plasticity", !q.is_plastic() && q.getEquivalentPlasticStrain() == 0 && q.getPlasticStrain().isZero(0), d); check(key+".place", q.point().at(0) == p.at(0) && q.weight() == w && q.quadrature_point().weight() == w && q.quadrature_point().point().at(D-1) == p.at(D-1)); check(key+".strain", Mx<D>(q.getTotalStrain()) == F && Mx<3>(q.getElasticStrain()) == F3, d);
    { auto again = q.compute_whole(F, data, false); check(key+".repeat", again.first == S, d); Law<T,3> q3; auto [S3, C3] = q3.compute_whole(F3, data); near(key+".three-dimensional", std::max(dist(Mx<3>(S3), P, sc+nA*1e-2), dist(T4<3>(C3), A, sc)), tol, d);
      Mx<D> Q = rrot<D>(r); auto [SQ, CQ] = Law<T,D>(q).compute_whole(Mx<D>(Q*F), data); near(key+".frame", dist(Mx<D>(SQ), Mx<D>(Q*S), sc+nA*1e-2), tol, d); auto [SR, CR] = Law<T,D>(q).compute_whole(Mx<D>(F*Q), data); near(key+".isotropy", dist(Mx<D>(SR), Mx<D>(S*Q), sc+nA*1e-2), tol, d); Mx<D> H = rmat<D>(r), got = dot2<D>(CQ, Mx<D>(Q*H)), want = Q*dot2<D>(C, H); near(key+".frame-tangent", dist(got, want, sc+C.cwiseAbs().maxCoeff()), tol, d); Mx<D> tau = S*F.transpose(); near(key+".angular-momentum", dist(tau, Mx<D>(tau.transpose()), sc+nA*1e-2), tol, d); }
    if (law == NEO) { auto [S0, C0] = Law<T,D>(q).compute_whole(Mx<D>(Mx<D>::Identity()), data); near(key+".reference-stress", S0.cwiseAbs().maxCoeff()/sc, 1e-14, d); T k = type == 3 ? 1/(std::log(10.)*std::log(10.)) : type == 5 ? 4 : 1; Mx<D> H = rsym<D>(r); near(key+".reference-tangent", dist(dot2<D>(C0, H), Mx<D>(2*mu*H+k*la*H.trace()*Mx<D>::Identity()), sc), 1e-13, d); }
    { q.update(); Mx<3> prev = q.compute_stressPrev3D(data); near(key+".committed-stress", dist(prev, P, sc+nA*1e-2), tol, d); check(key+".committed-strain", Mx<D>(q.getTotalStrainPrev()) == F, d); std::string n2; Mx<D> G = deformation<D>(r, 8, n2); auto fresh = Law<T,D>().compute_whole(G, data), aged = q.compute_whole(G, data); check(key+".no-memory", fresh.first == aged.first && fresh.second == aged.second, d); check(key+".commit-explicit", Mx<3>(q.compute_stressPrev3D(data)) == prev && Mx<D>(q.getTotalStrainPrev()) == F, d); }
    for (int bad = 0; bad < 3; bad++) { Mx<D> B = F; if (bad == 0) B.col(0) *= -1; else if (bad == 1) B.col(0).setZero(); else B.row(D-1) *= -r.real(0.1, 2); bool t = false; try { Law<T,D>(q).compute_whole(B, data); } catch (const std::invalid_argument&) { t = true; } check(key+".inverted-refused", t, d); }
    { bool t = true; for (size_t ty : {0, 7, 100}) { Data z = data; z.setType(ty); bool u = false; try { Law<T,D>(q).compute_whole(F, z); } catch (const std::invalid_argument&) { u = true; } t &= u; } check(key+".unknown-type-refused", t); }
    sig(cat(key, "/", D, "/", type, "/", nm, "/", la == 0));
}
template<int D> void small(Rng& r, int kind)
{
    T la = std::exp(r.real(-3, 4)), mu = std::exp(r.real(-2, 3)), s = kind == 3 ? 1 : std::pow(10., -kind); Data data(la, mu); Mx<D> E = kind == 3 ? Mx<D>(r.real(-1,1)*Mx<D>::Identity()) : rsym<D>(r, s); if (kind == 4) E = dev<D>(E); std::string d = cat("kind ", kind, " dim ", D); Mx<D> I = Mx<D>::Identity(), S = 2*mu*E+la*E.trace()*I, H = rmat<D>(r), Q = rrot<D>(r); Mx<D> CH = mu*(H+H.transpose())+la*H.trace()*I; T sc = la+mu; disk::point<T,D> p; for (int i = 0; i < D; i++) p.at(i) = r.real(-1,1);
    { disk::LinearElasticity_qp<T,D> q(p, 0.5); auto [s1, c1] = q.compute_whole(E, data); near("hooke.stress", dist(Mx<D>(s1), S, sc*s), 1e-14, d); near("hooke.tangent", dist(dot2<D>(c1, H), CH, sc), 1e-14, d); near("hooke.major-symmetry", asym<D>(c1), 1e-15); check("hooke.getter", Mx<D>(q.compute_stress(data)) == s1 && Mx<D>(q.getTotalStrain()) == E && q.weight() == 0.5 && !q.is_plastic() && q.getEquivalentPlasticStrain() == 0 && q.getPlasticStrain().isZero(0)); Mx<3> S3 = q.compute_stress3D(data); near("hooke.out-of-plane", dist(S3, Mx<3>(2*mu*embed<D>(E, 0)+la*E.trace()*Mx<3>::Identity()), sc*s), 1e-14, d); q.update(); check("hooke.committed", Mx<3>(q.compute_stress3DPrev(data)) == S3 && Mx<D>(q.compute_stressPrev(data)) == s1 && Mx<D>(q.getTotalStrainPrev()) == E); auto [s2, c2] = q.compute_whole(Mx<D>(Q*E*Q.transpose()), data); near("hooke.rotated", dist(Mx<D>(s2), Mx<D>(Q*S*Q.transpose()), sc*s), 1e-13, d); check("hooke.commit-explicit", Mx<3>(q.compute_stress3DPrev(data)) == S3 && c2 == c1); auto [s0, c0] = q.compute_whole(Mx<D>(Mx<D>::Zero()), data, false); check("hooke.reference", s0.isZero(0)); T w = 0, E0 = mu*E.squaredNorm()+la/2*E.trace()*E.trace(); /* quadratic energy: S:E = 2 psi */ w = s1.cwiseProduct(E).sum(); near("hooke.energy", std::abs(w-2*E0)/(sc*s*s), 1e-13, d); }
    { disk::LinearLaw_qp<T,D> q(p, 0.5); Mx<D> F = rmat<D>(r, 2); auto [s1, c1] = q.compute_whole(F, data); near("linear.stress", dist(Mx<D>(s1), Mx<D>(la*F), la), 1e-15, d); near("linear.tangent", dist(dot2<D>(c1, H), Mx<D>(la*H), la), 1e-14, d); check("linear.getter", Mx<D>(q.compute_stress(data)) == s1 && Mx<D>(q.getTotalStrain()) == F); near("linear.major-symmetry", asym<D>(c1), 1e-15); auto [s2, c2] = q.compute_whole(Mx<D>(Q*F), data); near("linear.frame", dist(Mx<D>(s2), Mx<D>(Q*la*F), la), 1e-14, d); }
    { /* documented stress of the Hencky-Mises law; its tangent is documented to be the elastic moduli */ disk::HenckyMises_qp<T,D> q(p, 0.5); auto stress = [&](const Mx<D>& e) { T n = dev<D>(e).norm(), x = 1/std::sqrt(1+n*n); return Mx<D>(mu*(1+x)*e+(la+mu/2*(1-x))*e.trace()*I); }; auto [s1, c1] = q.compute_whole(E, data); near("hencky.stress", dist(Mx<D>(s1), stress(E), sc*s), 1e-13, d); near("hencky.tangent", dist(dot2<D>(c1, H), CH, sc), 1e-14, d); check("hencky.getter", Mx<D>(q.compute_stress(data)) == s1 && Mx<D>(q.getTotalStrain()) == E); auto [s2, c2] = q.compute_whole(Mx<D>(Q*E*Q.transpose()), data); near("hencky.rotated", dist(Mx<D>(s2), Mx<D>(Q*s1*Q.transpose()), sc*s), 1e-12, d); auto [s0, c0] = q.compute_whole(Mx<D>(Mx<D>::Zero()), data); check("hencky.reference", s0.isZero(0)); { T h = 1e-9; Mx<D> G = (H+H.transpose())/2; auto [s3, c3] = q.compute_whole(Mx<D>(h*G), data); near("hencky.linearised", dist(Mx<D>(s3/h), dot2<D>(c3, G), sc), 1e-7, d); }
      if constexpr (D == 2) { /* in the plane the stress derives from an energy: closed work cycles vanish */ auto psi = [&](const Mx<2>& e) { T n2 = dev<2>(e).squaredNorm(), t = e.trace(); return (la+mu)/2*t*t+mu*(n2/2+std::sqrt(1+n2)); }; Mx<2> G = rsym<2>(r, s); T w = 0; static const T gx[5] = {0, -0.5384693101056831, 0.5384693101056831, -0.9061798459386640, 0.9061798459386640}, gw[5] = {0.5688888888888889, 0.4786286704993665, 0.4786286704993665, 0.2369268850561891, 0.2369268850561891}; int np = 12; for (int k = 0; k < np; k++) for (int g = 0; g < 5; g++) { T t = (k+0.5+0.5*gx[g])/np; auto sg = q.compute_whole(Mx<2>(E+t*(G-E)), data).first; w += gw[g]/2/np*sg.cwiseProduct(G-E).sum(); } near("hencky.plane-energy", std::abs(w-(psi(G)-psi(E)))/(sc*s), 1e-11, d);
        disk::HenckyMises_qp<T,3> q3; Mx<3> E3 = rsym<3>(r, s); q3.compute_whole(E3, data); T n = dev<3>(E3).norm(), x = 1/std::sqrt(1+n*n); near("hencky.stress3D", dist(Mx<3>(q3.compute_stress3D(data)), Mx<3>(mu*(1+x)*E3+(la+mu/2*(1-x))*E3.trace()*Mx<3>::Identity()), sc*s), 1e-13, d); } }
    sig(cat("small/", D, "/", kind));
}
template<int D> void logarithmic(Rng& r, int kind)
{
    std::string nm; Mx<D> F = deformation<D>(r, kind, nm); if (F.determinant() < 0.02) return; T la = std::exp(r.real(-3, 4)), mu = std::exp(r.real(-2, 3)); Data data(la, mu); disk::point<T,D> p; for (int i = 0; i < D; i++) p.at(i) = r.real(-1,1); disk::mechanics::LogarithmicStrain_qp<disk::LinearElasticity_qp<T,D>> q(p, 0.25); Mx<3> F3 = embed<D>(F, 1), C = F3.transpose()*F3; Log L(C); std::string d = cat(nm, " dim ", D); T4<3> C4 = T4<3>::Zero(); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) C4(i*3+k,j*3+l) = la*(i==j)*(k==l)+mu*((i==k)*(j==l)+(i==l)*(j==k)); T cond = C.norm()*C.inverse().norm();
    Mx<3> S = la*L.L.trace()/2*Mx<3>::Identity()+mu*L.L; LogStress w(F3, L, S, C4); auto [P, A] = q.compute_whole(F, data); T sc = la+mu, nA = w.A.cwiseAbs().maxCoeff(); near("log.stress", dist(Mx<D>(P), Mx<D>(w.P.template block<D,D>(0,0)), sc+1e-2*nA), 1e-13*(10+cond), d); near("log.tangent", dist(A, restrict3<D>(w.A), sc), 1e-11*(10+cond), d); near("log.stress-T", dist(Mx<3>(q.compute_stress3D_T(data)), S, sc), 1e-12, d); check("log.getter", Mx<D>(q.compute_stress(data)) == P && q.weight() == 0.25 && q.point().at(0) == p.at(0), d); near("log.strain", dist(Mx<D>(q.getTotalStrain()), Mx<D>(L.L.template block<D,D>(0,0)/2), 1), 1e-12, d); near("log.major-symmetry", asym<D>(A), 1e-13, d);
    { Mx<D> Q = rrot<D>(r); auto [PQ, AQ] = q.compute_whole(Mx<D>(Q*F), data); near("log.frame", dist(Mx<D>(PQ), Mx<D>(Q*P), sc+1e-2*nA), 1e-13*(10+cond), d); auto [PR, AR] = q.compute_whole(Mx<D>(F*Q), data); near("log.isotropy", dist(Mx<D>(PR), Mx<D>(P*Q), sc+1e-2*nA), 1e-13*(10+cond), d); auto [P0, A0] = q.compute_whole(Q, data); near("log.rigid", P0.cwiseAbs().maxCoeff()/sc, 1e-13, d); auto [P1, A1] = q.compute_whole(F, data, false); check("log.stress-only", P1 == P, d); Mx<D> bad = F; bad.col(0) *= -1; bool t = false; try { q.compute_whole(bad, data); } catch (const std::invalid_argument&) { t = true; } check("log.inverted-refused", t); }
    { /* small deformations: the law at small strains */ Mx<D> H = rmat<D>(r); T h = 1e-8; auto [Ph, Ah] = q.compute_whole(Mx<D>(Mx<D>::Identity()+h*H), data); near("log.small", dist(Mx<D>(Ph/h), Mx<D>(mu*(H+H.transpose())+la*H.trace()*Mx<D>::Identity()), sc), 1e-6, d); } sig(cat("log/", D, "/", nm));
}
inline void material(Rng& r)
{
    T E = std::exp(r.real(-3, 10)), nu = r.real(-0.9, 0.49), K = r.coin(0.3) ? 0 : E*r.real(0, 0.1), ET = E*r.real(0.11, 0.9); Data d; d.setMu(E, nu); d.setLambda(E, nu); near("material.young", std::abs(d.getE()/E-1), 1e-12); near("material.poisson", std::abs(d.getNu()-nu), 1e-12); d.setK(K); d.setH(E, ET, K); near("material.tangent", std::abs(d.getET()/ET-1), 1e-11); near("material.lame", std::abs(d.getMu()*2*(1+nu)-E)/E+std::abs(d.getLambda()*(1+nu)*(1-2*nu)-E*nu)/E, 1e-12); near("material.bulk", std::abs(3*(d.getLambda()+2*d.getMu()/3)*(1-2*nu)-E)/E, 1e-11);
    Data e(1.5, 2.5, 3.5, 4.5, 5.5), f(7., 8.), g; check("material.constructors", e.getLambda() == 1.5 && e.getMu() == 2.5 && e.getH() == 3.5 && e.getK() == 4.5 && e.getSigma_y0() == 5.5 && f.getLambda() == 7 && f.getMu() == 8 && f.getH() == 0 && f.getK() == 0 && f.getSigma_y0() == std::numeric_limits<T>::max() && g.getLambda() == 1 && g.getMu() == 1 && g.getType() == 1); g.setLambda(3.); g.setMu(4.); g.setH(5.); g.setK(6.); g.setSigma_y0(7.); g.setType(2); check("material.setters", g.getLambda() == 3 && g.getMu() == 4 && g.getH() == 5 && g.getK() == 6 && g.getSigma_y0() == 7 && g.getType() == 2); sig("material");
}
int main(int argc, char **argv)
{
    init(argc, argv, "C21"); size_t n = n_of(4, 40);
    for (int ty = 1; ty <= 6; ty++) for (int k = 0; k < 9; k++) { run_case(cat("neohookean/", ty, "/", k), [&](Rng& r) { for (size_t i = 0; i < n; i++) { hyper<2,disk::Neohookean_qp>(r, NEO, ty, k); hyper<3,disk::Neohookean_qp>(r, NEO, ty, k); } }); run_case(cat("cavitation/", ty, "/", k), [&](Rng& r) { for (size_t i = 0; i < n; i++) { hyper<2,disk::Cavitation_qp>(r, CAV, ty, k); hyper<3,disk::Cavitation_qp>(r, CAV, ty, k); } }); }
    for (int k = 0; k < 5; k++) run_case(cat("small/", k), [&](Rng& r) { for (size_t i = 0; i < 5*n; i++) { small<2>(r, k); small<3>(r, k); } });
    for (int k = 0; k < 9; k++) run_case(cat("log/", k), [&](Rng& r) { for (size_t i = 0; i < 3*n; i++) { logarithmic<2>(r, k); logarithmic<3>(r, k); } });
    run_case("material", [&](Rng& r) { for (size_t i = 0; i < 20*n; i++) material(r); });
    return finish();
}
