// C22: strain histories through the plastic laws, judged by the yield, flow and
// loading conditions, by the derivative of the update and by a rollback model.
#include "tens.hpp"
#include "diskpp/mesh/mesh.hpp"
#include "diskpp/geometry/geometry.hpp"
#include "diskpp/loaders/loader.hpp"
#include "diskpp/methods/hho"
#include "diskpp/mechanics/behaviors/laws/behaviorlaws.hpp"
using namespace mon; using namespace tens;
template<typename S, int D> using LIN = disk::LinearIsotropicAndKinematicHardening_qp<S,D>; template<typename S, int D> using ISO = disk::IsotropicHardeningVMis_qp<S,D>;
/* material: elastic constants, kinematic modulus, hardening curve as segments (the last one extends to infinity) */
struct Mat { T la, mu, K = 0; std::vector<std::pair<T,T>> c; T sy() const { return c[0].second; }
    T R(T p) const { size_t i = 0; while (i+2 < c.size() && p > c[i+1].first) i++; return c[i].second+(c[i+1].second-c[i].second)/(c[i+1].first-c[i].first)*(p-c[i].first); }
    template<typename S> disk::MaterialData<S> data(bool linear) const { disk::MaterialData<S> d(la, mu); if (linear) { d = disk::MaterialData<S>(la, mu, (c[1].second-c[0].second)/(c[1].first-c[0].first), K, sy()); } else { std::vector<std::pair<T,T>> s = c; std::reverse(s.begin(), s.end()); for (auto& [p, r] : s) d.addCurvePoint(p, r); d.checkRpCurve(); } return d; } };
inline Mat material(Rng& r, bool linear)
{
    Mat m; m.la = r.coin(0.2) ? 0 : std::exp(r.real(-2, 4)); m.mu = std::exp(r.real(-1, 3)); T sy = m.mu*std::pow(10., r.real(-3, 0)); T e = sy/m.mu; m.c = {{0, sy}}; int n = linear ? 1 : r.integer(1, 6); T p = 0, R = sy; for (int i = 0; i < n; i++) { T dp = e*std::exp(r.real(-2, 1)), H = r.coin(0.25) ? 0 : r.coin(0.2) && !linear ? -r.real(0, 0.2)*std::min(m.mu, 0.3*R/dp) : m.mu*std::exp(r.real(-5, 1)); p += dp; R += H*dp; m.c.push_back({p, R}); } if (!linear && m.c.back().second < m.c[m.c.size()-2].second) m.c.push_back({p+e, R+0.1*m.mu*e}); if (linear && r.coin(0.6)) m.K = m.mu*std::exp(r.real(-4, 1)); return m;
}
template<int D> std::vector<Mx<D>> path(Rng& r, int kind, T e, size_t n)
{
    std::vector<Mx<D>> p; Mx<D> E = Mx<D>::Zero(), N = dev<D>(rsym<D>(r)); N /= N.norm();
    switch (kind) { case 0: for (size_t i = 1; i <= n; i++) p.push_back(e*3*T(i)/n*N); break; /* proportional */ case 1: { T a[8] = {3, -1, 3, 0, -3, 1, 0, 2}; for (size_t i = 0; i < n; i++) p.push_back(e*a[i%8]*N); break; } /* reversals */ case 2: for (size_t i = 0; i < n; i++) { E += e*r.real(0, 1.5)*rsym<D>(r); p.push_back(E); } break; /* walk */ case 3: for (size_t i = 0; i < n; i++) p.push_back(e*r.real(-3, 3)*Mx<D>::Identity()); break; /* dilation */
      case 4: for (size_t i = 0; i < n; i++) p.push_back(i%2 ? Mx<D>(Mx<D>::Zero()) : Mx<D>(e*r.real(0, 4)*rsym<D>(r))); break; /* load, unload to zero strain */ case 5: for (size_t i = 0; i < n; i++) p.push_back(e*std::pow(10., r.integer(-2, 3))*rsym<D>(r)); break; /* wild steps */ case 6: for (size_t i = 0; i < n; i++) { T t = 2*M_PI*i/7; Mx<D> M = rsym<D>(r, 0.01); M(0,0) += std::cos(t); M(1,1) -= std::cos(t); M(0,1) += std::sin(t); M(1,0) += std::sin(t); p.push_back(2*e*M); } break; /* non proportional circle */ default: for (size_t i = 0; i < n; i++) { E += e*std::pow(10., -r.integer(2, 9))*rsym<D>(r); if (i == n/2) E += 3*e*N; p.push_back(E); } } /* tiny steps across the yield limit */
    return p;
}
template<typename S, int D, template<typename,int> class Law> Law<S,D> twin(const Mat& m, bool linear, const std::vector<Mx<D>>& done) { Law<S,D> q; auto d = m.data<S>(linear); for (auto& E : done) { q.compute_whole(Eigen::Matrix<S,D,D>(E.template cast<S>()), d); q.update(); } return q; }
template<int D, template<typename,int> class Law> void history(Rng& r, bool linear, int kind)
{
    std::string key = linear ? "linear" : "curve"; Mat m = material(r, linear); auto data = m.data<T>(linear); T e = m.sy()/(2*m.mu); auto P = path<D>(r, kind, e, n_of(12, 24)); disk::point<T,D> pt; Law<T,D> q(pt, 0.3); Law<T,3> full; Mx<3> ep = Mx<3>::Zero(), I = Mx<3>::Identity(); T p = 0; Mx<D> Q = rrot<D>(r); Law<T,D> turned; std::vector<Mx<D>> done; std::string d0 = cat("path ", kind, " dim ", D, " points ", m.c.size(), " K ", m.K); int plastic = 0, elastic = 0, rev = 0; Mx<3> lastn = Mx<3>::Zero(); T diss = 0, top = 0;
    for (auto& E : P)
    {
        std::string d = cat(d0, " step ", done.size()); Mx<3> E3 = embed<D>(E, 0); top = std::max(top, E3.norm()+ep.norm()); T sc = 2*m.mu*(E3.norm()+ep.norm())+m.sy(), tol = 1e-11;
        Mx<3> prev = q.compute_stress3DPrev(data); Mx<D> tprev = q.getTotalStrainPrev();
        if (r.coin(0.5)) { /* probes that are never committed */ for (int k = r.integer(1, 3); k > 0; k--) { Mx<D> X = e*std::pow(10., r.integer(-1, 2))*rsym<D>(r); q.compute_whole(X, data, r.coin()); check(key+".probe-keeps-history", Mx<3>(q.compute_stress3DPrev(data)) == prev && Mx<D>(q.getTotalStrainPrev()) == tprev, d); } }
        Mx<D> S; T4<D> C; bool ok = true; try { auto w = q.compute_whole(E, data); S = w.first; C = w.second; } catch (const std::exception& x) { ok = false; check(key+".answers", false, cat(d, ": ", x.what())); } if (!ok) return; check(key+".answers", true);
        Mx<3> S3 = q.compute_stress3D(data), e3 = q.getElasticStrain(), p3 = q.getPlasticStrain(); T p1 = q.getEquivalentPlasticStrain(), dp = p1-p; Mx<3> dep = p3-ep;
        near(key+".elastic-law", dist(S3, Mx<3>(2*m.mu*(E3-p3)+m.la*(E3-p3).trace()*I), sc+(m.mu+m.la)*top), tol, d); near(key+".strain-split", dist(e3, Mx<3>(E3-p3), top), 1e-12, d); near(key+".total-strain", dist(Mx<D>(q.getTotalStrain()), E, top), 1e-12, d); near(key+".stress", dist(S, Mx<D>(S3.template block<D,D>(0,0)), sc), 1e-15, d); check(key+".stress-getter", Mx<D>(q.compute_stress(data)) == S, d); near(key+".total-strain-previous", dist(Mx<D>(q.getTotalStrainPrev()), done.empty() ? Mx<D>(Mx<D>::Zero()) : done.back(), top), 1e-12, d); check(key+".committed-stress-kept", Mx<3>(q.compute_stress3DPrev(data)) == prev, d);
        Mx<3> xi = dev<3>(S3)-m.K*p3, xt = 2*m.mu*dev<3>(E3-ep)-m.K*ep; T eq = std::sqrt(1.5)*xi.norm(), teq = std::sqrt(1.5)*xt.norm(), f = eq-m.R(p1), ft = teq-m.R(p); T slack = tol*(sc+m.R(p1)+m.K*p3.norm());
        check_f(key+".yield", f <= slack, [&]() { return cat(d, " f ", f); }); check_f(key+".accumulated-grows", dp >= 0, [&]() { return cat(d, " dp ", dp); }); near(key+".isochoric", std::abs(p3.trace())/(p3.norm()+1e-300)*(p3.norm() > 1e-9*E3.norm()), 1e-7, d); near(key+".isochoric-abs", std::abs(p3.trace())/(top+1e-300), 1e-12, d);
        if (ft < -slack) { elastic++; check(key+".elastic-step", !q.is_plastic() && p1 == p && p3 == ep, d); Mx<D> H = rsym<D>(r); near(key+".elastic-tangent", dist(dot2<D>(C, H), Mx<D>(2*m.mu*H+m.la*H.trace()*Mx<D>::Identity()), m.la+m.mu), 1e-13, d); }
        if (ft > slack) { plastic++; check(key+".plastic-step", q.is_plastic() && dp > 0, d); near(key+".on-the-surface", std::abs(f)/(slack/tol), tol, d); Mx<3> n = 1.5*xi/eq; near(key+".normal-flow", dist(dep, Mx<3>(dp*n), E3.norm()+ep.norm()), 1e-11, d); near(key+".equivalent-increment", std::abs(std::sqrt(2./3)*dep.norm()-dp)/(E3.norm()+ep.norm()), 1e-12, d); T w = xi.cwiseProduct(dep).sum(); diss += w; check_f(key+".dissipation", w >= -slack*dp && std::abs(w-m.R(p1)*dp) <= 10*slack*(dp+dep.norm())+1e-12*eq*top, [&]() { return cat(d, " dissipated ", w, " expected ", m.R(p1)*dp); }); if (lastn.cwiseProduct(n).sum() < 0) rev++; lastn = n; }
        near(key+".major-symmetry", asym<D>(C)*(1+C.cwiseAbs().maxCoeff())/(m.la+m.mu), 1e-12, d); { Mx<D> H = rmat<D>(r), G = (H+H.transpose())/2; Mx<D> a = dot2<D>(C, H), b = dot2<D>(C, G); near(key+".minor-symmetry", dist(a, b, m.la+m.mu), 1e-13, d); near(key+".minor-symmetry-left", dist(a, Mx<D>(a.transpose()), m.la+m.mu), 1e-13, d); }
        { auto again = q.compute_whole(E, data); check(key+".repeat", again.first == S && again.second == C && q.getEquivalentPlasticStrain() == p1 && Mx<3>(q.getPlasticStrain()) == p3, d); auto cheap = q.compute_whole(E, data, false); check(key+".stress-without-tangent", cheap.first == S && q.getEquivalentPlasticStrain() == p1, d); }
        { auto w = full.compute_whole(E3, data); near(key+".plane-strain", std::max(dist(S, Mx<D>(w.first.template block<D,D>(0,0)), sc), dist(C, restrict3<D>(w.second), m.la+m.mu)), 1e-9, d); near(key+".plane-strain-state", std::abs(full.getEquivalentPlasticStrain()-p1)/(e+p1), 1e-11, d); full.update(); }
        { auto w = turned.compute_whole(Mx<D>(Q*E*Q.transpose()), data); near(key+".rotated", dist(Mx<D>(w.first), Mx<D>(Q*S*Q.transpose()), sc), 1e-9, d); turned.update(); }
        /* derivative of the update, in extended precision, away from kinks */
        if (std::abs(ft) > 1e-3*m.sy() && (linear || ft < 0 || [&]() { for (auto& [cp, R] : m.c) if (std::abs(p1-cp) < 1e-4*e) return false; return true; }()) && r.coin(0.5))
        { using L = long double; auto dl = m.data<L>(linear); auto base = twin<L,D,Law>(m, linear, done); Mx<D> H = rsym<D>(r); H /= H.norm(); L h = 1e-7L*e; auto at = [&](L s) { auto c = base; return Eigen::Matrix<L,D,D>(c.compute_whole(Eigen::Matrix<L,D,D>(E.template cast<L>()+s*H.template cast<L>()), dl).first); }; Mx<D> num = ((at(h)-at(-h))/(2*h)).template cast<T>(); near(key+".consistent-tangent", dist(dot2<D>(C, H), num, m.la+m.mu), 1e-6, d); }
        q.update(); check(key+".commit", Mx<3>(q.compute_stress3DPrev(data)) == S3 && Mx<3>(q.getPlasticStrain()) == p3 && q.getEquivalentPlasticStrain() == p1 && Mx<D>(q.compute_stressPrev(data)) == S, d); if (r.coin(0.2)) { q.update(); check(key+".commit-idempotent", Mx<3>(q.compute_stress3DPrev(data)) == S3, d); }
        { /* holding the strain changes nothing */ auto w = q.compute_whole(E, data); near(key+".held", dist(Mx<D>(w.first), S, sc), 1e-11, d); near(key+".held-state", std::abs(q.getEquivalentPlasticStrain()-p1)/(e+p1), 1e-11, d); }
        q.compute_whole(E, data); ep = p3; p = p1; done.push_back(E);
        /* the committed state may have crept by round-off in the hold; rebuild it exactly */ q = twin<T,D,Law>(m, linear, done); near(key+".replayed", dist(Mx<3>(q.getPlasticStrain()), ep, E3.norm()+ep.norm()), 1e-13, d); ep = q.getPlasticStrain(); p = q.getEquivalentPlasticStrain();
    }
    sig(cat(key, "/", D, "/", kind, "/", m.c.size(), "/", m.K > 0, "/plastic ", plastic, "/elastic ", elastic, "/reversals ", rev));
}
template<int D> void special(Rng& r)
{
    /* a straight curve without kinematic part is the linear law */ Mat m = material(r, true); m.K = 0; auto dl = m.data<T>(true), dc = m.data<T>(false); LIN<T,D> a; ISO<T,D> b; T e = m.sy()/(2*m.mu); Mx<D> E = Mx<D>::Zero(); for (int i = 0; i < 10; i++) { E += e*r.real(0, 2)*rsym<D>(r); auto wa = a.compute_whole(E, dl), wb = b.compute_whole(E, dc); T sc = m.sy()+m.mu*E.norm(); near("same-law.stress", dist(Mx<D>(wa.first), Mx<D>(wb.first), sc), 1e-11); near("same-law.tangent", dist(T4<D>(wa.second), T4<D>(wb.second), m.la+m.mu), 1e-9); near("same-law.state", std::abs(a.getEquivalentPlasticStrain()-b.getEquivalentPlasticStrain())/e, 1e-11); a.update(); b.update(); }
    /* proportional loading does not depend on the number of steps */ for (bool linear : {true, false}) { Mat k = material(r, linear); auto d = k.data<T>(linear); T ey = k.sy()/(2*k.mu); Mx<3> N = dev<3>(rsym<3>(r)); N *= 5*ey/N.norm(); int n = r.integer(2, 9); T one, many; Mx<3> s1, sn; auto go = [&](auto law) { auto l2 = law; s1 = law.compute_whole(N, d).first; one = law.getEquivalentPlasticStrain(); for (int i = 1; i <= n; i++) { sn = l2.compute_whole(Mx<3>(N*T(i)/n), d).first; l2.update(); } many = l2.getEquivalentPlasticStrain(); }; if (linear) go(LIN<T,3>()); else go(ISO<T,3>()); near("proportional.state", std::abs(one-many)/ey, 1e-11); near("proportional.stress", dist(s1, sn, k.sy()), 1e-11);
        if (linear) { T H = (k.c[1].second-k.c[0].second)/(k.c[1].first-k.c[0].first), eq = std::sqrt(1.5)*2*k.mu*N.norm(), dp = (eq-k.sy())/(3*k.mu+H+1.5*k.K); near("proportional.closed-form", std::abs(one-std::max(dp, 0.))/ey, 1e-12); } }
    { /* no curve: the law is elastic */ disk::MaterialData<T> d(1.5, 2.5); ISO<T,D> q; Mx<D> S = rsym<D>(r, 10); auto w = q.compute_whole(S, d); near("no-curve", dist(Mx<D>(w.first), Mx<D>(5*S+1.5*S.trace()*Mx<D>::Identity()), 1), 1e-14); check("no-curve.state", !q.is_plastic() && q.getEquivalentPlasticStrain() == 0); q.update(); auto w2 = q.compute_whole(Mx<D>(Mx<D>::Zero()), d); near("no-curve.back", w2.first.norm(), 1e-13); }
    { disk::MaterialData<T> d; std::vector<T> p; int n = r.integer(2, 8); for (int i = 0; i < n; i++) { p.push_back(r.real(0, 1)); d.addCurvePoint(p.back(), 2*p.back()); } d.checkRpCurve(); std::sort(p.begin(), p.end()); auto c = d.getRpCurve(); bool ok = c.size() == p.size(); for (int i = 0; ok && i < n; i++) ok = c[i].getP() == p[i] && c[i].getRp() == 2*p[i]; check("curve.sorted", ok); d.addCurvePoint(disk::curve_point<T>(p[r.integer(0, n-1)], 9.)); bool t = false; try { d.checkRpCurve(); } catch (const std::invalid_argument&) { t = true; } check("curve.duplicate-refused", t); disk::MaterialData<T> f; f.checkRpCurve(); f.setRpCurve(c); check("curve.set", f.getRpCurve().size() == c.size()); }
    sig(cat("special/", D));
}
/* the laws in logarithmic strain: the same history of log strains through the small-strain law */
template<int D, template<typename,int> class Law> void logarithmic(Rng& r, bool linear, int kind)
{
    std::string key = linear ? "log-linear" : "log-curve"; Mat m = material(r, linear); auto data = m.data<T>(linear); T e = std::min(0.1, m.sy()/(2*m.mu)); disk::point<T,D> pt; disk::mechanics::LogarithmicStrain_qp<Law<T,D>> q(pt, 0.4); Law<T,3> ref; std::string d0 = cat("kind ", kind, " dim ", D); int np = 0; std::vector<Mx<D>> P = path<D>(r, kind, e, 8);
    for (auto& X : P) { Mx<D> G = X; if (r.coin(0.7)) { Mx<D> W = rmat<D>(r, e); G += W-W.transpose(); } T cap = 0.6; if (G.norm() > cap) G *= cap/G.norm(); Mx<D> F = Mx<D>::Identity()+G; if (F.determinant() < 0.05) continue; F = (rrot<D>(r)*F).eval(); Mx<3> F3 = embed<D>(F, 1), C = F3.transpose()*F3; Log L(C); Mx<3> E = L.L/2; for (int i = D; i < 3; i++) for (int j = 0; j < 3; j++) E(i,j) = E(j,i) = 0; auto [S, Cep] = ref.compute_whole(E, data); auto [PK, A] = q.compute_whole(F, data); LogStress w(F3, L, S, Cep); T sc = m.mu+m.la, cond = C.norm()*C.inverse().norm(); Mx<3> xt = 2*m.mu*dev<3>(E-ref.getPlasticStrain()); near(key+".stress", dist(Mx<D>(PK), Mx<D>(w.P.template block<D,D>(0,0)), sc), 1e-11*(10+cond), d0); if (q.is_plastic() == ref.is_plastic()) near(key+".tangent", dist(A, restrict3<D>(w.A), sc), 1e-7*(10+cond), d0); near(key+".state", std::abs(q.getEquivalentPlasticStrain()-ref.getEquivalentPlasticStrain()), 1e-12, d0); near(key+".plastic-strain", dist(Mx<3>(q.getPlasticStrain()), Mx<3>(ref.getPlasticStrain()), 1), 1e-11, d0); near(key+".symmetric-kirchhoff", dist(Mx<D>(PK*F.transpose()), Mx<D>((PK*F.transpose()).transpose()), sc), 1e-11, d0); near(key+".major-symmetry", asym<D>(A), 1e-12, d0); np += ref.is_plastic(); if (r.coin(0.3)) { auto again = q.compute_whole(F, data); check(key+".repeat", again.first == PK && again.second == A, d0); } q.update(); ref.update(); }
    sig(cat(key, "/", D, "/", kind, "/", np));
}
int main(int argc, char **argv)
{
    init(argc, argv, "C22"); size_t n = n_of(5, 60);
    for (int k = 0; k < 8; k++) { run_case(cat("linear/", k), [&](Rng& r) { for (size_t i = 0; i < n; i++) { history<2,LIN>(r, true, k); history<3,LIN>(r, true, k); } }); run_case(cat("curve/", k), [&](Rng& r) { for (size_t i = 0; i < n; i++) { history<2,ISO>(r, false, k); history<3,ISO>(r, false, k); } }); }
    run_case("special", [&](Rng& r) { for (size_t i = 0; i < 10*n; i++) { special<2>(r); special<3>(r); } });
    for (int k = 0; k < 8; k++) run_case(cat("log/", k), [&](Rng& r) { for (size_t i = 0; i < n; i++) { logarithmic<2,LIN>(r, true, k); logarithmic<3,LIN>(r, true, k); logarithmic<2,ISO>(r, false, k); logarithmic<3,ISO>(r, false, k); } });
    return finish();
}
