// C21/C22 on meshes: the Behavior container against stand-alone laws kept per
// quadrature point, through probes, commits and copies.  PART = dimension,
// PLASTIC selects the laws with history.
#include "meshes.hpp"
#include "oracle.hpp"
#include "tens.hpp"
#include "diskpp/methods/hho"
#include "diskpp/mechanics/behaviors/laws/behaviorlaws.hpp"
using namespace mon; using tens::rsym; using tens::rmat; using T = double;
#ifndef PLASTIC
#define PLASTIC 0
#endif
template<typename Q> constexpr bool logstrain = false; template<typename L> constexpr bool logstrain<disk::mechanics::LogarithmicStrain_qp<L>> = true;
template<int D> tens::Mx<D> strain(Rng& r, size_t def, T e) { tens::Mx<D> E = e*rsym<D>(r); if (def == 0) return E; for (;;) { tens::Mx<D> F = tens::Mx<D>::Identity()+std::min(e, 0.4)*rmat<D>(r); if (F.determinant() > 0.1) return F; } }
template<typename Q, typename M> void drive(const M& msh, Rng& r, size_t def, size_t law, const char *dname, const char *lname)
{
    constexpr int D = M::dimension; size_t deg = r.integer(0, 4); disk::Behavior<M> b(msh, deg, def, law); disk::MaterialData<T> m(std::exp(r.real(-1, 3)), std::exp(r.real(-1, 2)), r.real(0.1, 2), r.real(0, 1), 0.02); m.setType(r.integer(1, 6)); m.addCurvePoint(0, 0.02); m.addCurvePoint(0.01, 0.05); m.addCurvePoint(0.1, 0.07); m.checkRpCurve(); b.addMaterialData(m); std::string d = cat(dname, " ", lname, " degree ", deg);
    check("behavior.names", b.getDeformationName() == dname && b.getLawName() == lname && b.getDeformation() == def); check("behavior.material", b.getMaterialData().getMu() == m.getMu() && b.getMaterialData().getRpCurve().size() == 3);
    std::vector<std::vector<Q>> twin; size_t total = 0, id = 0; for (auto& cl : msh) { auto qps = disk::integrate(msh, cl, deg); check("behavior.points-per-cell", b.numberOfQP(msh, cl) == qps.size() && b.numberOfQP(id) == qps.size(), d); std::vector<Q> v; for (size_t i = 0; i < qps.size(); i++) { auto qp = b.quadrature_point(id, i); check("behavior.points", (qp.point()-qps[i].point()).to_vector().norm() == 0 && qp.weight() == qps[i].weight(), d); v.push_back(Q(qps[i].point(), qps[i].weight())); } twin.push_back(v); total += qps.size(); id++; } check("behavior.points-total", b.numberOfQP() == total, d);
    T e = 0.03; int plastic = 0; size_t moves = n_of(60, 400); size_t events = 0;
    for (auto c = 0u; c < twin.size(); c++) for (size_t i = 0; i < twin[c].size(); i++) { auto E = strain<D>(r, def, e); auto got = b.compute_whole(c, i, E); auto want = twin[c][i].compute_whole(E, m); check("behavior.answer", got.first == want.first && got.second == want.second, d); }
    disk::Behavior<M> saved = b; auto twin_saved = twin; // after the first sweep: the laws in terms of F have no stress before it
    for (size_t k = 0; k < moves; k++)
    {
        int what = r.integer(0, 9); size_t c = r.integer(0, twin.size()-1), i = r.integer(0, twin[c].size()-1);
        if (what < 6) { auto E = strain<D>(r, def, e*r.real(0, 3)); bool tg = r.coin(0.8); auto got = b.compute_whole(c, i, E, tg); auto want = twin[c][i].compute_whole(E, m, tg); check("behavior.answer", got.first == want.first && got.second == want.second, d); plastic += b.is_plastic(c, i); }
        else if (what == 6) { b.update(); for (auto& v : twin) for (auto& q : v) q.update(); }
        else if (what == 7) { saved = b; twin_saved = twin; }
        else if (what == 8) { if (r.coin(0.3)) { b = saved; twin = twin_saved; } }
        for (int t = 0; t < 4; t++) { size_t cc = t == 0 ? c : r.integer(0, twin.size()-1), ii = t == 0 ? i : r.integer(0, twin[cc].size()-1); auto& q = twin[cc][ii]; events++; check("behavior.state", tens::Mx<3>(b.compute_stress3D(cc, ii)) == tens::Mx<3>(q.compute_stress3D(m)) && b.is_plastic(cc, ii) == q.is_plastic() && b.equivalentPlasticStrain(cc, ii) == q.getEquivalentPlasticStrain(), d); }
    }
    for (size_t c = 0; c < twin.size(); c++) for (size_t i = 0; i < twin[c].size(); i++) check("behavior.final-state", tens::Mx<3>(b.compute_stress3D(c, i)) == tens::Mx<3>(twin[c][i].compute_stress3D(m)) && b.equivalentPlasticStrain(c, i) == twin[c][i].getEquivalentPlasticStrain(), d);
    { bool t = false; try { b.compute_stress3D(twin.size(), 0); } catch (const std::out_of_range&) { t = true; } check("behavior.unknown-cell-refused", t); }
    sig(cat(orc::kind<M>(), "/", dname, "/", lname, "/", deg, "/plastic ", plastic > 0));
}
template<typename M> void laws(const M& msh, Rng& r)
{
    constexpr int D = M::dimension;
#if PLASTIC
    drive<disk::LinearIsotropicAndKinematicHardening_qp<T,D>>(msh, r, 0, 1, "SMALL_DEF", "LINEAR_HARDENING"); drive<disk::IsotropicHardeningVMis_qp<T,D>>(msh, r, 0, 2, "SMALL_DEF", "NONLINEAR_HARDENING"); drive<disk::mechanics::LogarithmicStrain_qp<disk::LinearIsotropicAndKinematicHardening_qp<T,D>>>(msh, r, 1, 1, "LOGARITHMIC_DEF", "LINEAR_HARDENING"); drive<disk::mechanics::LogarithmicStrain_qp<disk::IsotropicHardeningVMis_qp<T,D>>>(msh, r, 1, 2, "LOGARITHMIC_DEF", "NONLINEAR_HARDENING");
#else
    drive<disk::LinearElasticity_qp<T,D>>(msh, r, 0, 0, "SMALL_DEF", "ELASTIC"); drive<disk::HenckyMises_qp<T,D>>(msh, r, 0, 3, "SMALL_DEF", "HENCKY_MISES"); drive<disk::Neohookean_qp<T,D>>(msh, r, 2, 4, "F_DEF", "NEOHOKEAN"); drive<disk::Cavitation_qp<T,D>>(msh, r, 2, 5, "F_DEF", "CAVITATION"); drive<disk::mechanics::LogarithmicStrain_qp<disk::LinearElasticity_qp<T,D>>>(msh, r, 1, 0, "LOGARITHMIC_DEF", "ELASTIC");
    { static const int ok[3][7] = {{1,1,1,1,0,0,0},{1,1,1,0,0,0,0},{0,0,0,0,1,1,0}}; for (size_t d = 0; d < 4; d++) for (size_t l = 0; l < 8; l++) { bool t = false, want = d < 3 && l < 7 && ok[d][l]; try { disk::Behavior<M> b(d, l); } catch (const std::invalid_argument&) { t = true; } check("behavior.combinations", t == !want, cat(d, " ", l)); } disk::Behavior<M> b; check("behavior.default", b.getDeformationName() == "SMALL_DEF" && b.getLawName() == "ELASTIC"); }
#endif
}
template<typename M> void mesh_case(const char *nm) { for (int i = 0; i < int(n_of(3, 20)); i++) run_case(cat(nm, "/", i), [&](Rng& r) { M m; vm::make(m, r, r.integer(0, vm::nvariants(m)-1), 0); if (m.cells_size() > 60) { skip("large"); return; } laws(m, r); }); }
int main(int argc, char **argv)
{
    init(argc, argv, PLASTIC ? "C22" : "C21");
#if PART == 2
    mesh_case<vm::s2_t>("tri"); mesh_case<vm::c2_t>("quad"); mesh_case<vm::g2_t>("poly");
#else
    mesh_case<vm::s3_t>("tet"); mesh_case<vm::c3_t>("hex"); mesh_case<vm::g3_t>("poly3");
#endif
    return finish();
}
