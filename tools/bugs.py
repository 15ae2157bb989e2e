# planted bugs: written from the properties and the code; see tools/mkbug.py
H='methods/implementation_hho/'
PRE='''#include <iostream>
#include <cmath>
#include <cstdlib>
#include <vector>
#include "diskpp/mesh/meshgen.hpp"
#include "diskpp/methods/hho"
using T = double;
[[maybe_unused]] static int fails = 0;
[[maybe_unused]] static void expect(const char* what, double err, double tol) { std::cout << what << " " << err << std::endl; if (!(err <= tol)) fails++; }
template<typename Mesh> void skew(Mesh& m) { m.transform([](const typename Mesh::point_type& p) { auto q = p; if constexpr (Mesh::dimension == 2) { q.x() = 1.3*p.x()+0.4*p.y()+0.1; q.y() = 0.2*p.x()+0.9*p.y()-0.3; } return q; }); }
'''
B={}
B['b01']=dict(property='C01',edits=[('mesh/meshgen.hpp','make_tetra(pi4, pi9, pi5, pi6, bn, bn, b0, bn);','make_tetra(pi4, pi9, pi5, pi6, bn, bn, b1, bn);')],
 needs='a tetrahedral mesh refined at least once; only the central child face of one of the four faces of a boundary tetrahedron is affected',
 breaks='after refinement some faces on the boundary are not reported as boundary faces, and some interior faces are',
 demo=PRE+'''int main() { disk::simplicial_mesh<T,3> m; auto ms = make_simple_mesher(m); ms.refine(); auto cv = connectivity_via_faces(m); size_t bad = 0;
 for (auto& cl : m) for (auto& f : faces(m, cl)) if (cv.neighbour_via(m, cl, f).second == m.is_boundary(f)) bad++;
 std::cout << "inconsistent faces " << bad << std::endl; return bad != 0; }''')
B['b03']=dict(property='C03',edits=[('geometry/geometry_generic.hpp','''    for (size_t i = 0; i < pts.size(); i++)
    {
        auto p0 = pts[i];
        auto p1 = pts[(i+1)%pts.size()];
        auto p2 = pts[(i+2)%pts.size()];''','''    for (size_t i = 0; i+2 < pts.size(); i++)
    {
        auto p0 = pts[i];
        auto p1 = pts[i+1];
        auto p2 = pts[i+2];''')],
 needs='a non-convex polygon whose only reflex vertex is the first or the last one of its list',
 breaks='is_convex answers true for such a polygon',
 demo=PRE+'''int main() { disk::generic_mesh<T,2> m; make_single_element_mesh(m, 1.0, 6); m.backend_storage()->points[0] = disk::point<T,2>(0.1, 0.0); bool c = is_convex(m, *m.cells_begin()); std::cout << "convex " << c << std::endl; return c; }''')
B['b08']=dict(property='C08',edits=[('bases/bases_utils.hpp','const auto qps = integrate(msh, elem, 2 * (degree - 1));','const auto qps = integrate(msh, elem, 2 * degree - degree / 3 - 2);')],
 needs='a basis of degree three or more on a cell that is not a quadrilateral integrated with a tensor rule',
 breaks='stiffness matrices of bases of degree three or more are integrated with too low a rule',
 demo=PRE+'''int main() { disk::simplicial_mesh<T,2> m; auto ms = make_simple_mesher(m); skew(m); double e = 0; for (auto& cl : m) { auto b = disk::make_scalar_monomial_basis(m, cl, 3); auto S = disk::make_stiffness_matrix(m, cl, b); decltype(S) R = decltype(S)::Zero(b.size(), b.size()); for (auto& qp : disk::integrate(m, cl, 10)) { auto g = b.eval_gradients(qp.point()); R += qp.weight()*g*g.transpose(); } e = std::max(e, (S-R).norm()/R.norm()); } expect("stiffness", e, 1e-10); return fails; }''')
B['b09']=dict(property='C09',edits=[(H+'vector_hho_gradrec.hpp','''        const auto qps = integrate(msh, cl, celdeg + graddeg - 1);
        for (auto& qp : qps)
        {
            const auto        c_phi     = cb.eval_functions(qp.point());
            const auto        g_dphi    = gb.eval_divergences(qp.point());''','''        const auto qps = integrate(msh, cl, 2 * graddeg - 1);
        for (auto& qp : qps)
        {
            const auto        c_phi     = cb.eval_functions(qp.point());
            const auto        g_dphi    = gb.eval_divergences(qp.point());''')],
 needs='mixed order: cell degree one more than the gradient degree, on a cell where the rules of the two degrees differ',
 breaks='the gradient reconstruction in the full polynomial space is wrong for mixed-order unknowns',
 demo=PRE+'''int main() { disk::simplicial_mesh<T,2> m; auto ms = make_simple_mesher(m); skew(m); double e = 0; disk::hho_degree_info di(4,3,3); for (auto& cl : m) { auto f = [](const disk::point<T,2>& p) -> T { return p.x()*p.x()*p.x()*p.x()-2*p.y()*p.y()*p.x()*p.x()+p.y(); }; auto g = [](const disk::point<T,2>& p) { return Eigen::Matrix<T,2,1>(4*p.x()*p.x()*p.x()-4*p.y()*p.y()*p.x(), -4*p.y()*p.x()*p.x()+1); };
 disk::dynamic_vector<T> v = disk::project_function(m, cl, di, disk::scalar_rhs_function<disk::simplicial_mesh<T,2>>(f), 4); auto G = disk::make_vector_hho_gradrec(m, cl, di); disk::dynamic_vector<T> r = G.first*v; auto gb = disk::make_vector_monomial_basis(m, cl, 3); auto x = barycenter(m, cl); auto phi = gb.eval_functions(x); Eigen::Matrix<T,2,1> a = phi.transpose()*r; e = std::max(e, (a-g(x)).norm()); } expect("gradient", e, 1e-8); return fails; }''')
B['b10']=dict(property='C10',edits=[(H+'scalar_stabilization.hpp','''        auto n = normal(msh, cl, fc);
        T stabparam = n.dot(kappaT*n)/h;
        oper.block(0, 0, fbs, cbs) = mass.ldlt().solve(trace);''','''        auto n = normal(msh, cl, fc);
        T stabparam = n.dot(kappaT.diagonal().asDiagonal()*n)/h;
        oper.block(0, 0, fbs, cbs) = mass.ldlt().solve(trace);''')],
 needs='an anisotropic diffusion tensor with off-diagonal terms, and faces that are not aligned with the axes',
 breaks='the stabilisation of make_scalar_hdg_stabilization2 does not scale with the normal diffusion',
 demo='')
B['b11']=dict(property='C11',edits=[(H+'scalar_hho_condensation.hpp','const vector_type solT = K_TT.ldlt().solve(rhs.head(num_cell_dofs) - K_TF * solF);','const vector_type solT = K_TT.ldlt().solve(rhs.head(num_cell_dofs) - lhs.bottomLeftCorner(num_faces_dofs, num_cell_dofs).transpose() * solF);')],
 needs='a local matrix whose cell/face couplings are not symmetric',
 breaks='the cell unknowns are recovered from the wrong coupling block',
 demo=PRE+'''int main() { disk::simplicial_mesh<T,2> m; auto ms = make_simple_mesher(m); auto cl = *m.cells_begin(); disk::hho_degree_info di(1,1); int n = 3+6; srand(3); disk::dynamic_matrix<T> A = disk::dynamic_matrix<T>::Random(n, n); A.topLeftCorner(3,3) = 3*disk::dynamic_matrix<T>::Identity(3,3); disk::dynamic_vector<T> x = disk::dynamic_vector<T>::Random(n), b = A*x; disk::dynamic_vector<T> xf = x.tail(6); auto y = disk::make_scalar_static_decondensation(m, cl, di, A, b, xf); expect("recovered", (y-x).norm(), 1e-10); return fails; }''')
B['b17']=dict(property='C17',edits=[('boundary_conditions/boundary_conditions.hpp','''        const auto        func   = m_robin_func.at(std::get<3>(m_faces_is_robin.at(face_i)));
        const scalar_type factor = m_factor;
''','''        const auto        func   = m_robin_func.at(std::get<3>(m_faces_is_robin.at(face_i)));
        const scalar_type factor = m_factor * m_factor;
''')],
 needs='a Robin boundary and a call of multiplyAllFunctionsByAFactor with a factor other than 0, 1',
 breaks='the Robin function is scaled by the square of the declared factor',
 demo=PRE+'''int main() { using M = disk::simplicial_mesh<T,2>; M m; auto ms = make_simple_mesher(m); disk::scalar_boundary_conditions<M> b(m); b.addRobinBC(disk::ROBIN, 1, [](const disk::point<T,2>& p) -> T { return 2; }); b.multiplyAllFunctionsByAFactor(0.5); for (auto it = m.boundary_faces_begin(); it != m.boundary_faces_end(); it++) { auto id = m.lookup(*it); if (b.is_robin_face(id)) expect("robin", std::abs(b.robin_boundary_func(id)(disk::point<T,2>(0,0))-1), 1e-12); } return fails; }''')
B['b24']=dict(property='C24',edits=[('mechanics/NewtonSolver/TimeManager.hpp','const T new_time = start_time + (end_time - start_time) / T(2);','const T new_time = start_time + (end_time - start_time) / T(CurrentStep.level() + 2);')],
 needs='a time step split twice',
 breaks='a step that is already the result of a split is not halved',
 demo='''#include <iostream>
#include <cmath>
#include <list>
#include <vector>
#include "diskpp/mechanics/NewtonSolver/TimeManager.hpp"
int main() { disk::mechanics::ListOfTimeStep<double> l(1.0, 1); l.splitCurrentTimeStep(); l.splitCurrentTimeStep(); auto a = l.getCurrentTimeStep(); std::cout << a.increment_time() << std::endl; return std::abs(a.increment_time()-0.25) > 1e-12; }''')
B['b25']=dict(property='C25',edits=[('mesh/rational.hpp','''		auto a = m_num;
		auto b = m_den;
		auto c = other.m_num;
		auto d = other.m_den;

		m_num = a*d - b*c;
		m_den = b*d;
''','''		m_num *= other.m_den;
		m_num -= m_den*other.m_num;
		m_den *= other.m_den;
''')],
 needs='a number subtracted from itself in place (x -= x with a denominator other than one)',
 breaks='the difference is not zero, because the operand is modified while it is being read',
 demo='''#include <iostream>
#include <cassert>
#include <cstdint>
#include "diskpp/mesh/rational.hpp"
int main() { disk::rational<int64_t> x(3,7); x -= x; std::cout << x.num() << "/" << x.den() << std::endl; return x.num() != 0; }''')
B['b02']=dict(property='C02',edits=[('geometry/geometry_all.hpp','''    auto cell_bar = barycenter(msh, cl);
    auto face_bar = barycenter(msh, fc);''','''    point<T,2> cell_bar;
    for (auto& pt : points(msh, cl))
        cell_bar = cell_bar + pt / T(points(msh, cl).size());
    auto face_bar = barycenter(msh, fc);''')],nth=0,
 needs='a star-shaped polygon most of whose vertices are gathered on a spike, so that their average does not see all the edges',
 breaks='the normal of an edge of such a polygon points inwards',
 demo=PRE+'''int main() { disk::generic_mesh<T,2> m; make_single_element_mesh(m, 1.0, 13); double xy[13][2] = {{-1,-1},{1,-1},{1,-0.05},{1.5,-0.04},{2,-0.03},{2.5,-0.02},{3,0},{2.5,.02},{2,.03},{1.5,.04},{1,.05},{1,1},{-1,1}};
 auto cl0 = *m.cells_begin(); auto ids = cl0.point_ids(); for (size_t i = 0; i < 13; i++) m.backend_storage()->points[ids[i]] = disk::point<T,2>(xy[i][0], xy[i][1]);
 auto cl = *m.cells_begin(); Eigen::Matrix<T,2,1> s = Eigen::Matrix<T,2,1>::Zero(); for (auto& f : faces(m, cl)) s += normal(m, cl, f)*measure(m, f); expect("closed", s.norm(), 1e-10); return fails; }''')
B['b04']=dict(property='C04',edits=[('quadratures/bits/quad_phys_simplicial.hpp','disk::quadrature::arbq(degree, pts[0]','disk::quadrature::arbq(std::min(degree, size_t(14)), pts[0]')],
 needs='a rule of degree fifteen on a tetrahedron',
 breaks='the highest degree available on tetrahedra is served with a rule of one degree less, and higher degrees are not refused',
 demo=PRE+'''int main() { disk::simplicial_mesh<T,3> m; auto ms = make_simple_mesher(m); T s = 0; for (auto& cl : m) for (auto& qp : disk::integrate(m, cl, 15)) s += qp.weight()*std::pow(qp.point().x()-2*qp.point().y(), 15)*3; T e = 0; auto I = [](T a) { return std::pow(a, 17)/(16*17); }; e = 3*(I(-1)-I(1)-I(-2)+I(0))/(-2); expect("x^15", std::abs(s/e-1), 1e-9); return fails; }''')
B['b05']=dict(property='C05',edits=[('quadratures/bits/quad_raw_triangle.hpp','{ 6, { 0.001268330932872, 0.118974497696957, 0.879757171370171 },  0.005010228838501 }','{ 6, { 0.001268330932872, 0.118974479696957, 0.879757171370171 },  0.005010228838501 }')],
 needs='the rule of degree fourteen on triangles; two digits are swapped, the error is of the order of 1e-10',
 breaks='the rule is no longer exact to the accuracy of the others',
 demo=PRE+'''int main() { using P = disk::point<T,2>; auto q = disk::quadrature::dunavant(14, P(0,0), P(1,0), P(0,1)); T s = 0, y = 0; for (auto& qp : q) { s += qp.weight()*qp.point().x(); y += qp.weight()*qp.point().y(); } expect("x", std::abs(s-1./6), 1e-13); expect("y", std::abs(y-1./6), 1e-13); return fails; }''')
B['b06']=dict(property='C06',edits=[('bases/bases_scalar.hpp','90090 * pows[4] - 13860 * pows[2] + 315) / 128; break;','90090 * pows[4] - 13860 * pows[2] + 351) / 128; break;')],
 needs='a Legendre basis of degree nine or more',
 breaks='the derivative of the ninth Legendre polynomial is off by a constant',
 demo=PRE+'''int main() { disk::cartesian_mesh<T,2> m; auto ms = make_simple_mesher(m); auto cl = *m.cells_begin(); auto b = disk::make_scalar_legendre_basis(m, cl, 9, false); auto x = barycenter(m, cl); T h = 1e-5*diameter(m, cl); double e = 0; for (int d = 0; d < 2; d++) { auto p = x, q = x; if (d) { p.y() += h; q.y() -= h; } else { p.x() += h; q.x() -= h; } Eigen::Matrix<T,-1,1> n = (b.eval_functions(p)-b.eval_functions(q))/(2*h); Eigen::Matrix<T,-1,1> g = b.eval_gradients(x).col(d); e = std::max(e, (n-g).norm()/g.norm()); } expect("gradient", e, 1e-4); return fails; }''')
B['b07']=dict(property='C07',edits=[('bases/bases_vector.hpp','''            const auto dy       = (pow_y == 0) ? 0 : pow_y * iexp_pow(by, pow_y - 1);
            const auto dpdx     = dx * py;''','''            const auto dy       = (pow_y == 0) ? 0 : pow_y * iexp_pow(bx, pow_y - 1);
            const auto dpdx     = dx * py;''')],
 needs='the tangential Nedelec basis of a face, of degree one or more',
 breaks='the functions of highest degree are no longer gradients',
 demo=PRE+'''int main() { disk::simplicial_mesh<T,3> m; auto ms = make_simple_mesher(m); double e = 0; for (auto& f : faces(m, *m.cells_begin())) { auto b = disk::make_vector_monomial_nedelec_tangential_basis(m, f, 1); auto pts = points(m, f); auto a = (pts[1]-pts[0]).to_vector(), c = (pts[2]-pts[0]).to_vector(); int N = b.size();
 auto at = [&](T s, T t) { disk::point<T,3> p(pts[0].x()+s*a(0)+t*c(0), pts[0].y()+s*a(1)+t*c(1), pts[0].z()+s*a(2)+t*c(2)); return b.eval_functions(p); }; T h = 1e-3; Eigen::Matrix<T,-1,1> rot = (at(.3+h,.2)-at(.3-h,.2))*c-(at(.3,.2+h)-at(.3,.2-h))*a; e = std::max(e, rot.tail(3).norm()/h); } expect("rotation", e, 1e-8); return fails; }''')
B['b10']['demo']=PRE+'''int main() { disk::simplicial_mesh<T,2> m; auto ms = make_simple_mesher(m); skew(m); double e = 0; for (auto& cl : m) { Eigen::Matrix<T,2,2> K; K << 3, 1, 1, 2; disk::hho_degree_info di(0,0); auto S = disk::make_scalar_hdg_stabilization2(m, cl, di, K); auto fcs = faces(m, cl); auto w = [&](int i) -> T { auto n = normal(m, cl, fcs[i]); return n.dot(K*n)*measure(m, fcs[i]); }; for (int i = 1; i < 3; i++) e = std::max(e, std::abs(S(1+i,1+i)/S(1,1)-w(i)/w(0))); } expect("scaling", e, 1e-10); return fails; }'''
B['b12']=dict(property='C12',edits=[(H+'assembler_hho.hpp','''                        for (size_t i = 0; i < neumann.size(); i++)
                        {
                            RHS(size_t(asm_map[i])) += neumann[i];
                        }''','''                        RHS.segment(face_LHS_offset, num_face_dofs) = neumann;''')],nth=0,
 needs='a Neumann condition imposed after the assembly of a load whose part on that face is not zero, as after static condensation',
 breaks='the Neumann data replaces the load of the face instead of adding to it',
 demo=PRE+'''#include "diskpp/boundary_conditions/boundary_conditions.hpp"
int main() { using M = disk::simplicial_mesh<T,2>; M m; auto ms = make_simple_mesher(m); disk::scalar_boundary_conditions<M> b(m); auto f = [](const disk::point<T,2>& p) -> T { return 1; }; size_t id0 = m.boundary_id(*m.boundary_faces_begin()); b.addNeumannBC(disk::NEUMANN, id0, f);
 disk::hho_degree_info di(1,1); auto as = disk::make_diffusion_assembler(m, di, b); disk::dynamic_matrix<T> A = disk::dynamic_matrix<T>::Identity(6,6); disk::dynamic_vector<T> r = disk::dynamic_vector<T>::Ones(6); for (auto& cl : m) as.assemble(m, cl, b, A, r, 1);
 auto before = as.RHS; as.impose_neumann_boundary_conditions(m, b, 1); disk::dynamic_vector<T> d = as.RHS-before; T s = 0; for (int i = 0; i < d.size(); i += 2) s += d(i); T L = 0; for (auto it = m.boundary_faces_begin(); it != m.boundary_faces_end(); it++) if (m.boundary_id(*it) == id0) L += measure(m, *it); expect("flux", std::abs(s-L), 1e-10); return fails; }''')
B['b13']=dict(property='C13',edits=[(H+'matrix_hho_gradrec.hpp','const auto qps_f = integrate(msh, fc, graddeg + std::max(celdeg, facdeg));','const auto qps_f = integrate(msh, fc, graddeg + facdeg);')],nth=0,
 needs='mixed-order unknowns with the cell degree above the face degree, in three dimensions',
 breaks='the symmetric gradient reconstructed from mixed-order unknowns is wrong, because the trace of the cell unknowns is integrated with too low a rule',
 demo=PRE+'''int main() { using M = disk::simplicial_mesh<T,3>; M m; auto ms = make_simple_mesher(m); disk::hho_degree_info di(2,1,1); auto f = [](const disk::point<T,3>& p) { return Eigen::Matrix<T,3,1>(p.x()*p.x()-p.y()*p.z(), p.x()*p.z()+p.y(), p.z()*p.z()+p.x()*p.y()); }; auto g = [](const disk::point<T,3>& p) { Eigen::Matrix<T,3,3> G; G << 2*p.x(), -p.z(), -p.y(), p.z(), 1, p.x(), p.y(), p.x(), 2*p.z(); return Eigen::Matrix<T,3,3>((G+G.transpose())/2); }; double e = 0;
 for (auto& cl : m) { disk::dynamic_vector<T> v = disk::project_function(m, cl, di, disk::vector_rhs_function<M>(f), 4); auto G = disk::make_matrix_hho_symmetric_gradrec(m, cl, di); disk::dynamic_vector<T> r = G.first*v; auto gb = disk::make_sym_matrix_monomial_basis(m, cl, 1); auto x = points(m, cl)[0]; auto phi = gb.eval_functions(x); Eigen::Matrix<T,3,3> a = Eigen::Matrix<T,3,3>::Zero(); for (size_t i = 0; i < gb.size(); i++) a += r(i)*phi[i]; e = std::max(e, (a-g(x)).norm()); } expect("gradient", e, 1e-8); return fails; }''')
B['b16']=dict(property='C16',edits=[('methods/implementation_dga/methods_dga.hpp','    if ( priv::volume_signed(mesh, t) > 0 )\n    {\n        ret[0] =  pav[0]','    if ( priv::volume_unsigned(mesh, t) > 0 )\n    {\n        ret[0] =  pav[0]')],
 needs='a tetrahedron whose points, in the order of their numbers, are negatively oriented',
 breaks='the face normals of that tetrahedron point inwards',
 demo=PRE+'''#include "diskpp/methods/dga"
int bad = 0; template<typename M> void look(const M& m) { for (auto& cl : m) { auto n = disk::priv::normals(m, cl); auto c = barycenter(m, cl); auto fs = faces(m, cl); for (int i = 0; i < 4; i++) { bool found = false; for (auto& f : fs) { auto d = barycenter(m, f)-c; auto p = points(m, f); Eigen::Vector3d u(p[1].x()-p[0].x(), p[1].y()-p[0].y(), p[1].z()-p[0].z()); if (std::abs(u.dot(n[i])) < 1e-9) { Eigen::Vector3d w(p[2].x()-p[0].x(), p[2].y()-p[0].y(), p[2].z()-p[0].z()); if (std::abs(w.dot(n[i])) < 1e-9) { found = true; bad += n[i].dot(Eigen::Vector3d(d.x(), d.y(), d.z())) < 0; } } } bad += !found; } } }
int main() { disk::simplicial_mesh<T,3> m; auto ms = make_simple_mesher(m); look(m); m.transform([](const disk::point<T,3>& p) { return disk::point<T,3>({-p.x(), p.y(), p.z()+0.1*p.x()}); }); look(m); std::cout << "inwards " << bad << std::endl; return bad != 0; }''')
B['b18']=dict(property='C18',edits=[(H+'utils_hho.hpp','''    if (di.hasUnknowns())
    {
        return vector_basis_size''','''    if (di.hasUnknowns() || di.degree() > 0)
    {
        return vector_basis_size''')],
 needs='a face without unknowns whose degree is set to one or more',
 breaks='vector unknowns are counted on a face that has none',
 demo=PRE+'''int main() { disk::simplicial_mesh<T,2> m; auto ms = make_simple_mesher(m); disk::DegreeInfo d(false, 2); size_t a = disk::scalar_face_dofs(m, d), b = disk::vector_face_dofs(m, d); std::cout << a << " " << b << std::endl; return a || b; }''')
B['b19']=dict(property='C19',edits=[('loaders/loader_fvca5.hpp','''        auto get_id = [](const sd_pair& sdp) -> auto { return subdomain_descriptor(sdp.second); };
        storage->subdomain_info.resize(surfaces.size());
        std::transform(surfaces.begin(), surfaces.end(), storage->subdomain_info.begin(), get_id);''','''        auto get_id = [](const fvca5_poly& p) -> auto { return subdomain_descriptor(p.domain_id); };
        storage->subdomain_info.resize(surfaces.size());
        std::transform(m_polys.begin(), m_polys.end(), storage->subdomain_info.begin(), get_id);''')],
 needs='a FVCA5 file with more than one subdomain whose polygons are not listed in the order in which the library sorts them',
 breaks='cells are attributed to the wrong subdomain',
 demo=PRE+'''#include <fstream>
#include "diskpp/loaders/loader.hpp"
int main() { { std::ofstream o("a.typ1"); o << "vertices\\n6\\n0 0\\n0.5 0\\n1 0\\n0 1\\n0.5 1\\n1 1\\nquadrangles\\n2\\n2 3 6 5 7\\n1 2 5 4 3\\nedges of the boundary\\n6\\n1 2\\n2 3\\n3 6\\n6 5\\n5 4\\n4 1\\nall edges\\n7\\n1 2 2 0\\n2 3 1 0\\n3 6 1 0\\n6 5 1 0\\n5 4 2 0\\n4 1 2 0\\n2 5 1 2\\n"; }
 disk::generic_mesh<T,2> m; if (!disk::load_mesh_fvca5_2d("a.typ1", m)) return 2; int bad = 0; for (auto& cl : m) bad += m.domain_info(cl).id() != (barycenter(m, cl).x() > 0.5 ? 7u : 3u); std::cout << "wrong " << bad << std::endl; return bad; }''')
B['b20']=dict(property='C20',edits=[('mesh/mesh_hierarchy.hpp','''            m_edges.push_back( edge(t_e2.p1, t_e2.pb, t_e2.boundary_id, t_e2.is_boundary) );''','''            m_edges.push_back( edge(t_e2.p1, t_e2.pb, t_e1.boundary_id, t_e2.is_boundary) );''')],
 needs='a boundary edge joining the first and the last point of its triangle, and a level of refinement',
 breaks='half of that edge gets the boundary number of another edge after refinement',
 demo=PRE+'''#include <map>
#include "diskpp/mesh/mesh_hierarchy.hpp"
int main() { using M = disk::simplicial_mesh<T,2>; using P = disk::point<T,2>; M m; make_single_element_mesh(m, P(0,0), P(1,0), P(0,1)); auto st = m.backend_storage(); for (size_t i = 0; i < 3; i++) st->boundary_info[i] = disk::boundary_descriptor(i+5, true); auto side = [](const P& p) { return p.x() < 1e-9 ? 0 : p.y() < 1e-9 ? 1 : 2; }; std::map<int,size_t> id; for (auto it = m.boundary_faces_begin(); it != m.boundary_faces_end(); it++) id[side(barycenter(m, *it))] = m.boundary_id(*it); disk::mesh_hierarchy<T> h(m, 1); auto f = h.finest_mesh(); int bad = 0; for (auto it = f.boundary_faces_begin(); it != f.boundary_faces_end(); it++) bad += id[side(barycenter(f, *it))] != f.boundary_id(*it); std::cout << "wrong " << bad << std::endl; return bad != 0; }''')
B['b21']=dict(property='C21',edits=[('mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp','case 5: return J * J * (8.0 * J * J - 4.0);','case 5: return J * J * (6.0 * J * J - 2.0);')],
 needs='the fifth volumetric function and a deformation that changes the volume',
 breaks='the tangent moduli are not the derivative of the stress (they still are at the reference configuration)',
 demo=PRE+'''#include "diskpp/loaders/loader.hpp"
#include "diskpp/mechanics/behaviors/laws/behaviorlaws.hpp"
int main() { disk::MaterialData<T> d(2., 1.); d.setType(5); disk::Neohookean_qp<T,3> q; Eigen::Matrix<T,3,3> F = Eigen::Matrix<T,3,3>::Identity()*1.1, H = Eigen::Matrix<T,3,3>::Identity(); auto w = q.compute_whole(F, d); T h = 1e-6; auto p = q.compute_whole(Eigen::Matrix<T,3,3>(F+h*H), d).first, n = q.compute_whole(Eigen::Matrix<T,3,3>(F-h*H), d).first; Eigen::Matrix<T,3,3> num = (p-n)/(2*h); T tr = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) tr += disk::coeff<T,3>(w.second, i, i, j, j); expect("tangent", std::abs(tr-num.trace()), 1e-4); return fails; }''')
B['b22']=dict(property='C22',edits=[('mechanics/behaviors/laws/LinearIsotropicAndKinematicHardening/LinearIsotropicAndKinematicHardening_qp.hpp','''            m_pstrain_curr       = m_pstrain_prev;
            m_p_curr             = m_p_prev;
''','''            m_pstrain_curr       = m_pstrain_prev;
''')],
 needs='within one time step, an evaluation that yields followed by one that does not',
 breaks='the plastic strain accumulated in an abandoned iteration is kept',
 demo=PRE+'''#include "diskpp/loaders/loader.hpp"
#include "diskpp/mechanics/behaviors/laws/behaviorlaws.hpp"
int main() { disk::MaterialData<T> d(2., 1., 0.1, 0., 0.01); disk::LinearIsotropicAndKinematicHardening_qp<T,3> q; Eigen::Matrix<T,3,3> E = Eigen::Matrix<T,3,3>::Zero(); E(0,1) = E(1,0) = 0.1; q.compute_whole(E, d); T a = q.getEquivalentPlasticStrain(); q.compute_whole(Eigen::Matrix<T,3,3>(E*1e-3), d); q.update(); std::cout << a << " " << q.getEquivalentPlasticStrain() << std::endl; return !(a > 0 && q.getEquivalentPlasticStrain() == 0); }''')
B['b23']=dict(property='C23',edits=[('mechanics/behaviors/tensor_conversion.hpp','''        ret(3, 5) = coeff<T, DIM>(tens, 0, 1, 1, 2) * T(2);
        ret(3, 4) = coeff<T, DIM>(tens, 0, 1, 0, 2) * T(2);''','''        ret(3, 5) = coeff<T, DIM>(tens, 1, 2, 0, 1) * T(2);
        ret(3, 4) = coeff<T, DIM>(tens, 0, 2, 0, 1) * T(2);''')],
 needs='a fourth-order tensor without major symmetry, as the moduli of a non-associated law',
 breaks='two entries of the converted tensor are those of its transpose',
 demo=PRE+'''#include "diskpp/loaders/loader.hpp"
#include "diskpp/mechanics/behaviors/laws/behaviorlaws.hpp"
int main() { disk::static_tensor<T,3> t; for (int i = 0; i < 9; i++) for (int j = 0; j < 9; j++) t(i,j) = 1; disk::coeff<T,3>(t, 0, 1, 1, 2, 5.); disk::coeff<T,3>(t, 0, 1, 0, 2, 7.); auto m = disk::convertTensorNotationMangel<T,3>(t); std::cout << m(3,5) << " " << m(3,4) << std::endl; return m(3,5) != 10 || m(3,4) != 14; }''')
B['b14']=dict(property='C14',edits=[('methods/implementation_hho/curl.hpp','''        const auto fb     = make_vector_monomial_tangential_basis(msh, fc, facdeg);

        const auto qps_f = integrate(msh, fc, 2*recdeg+2);''','''        const auto fb     = make_vector_monomial_tangential_basis(msh, fc, facdeg);

        const auto qps_f = integrate(msh, fc, 2*recdeg);''')],
 needs='a reconstruction of lower degree than the face unknowns (the full-polynomial variant)',
 breaks='the face terms of the curl reconstruction are underintegrated: the curl of an interpolated polynomial is not recovered',
 demo=PRE+'''#include "diskpp/loaders/loader.hpp"
#include "diskpp/methods/hho"
#include "diskpp/methods/implementation_hho/curl.hpp"
int main() { using M = disk::simplicial_mesh<T,3>; using P = disk::point<T,3>; M m; make_single_element_mesh(m, P({0.,0.,0.}), P({1.,0.2,0.}), P({0.3,1.,0.}), P({0.1,0.2,1.})); auto cl = *m.cells_begin(); disk::hho_degree_info h(disk::priv::hdi_named_args{.rd = 1, .cd = 2, .fd = 2}); auto X = disk::curl_reconstruction_pk(m, cl, h).first; auto cb = disk::make_vector_monomial_basis(m, cl, 2); size_t nc = cb.size(), o = nc; Eigen::VectorXd u = Eigen::VectorXd::Zero(X.cols()); for (size_t i = 0; i < nc; i++) u(i) = std::sin(1.0+7*i); for (auto& f : faces(m, cl)) { auto fb = disk::make_vector_monomial_tangential_basis(m, f, 2); size_t nf = fb.size(); Eigen::MatrixXd A = Eigen::MatrixXd::Zero(nf,nf); Eigen::VectorXd b = Eigen::VectorXd::Zero(nf); for (auto& q : disk::integrate(m, f, 6)) { Eigen::MatrixXd p = fb.eval_functions(q.point()), c = cb.eval_functions(q.point()); A += q.weight()*p*p.transpose(); b += q.weight()*p*(c.transpose()*u.head(nc)); } u.segment(o, nf) = A.ldlt().solve(b); o += nf; } Eigen::VectorXd r = X*u; auto rb = disk::make_vector_monomial_basis(m, cl, 1); P x({0.3,0.3,0.2}); Eigen::MatrixXd R = rb.eval_functions(x), G = cb.eval_curls2(x); expect("curl", (R.transpose()*r-G.transpose()*u.head(nc)).norm(), 1e-8); return fails; }''')
B['b26']=dict(property='C14',nth=0,edits=[('methods/implementation_hho/curl.hpp','''        const auto hf = diameter(msh, fc);

        matrix_type mass = matrix_type::Zero(fbs, fbs);
        matrix_type trace = matrix_type::Zero(fbs, cbs);
        matrix_type rhs = matrix_type::Zero(fbs, cbs + num_faces_dofs);

        rhs.block(0, offset, fbs, fbs) = matrix_type::Identity(fbs, fbs);

        const auto qps_f = integrate(msh, fc, 2*std::max(celdeg, facdeg)+2);''','''        const auto hf = diameter(msh, fc);

        matrix_type mass = matrix_type::Zero(fbs, fbs);
        matrix_type trace = matrix_type::Zero(fbs, cbs);
        matrix_type rhs = matrix_type::Zero(fbs, cbs + num_faces_dofs);

        rhs.block(0, offset, fbs, fbs) = matrix_type::Identity(fbs, fbs);

        const auto qps_f = integrate(msh, fc, 2*facdeg);''')],
 needs='cell unknowns of higher degree than the face unknowns, in three dimensions',
 breaks='the stabilisation penalises fields whose jumps vanish',
 demo=PRE+'''#include "diskpp/loaders/loader.hpp"
#include "diskpp/methods/hho"
#include "diskpp/methods/implementation_hho/curl.hpp"
int main() { using M = disk::simplicial_mesh<T,3>; using P = disk::point<T,3>; M m; make_single_element_mesh(m, P({0.,0.,0.}), P({1.,0.2,0.}), P({0.3,1.,0.}), P({0.1,0.2,1.})); auto cl = *m.cells_begin(); disk::hho_degree_info h(disk::priv::hdi_named_args{.rd = 2, .cd = 2, .fd = 1}); Eigen::MatrixXd S = disk::curl_hdg_stabilization(m, cl, h); auto cb = disk::make_vector_monomial_basis(m, cl, 2); size_t nc = cb.size(), o = nc; Eigen::VectorXd u = Eigen::VectorXd::Zero(S.cols()); for (size_t i = 0; i < nc; i++) u(i) = std::sin(1.0+7*i); for (auto& f : faces(m, cl)) { auto fb = disk::make_vector_monomial_tangential_basis(m, f, 1); size_t nf = fb.size(); Eigen::MatrixXd A = Eigen::MatrixXd::Zero(nf,nf); Eigen::VectorXd b = Eigen::VectorXd::Zero(nf); for (auto& q : disk::integrate(m, f, 6)) { Eigen::MatrixXd p = fb.eval_functions(q.point()), c = cb.eval_functions(q.point()); A += q.weight()*p*p.transpose(); b += q.weight()*p*(c.transpose()*u.head(nc)); } u.segment(o, nf) = A.ldlt().solve(b); o += nf; } expect("jumps", (S*u).norm(), 1e-8); return fails; }''')
B['b15']=dict(property='C15',edits=[('methods/implementation_vem/methods_vem_2d.hpp','    auto fy2 = factor[1]* factor[1];','    auto fy2 = factor[0]* factor[1];')],
 needs='order two or more and a cell whose extents differ in the two directions',
 breaks='the projection on polynomials is not the identity on them',
 demo=PRE+'''#include "diskpp/methods/vem"
int main() { disk::cartesian_mesh<T,2> m; make_single_element_mesh(m, disk::point<T,2>(0,0), 1., 0.5); auto cl = *m.cells_begin(); for (size_t k = 1; k < 4; k++) { auto G = disk::vem_2d::matrix_G(m, cl, k); auto D = disk::vem_2d::matrix_D(m, cl, k); auto P = disk::vem_2d::projector_nabla(m, cl, k, G); Eigen::MatrixXd E = P*D; E -= Eigen::MatrixXd::Identity(E.rows(), E.cols()); expect("projection", E.norm(), 1e-9); } return fails; }''')
B['b27']=dict(property='C15',edits=[('methods/implementation_vem/methods_vem_2d.hpp','    const auto cell_qps = integrate(msh, cl, 2*degree-2);','    const auto cell_qps = integrate(msh, cl, degree);')],
 needs='order three or more',
 breaks='the moments of polynomials are underintegrated: the stabilisation does not vanish on them',
 demo=PRE+'''#include "diskpp/methods/vem"
int main() { disk::simplicial_mesh<T,2> m; make_single_element_mesh(m, disk::point<T,2>(0,0), disk::point<T,2>(1,0.1), disk::point<T,2>(0.2,1)); auto cl = *m.cells_begin(); for (size_t k = 1; k < 5; k++) { auto G = disk::vem_2d::matrix_G(m, cl, k); auto D = disk::vem_2d::matrix_D(m, cl, k); auto P = disk::vem_2d::projector_nabla(m, cl, k, G); Eigen::MatrixXd E = P*D; E -= Eigen::MatrixXd::Identity(E.rows(), E.cols()); expect("projection", E.norm(), 1e-9); } return fails; }''')
B['b28']=dict(property='C27',libs='-lsiloh5',edits=[('output/silo.hpp','                if (silo_face_orientation(msh, cl, fc) < 0)','                if (!msh.is_boundary(fc) and silo_face_orientation(msh, cl, fc) < 0)')],
 needs='a polyhedral mesh with a boundary face whose points are ordered inwards',
 breaks='boundary faces of exported polyhedra are given as outward oriented, whatever the order of their points',
 demo=PRE+'''#include "diskpp/output/silo.hpp"
#include <map>
#include <set>
#include <algorithm>
using M = disk::generic_mesh<T,3>; using V = std::vector<size_t>;
static V srt(V v) { std::sort(v.begin(), v.end()); return v; }
int main() {
  M m; auto st = m.backend_storage(); using N = M::node_type; using E = M::edge_type; using S = M::surface_type; using P = M::volume_type;
  std::vector<disk::point<T,3>> pts; for (int k = 0; k < 3; k++) for (int j = 0; j < 2; j++) for (int i = 0; i < 2; i++) pts.push_back({T(i), T(j)+0.2*i, T(k)});
  for (size_t i = 0; i < pts.size(); i++) { st->points.push_back(pts[i]); st->nodes.push_back(N(disk::point_identifier<3>(i))); }
  std::vector<std::vector<V>> cells; for (size_t o : {0, 4}) cells.push_back({{o,o+1,o+3,o+2},{o+4,o+5,o+7,o+6},{o,o+1,o+5,o+4},{o+2,o+3,o+7,o+6},{o,o+2,o+6,o+4},{o+1,o+3,o+7,o+5}});
  std::map<V,size_t> eid; std::map<V,V> fcs; std::map<V,int> cnt; for (auto& c : cells) for (auto& f : c) { fcs[srt(f)] = f; cnt[srt(f)]++; for (int i = 0; i < 4; i++) eid[srt({f[i], f[(i+1)%4]})] = 0; }
  size_t n = 0; for (auto& [k, v] : eid) { v = n++; st->edges.push_back(E(N::id_type(k[0]), N::id_type(k[1]))); }
  std::vector<std::pair<V,V>> fl; for (auto& [k, f] : fcs) { V e; for (int i = 0; i < 4; i++) e.push_back(eid[srt({f[i], f[(i+1)%4]})]); fl.push_back({srt(e), k}); } std::sort(fl.begin(), fl.end());
  std::map<V,size_t> fid; for (size_t i = 0; i < fl.size(); i++) { std::vector<E::id_type> es; for (auto e : fl[i].first) es.push_back(E::id_type(e)); S s(es); auto& f = fcs[fl[i].second]; s.set_point_ids(f.begin(), f.end()); st->surfaces.push_back(s); st->boundary_info.push_back(cnt[fl[i].second] == 1 ? disk::boundary_descriptor(0, true) : disk::boundary_descriptor()); fid[fl[i].second] = i; }
  std::vector<P> vl; for (auto& c : cells) { V fs; std::set<size_t> vs; for (auto& f : c) { fs.push_back(fid[srt(f)]); vs.insert(f.begin(), f.end()); } fs = srt(fs); std::vector<S::id_type> ids; for (auto f : fs) ids.push_back(S::id_type(f)); P p(ids); V vv(vs.begin(), vs.end()); p.set_point_ids(vv.begin(), vv.end()); vl.push_back(p); }
  std::sort(vl.begin(), vl.end()); for (auto& p : vl) { st->volumes.push_back(p); st->subdomain_info.push_back(disk::subdomain_descriptor(0)); }
  disk::mark_internal_faces(m);
  { disk::silo_database db; if (!db.create("a.silo") || !db.add_mesh(m, "mesh")) return 3; }
  DBfile *f = DBOpen("a.silo", DB_UNKNOWN, DB_READ); if (!f) return 3; auto z = DBGetPHZonelist(f, "zonelist_mesh"); if (!z) return 3;
  std::vector<int> start(z->nfaces); for (int i = 1; i < z->nfaces; i++) start[i] = start[i-1]+z->nodecnt[i-1];
  int l = 0, bad = 0, tot = 0; for (int c = 0; c < z->nzones; c++) {
    Eigen::Vector3d cm(0,0,0); for (int i = l; i < l+z->facecnt[c]; i++) { int q = z->facelist[i] < 0 ? ~z->facelist[i] : z->facelist[i]; for (int k = 0; k < 4; k++) cm += pts[z->nodelist[start[q]+k]].to_vector()/24; }
    for (int i = l; i < l+z->facecnt[c]; i++) { bool inv = z->facelist[i] < 0; int q = inv ? ~z->facelist[i] : z->facelist[i]; auto p = [&](int k) -> Eigen::Vector3d { return pts[z->nodelist[start[q]+k]].to_vector(); }; Eigen::Vector3d nn = (p(1)-p(0)).cross(p(2)-p(0)); double s = nn.dot(p(0)-cm); if (inv) s = -s; tot++; if (s < 0) bad++; }
    l += z->facecnt[c]; }
  std::cout << "faces " << tot << " inward " << bad << std::endl; return bad != 0; }''')

B['b29']=dict(property='C26',flags='-fsanitize=thread -pthread',edits=[('quadratures/bits/quad_raw_gauss.hpp','    std::vector<quadrature_point<T, 2>> qps;\n    qps.reserve(npts * npts); /* Collect the points in the [-1, 1]^2 square */','    static std::vector<quadrature_point<T, 2>> qps; /* keep the memory between calls */\n    qps.clear();\n    qps.reserve(npts * npts); /* Collect the points in the [-1, 1]^2 square */')],
 needs='two threads integrating on quadrilaterals at the same time',
 breaks='the points of the rule are shared by all threads: the rules computed at the same time are mixed',
 demo=PRE+'''#include <thread>
#include <atomic>
extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=66"; }
int main() { std::atomic<int> bad{0}; auto work = [&](int t) { for (int i = 0; i < 2000; i++) { size_t d = 1+(i*7+t*3)%12; auto q = disk::quadrature::tensorized_gauss_legendre(d, disk::point<T,2>(0,0), disk::point<T,2>(1,0), disk::point<T,2>(1,1), disk::point<T,2>(0,1)); double s = 0; for (auto& x : q) s += x.weight(); if (!(std::abs(s-1) < 1e-12)) bad++; } };
 std::vector<std::thread> th; for (int t = 0; t < 4; t++) th.emplace_back(work, t); for (auto& t : th) t.join(); std::cout << "wrong rules " << bad << std::endl; return bad != 0; }''')
B['b30']=dict(property='C26',flags='-fsanitize=thread -pthread -I libdiskpp/include',libs='libdiskpp/src/common/mapped_file.cpp libdiskpp/src/common/util.cpp',edits=[('loaders/loader_cartesian.hpp','storage->volumes = std::move(volumes););\n','storage->volumes = std::move(volumes););\n\n        /* the number of cells does not depend on their order */\n        storage->subdomain_info.resize(volumes.size());\n'),('loaders/loader_cartesian.hpp','        storage->subdomain_info.resize(storage->volumes.size());\n\n        boundary_surfaces.clear();','        boundary_surfaces.clear();')],
 needs='the thread that sorts the cells of a hexahedral mesh ends before the main thread goes on',
 breaks='the table of the subdomains is empty',
 demo=PRE+'''#include "diskpp/loaders/loader.hpp"
#include <fstream>
#include <algorithm>
extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=66"; }
int main() { const size_t n = 3; std::ofstream o("m.hex"); auto id = [&](size_t i, size_t j, size_t k) { return i+(n+1)*(j+(n+1)*k); }; o << (n+1)*(n+1)*(n+1) << "\\n"; for (size_t k = 0; k <= n; k++) for (size_t j = 0; j <= n; j++) for (size_t i = 0; i <= n; i++) o << i/double(n) << " " << j/double(n) << " " << k/double(n) << "\\n";
 o << n*n*n << "\\n"; std::vector<std::vector<size_t>> bf; for (size_t k = 0; k < n; k++) for (size_t j = 0; j < n; j++) for (size_t i = 0; i < n; i++) { size_t v[8]; for (int a = 0; a < 8; a++) v[a] = id(i+(a&1), j+((a>>1)&1), k+(a>>2)); for (int a = 0; a < 8; a++) o << v[a] << " "; o << "\\n"; auto f = [&](bool c, int a, int b, int d, int e) { if (c) bf.push_back({v[a], v[b], v[d], v[e]}); }; f(i==0,0,2,6,4); f(i==n-1,1,3,7,5); f(j==0,0,4,5,1); f(j==n-1,2,6,7,3); f(k==0,0,1,3,2); f(k==n-1,4,5,7,6); }
 o << bf.size() << "\\n"; for (auto& f : bf) o << f[0] << " " << f[1] << " " << f[2] << " " << f[3] << "\\n"; o.close();
 int bad = 0; for (int t = 0; t < 50; t++) { disk::cartesian_mesh<T,3> m; if (!disk::load_mesh_diskpp_cartesian("m.hex", m)) return 3; if (m.cells_size() != n*n*n || m.backend_storage()->subdomain_info.size() != n*n*n) bad++; } std::cout << "wrong meshes " << bad << std::endl; return bad != 0; }''')
BUGS={k:v for k,v in B.items() if v['demo']}
