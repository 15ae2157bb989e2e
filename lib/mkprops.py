#!/usr/bin/env python3
# writes /verif/properties.jsonl; the text of the properties lives here
import json, os
D='libdiskpp/include/diskpp/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a=dict(files=[f if f.startswith('libdiskpp') else D+f for f in files], mechanism=[dict(name=n,where=(w if w.startswith('libdiskpp') else D+w)) for n,w in mech])
    if state: a['state']=state
    if observe: a['observe_at']=observe
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))

p('C01','Mesh topology is consistent for every generator and refinement history',
 'In every mesh the library generates, refines or builds for a single element, each face belongs to exactly one or two cells, and it is reported as a domain boundary exactly when it belongs to one. Element tables are sorted and duplicate free, so that looking up any cell or face returns its own index, neighbour queries are symmetric, per-cell face lists and identifiers agree, boundary iterators and counters agree, and the number of points, edges, faces and cells satisfies the Euler relation of a ball. Boundary numbers keep naming the same side of the domain at every refinement level.',
 ['inputs','histories'],'all mesh families (1D, triangles, quads, polygons, tetrahedra, hexahedra, polyhedra), all generators, any number of refinements',
 'The unit tests look at one boundary numbering on two meshers; the tables must agree for every family, size and refinement history.',
 ['mesh/mesh.hpp','mesh/meshgen.hpp','mesh/meshgen_fvca5hex.hpp','loaders/loader_uniform.hpp','geometry/element_generic.hpp','geometry/element_simplicial.hpp','geometry/element_hexahedral.hpp'],
 [('sorted element tables and binary-search lookup','mesh/mesh.hpp'),('simple meshers and their refine()','mesh/meshgen.hpp')])
p('C02','Cell and face measures and normals are geometrically exact',
 'For every admissible cell the measure is the exact area or volume, face measures are exact, normals have unit length, are orthogonal to the face and point out of the cell, and neighbouring cells see opposite normals on a shared face. Hence for every cell the measure-weighted normals sum to zero and the divergence theorem holds, the cell measures of a mesh sum to the measure of the domain, and all these quantities transform as they should under affine maps of the mesh.',
 ['inputs'],'all cell shapes of all families, including non-convex star-shaped polygons, hanging nodes, tilted and rotated polyhedra, and any affine placement and scale',
 'Tests use a handful of unit-domain meshes; sign, scale and orientation errors need rotated, reflected, graded and polytopal cells.',
 ['geometry/geometry_all.hpp','geometry/geometry_generic.hpp','geometry/geometry_simplicial.hpp','geometry/geometry_hexahedral.hpp','geometry/geometry_generic_triangulations.hpp','common/simplicial_formula.hpp'],
 [('measure()','geometry/geometry_generic.hpp'),('normal()','geometry/geometry_all.hpp'),('splitting in simplices','geometry/geometry_generic_triangulations.hpp')])
p('C03','Point-level geometry queries tell the truth',
 'The bounding box of a mesh contains every point and touches it on each side; a point query answers inside exactly for the points of the cell (away from its boundary); barycenters, diameters and bounding-box sizes equal their definitions and are invariant or equivariant under rigid motions; convexity is reported exactly for convex polygons. Triangulating any simple polygon yields non-overlapping triangles that use its vertices and cover exactly its area.',
 ['inputs'],'all cells of all families, random points inside, outside and near cells, arbitrary rigid placements and orientations, simple polygons with any number of vertices',
 'No unit test calls these queries on a cell that is not axis aligned, counterclockwise and convex.',
 ['geometry/geometry_all.hpp','geometry/geometry_generic.hpp','geometry/geometry_simplicial.hpp','mesh/mesh.hpp','contrib/earcut.hpp'],
 [('bounding_box','mesh/mesh.hpp'),('is_inside, barycenter, diameter','geometry/geometry_all.hpp'),('ear clipping','contrib/earcut.hpp')])
p('C04','Element quadrature is exact up to the requested degree',
 'For any cell or face of any supported mesh and any degree the library accepts, the returned weights are finite, sum to the measure of the element, and integrate exactly every polynomial of total degree up to the requested one; on convex elements the points lie in the element. A degree for which no rule exists is refused with an error instead of being answered with a rule of lower order.',
 ['inputs','configurations'],'all cell and face shapes under affine placement, all quadrature degrees from zero to beyond the tables',
 'Tests integrate one function at degree 6 on four unit shapes; the tables and the splitting code must be right for every degree and shape.',
 ['quadratures/quadratures.hpp','quadratures/bits/quad_phys_generic.hpp','quadratures/bits/quad_phys_simplicial.hpp','quadratures/bits/quad_phys_cartesian.hpp','quadratures/quadratures_raw.hpp','geometry/geometry_generic_triangulations.hpp'],
 [('integrate() overloads','quadratures/bits')])
p('C05','Reference quadrature rules reach their nominal order',
 'Every tabulated or computed one-, two- and three-dimensional reference rule, for every degree it is offered for, has the number of points and positive total weight it should and integrates all monomials up to its nominal degree on its reference or physical simplex, segment or tensor cell, including under arbitrary affine placement of the vertices. Out-of-range degrees are refused.',
 ['inputs','configurations'],'every rule family, every offered degree, arbitrary simplices, segments and parallelograms',
 'A single wrong digit in one table shows only at that degree.',
 ['quadratures/quadratures_raw.hpp','quadratures/quad_bones.hpp','quadratures/bits/quad_raw_gauss.hpp','quadratures/bits/quad_raw_gauss_lobatto.hpp','quadratures/bits/quad_raw_triangle.hpp','quadratures/bits/triquad.hpp','quadratures/bits/raw_simplices.hpp','quadratures/bits/quad_raw_tetra.hpp','libdiskpp/contrib/jburkardt/src/triangle_dunavant_rule.cpp','libdiskpp/contrib/jburkardt/src/tetrahedron_arbq_rule.cpp','libdiskpp/contrib/jburkardt/src/simplex_gm_rule.cpp'],
 [('rule tables','quadratures/bits')])
p('C06','Scalar polynomial bases span the right space with exact derivatives',
 'Each scalar basis attached to a cell or face has the dimension of its polynomial space, its functions are linearly independent and reproduce every polynomial of its degree, its gradients (and higher derivatives where offered) are the exact derivatives of its values at every point, orthogonal variants are orthogonal, and harmonic bases are harmonic. Restricting a function of a cell to a face is consistent between the two bases.',
 ['inputs','configurations'],'all mesh families, all degrees, all scalings and placements of the element, arbitrary evaluation points',
 'Unit tests compare with a few stored values at small degree; each derivative coefficient matters separately.',
 ['bases/bases_scalar.hpp','bases/bases_new.hpp','bases/bases_raw.hpp','bases/bases_all.hpp','bases/bases_utils.hpp'],
 [('scaled monomial and Legendre bases','bases/bases_scalar.hpp'),('new-style bases','bases/bases_new.hpp')])
p('C07','Vector and matrix bases have exact differential operators',
 'Vector, matrix, symmetric-matrix, Raviart-Thomas and Nedelec bases have the dimension of their spaces and linearly independent functions; their gradient, symmetric gradient, divergence and curl evaluations equal the derivatives of their values; symmetric bases are symmetric, and the enriched spaces contain the full polynomials of the lower degree and nothing outside the space they name.',
 ['inputs','configurations'],'two- and three-dimensional elements of all families, all degrees, arbitrary evaluation points',
 'No unit test evaluates these bases.',
 ['bases/bases_vector.hpp','bases/bases_matrix.hpp','bases/bases_vector_new.hpp','bases/bases_operations.hpp'],
 [('vector basis operators','bases/bases_vector.hpp'),('matrix bases','bases/bases_matrix.hpp')])
p('C08','L2 projections are projections',
 'Projecting a function on a cell, a face or the hybrid space of a cell returns exactly the function when it belongs to the discrete space, the projection error is orthogonal to the space, and projecting twice changes nothing; mass and stiffness matrices are symmetric and (semi)definite with the kernel they should have, for scalar and vector unknowns alike.',
 ['inputs','configurations'],'all mesh families, degrees and placements, arbitrary polynomials and smooth functions',
 'Tests sample a couple of meshes of the unit square at low degree.',
 ['methods/implementation_hho/methods_hho.hpp','bases/bases_utils.hpp'],
 [('project_function','methods/implementation_hho/methods_hho.hpp'),('mass and stiffness matrices','bases/bases_utils.hpp')])
p('C09','HHO scalar reconstructions are exact on polynomials',
 'For every element, every admissible pair of cell and face degrees, and every constant symmetric positive definite diffusion tensor, the local gradient and potential reconstructions applied to the hybrid interpolate of a polynomial of the reconstruction degree return that polynomial (or its gradient) exactly; the consistency matrix is symmetric, positive semidefinite and annihilates the hybrid constants.',
 ['inputs','configurations'],'all cell shapes of all families, equal- and mixed-order degrees, all placements, arbitrary polynomials and hybrid vectors',
 'Unit tests run a convergence order on one mesh sequence; algebraic exactness must hold per cell.',
 ['methods/implementation_hho/methods_hho.hpp','methods/implementation_hho/scalar_hho_laplacian.hpp'],
 [('scalar reconstruction operators','methods/implementation_hho/scalar_hho_laplacian.hpp')])
p('C10','HHO scalar stabilisations are consistent and stabilise',
 'Every scalar stabilisation is symmetric, positive semidefinite, vanishes on hybrid interpolates of polynomials of the degree it promises, and together with the consistency term vanishes on nothing but constants, so that the local problem is well posed; it scales with the element size as stated.',
 ['inputs','configurations'],'all cell shapes, equal- and mixed-order degrees, all placements and scales, arbitrary hybrid vectors',
 'A stabilisation that is too weak or inconsistent still converges on the smooth samples a test tries.',
 ['methods/implementation_hho/scalar_stabilization.hpp','methods/hho_slapl.hpp'],
 [('scalar stabilisation operators','methods/implementation_hho/scalar_stabilization.hpp')])
p('C11','Static condensation does not change the solution',
 'For any local system whose cell block is symmetric positive definite, with symmetric or non-symmetric couplings and face block, condensing the cell unknowns and solving on the faces, then recovering the cell unknowns, gives the solution of the uncondensed system, for scalar and vector unknowns and every split of the unknowns; condensed matrices of symmetric positive definite systems stay so.',
 ['inputs'],'arbitrary local matrices and loads, all cell and face degree pairs, all shapes',
 'The tests never compare the condensed with the full solution.',
 ['methods/implementation_hho/scalar_hho_condensation.hpp','methods/implementation_hho/vector_hho_condensation.hpp','methods/implementation_vem/methods_vem_2d.hpp'],
 [('make_scalar_static_condensation and its decondensation','methods/implementation_hho')])
p('C12','Assembled diffusion solves reproduce polynomial solutions',
 'Assembling the local contributions of any mesh with any mixture of Dirichlet, Neumann and Robin boundaries (Robin: the flux plus the solution is given) scatters every contribution exactly once to the unknowns it belongs to, eliminates exactly the Dirichlet faces with the projected boundary data, and the solve returns the projection of the exact polynomial whenever the solution is a polynomial of the reconstruction degree; the condensed and the uncondensed systems have the same discrete solution and the face numbering is a bijection.',
 ['inputs','configurations'],'all mesh families, degrees, boundary mixtures and renumberings',
 'Unit tests use homogeneous or full Dirichlet data on the unit box.',
 ['methods/hho_assemblers.hpp','methods/implementation_hho/assembler_hho.hpp'],
 [('assemblers','methods/implementation_hho')])
p('C13','Vector and elasticity HHO operators are exact and objective',
 'The vector gradient, symmetric-gradient and divergence reconstructions return the exact operator of any polynomial displacement of their degree, rigid motions produce no strain and no stabilisation, the vector stabilisations are symmetric positive semidefinite and consistent, and the assembled linear elasticity problem with mixed displacement and traction boundaries reproduces polynomial displacements.',
 ['inputs','configurations'],'two- and three-dimensional meshes of all families, all degrees, boundary mixtures',
 'No unit test covers the vector operators.',
 ['methods/implementation_hho/vector_hho_gradrec.hpp','methods/implementation_hho/vector_hho_laplacian.hpp','methods/implementation_hho/matrix_hho_gradrec.hpp','methods/implementation_hho/vector_stabilization.hpp','methods/implementation_hho/scalar_hho_divrec.hpp'],
 [('vector reconstructions','methods/implementation_hho/vector_hho_gradrec.hpp')])
p('C14','Curl reconstructions for Maxwell are exact',
 'The curl reconstruction of the hybrid interpolate of a polynomial field returns its exact curl, gradients are in its kernel, the tangential projections used on faces are orthogonal to the normal and reproduce tangential polynomials, and the curl stabilisations are symmetric (Hermitian), positive semidefinite and consistent; interpolating a field on cells and faces integrates each over its own element.',
 ['inputs','configurations'],'two- and three-dimensional cells of all families, equal and mixed degrees, real and complex coefficients',
 'No unit test covers the curl operators.',
 ['methods/implementation_hho/curl.hpp'],
 [('curl reconstruction and stabilisation','methods/implementation_hho/curl.hpp')])
p('C15','Virtual elements are consistent on every polygon',
 'On every polygon the computable projections of the virtual element method reproduce polynomials of the method degree, the consistency part of the stiffness matrix equals the exact energy on polynomials, the stabilisation vanishes on them, constants are the only kernel, degrees of freedom are numbered without gaps or clashes between neighbours, and the assembled problem reproduces polynomial solutions.',
 ['inputs','configurations'],'convex and star-shaped polygons with any number of vertices, hanging nodes, all orders',
 'Tests exercise no VEM code.',
 ['methods/vem','methods/implementation_vem/methods_vem_2d.hpp'],
 [('VEM 2D local matrices','methods/implementation_vem')])
p('C16','Discrete geometric, nodal and DG discretisations keep their identities',
 'On every tetrahedral mesh the discrete curl of a discrete gradient vanishes, dual and primal geometric elements pair to the cell volumes, and material matrices are symmetric positive definite and exact on constant fields; nodal finite elements reproduce affine functions, and the discontinuous assembler scatters every block exactly where it belongs.',
 ['inputs'],'arbitrary admissible tetrahedral and triangular meshes and material parameters',
 'Tests check one reference tetrahedron.',
 ['methods/implementation_dga/methods_dga.hpp','cfem/cfem.hpp','methods/implementation_dg/assembler.hpp'],
 [('edge and face matrices','methods/implementation_dga'),('stiffness matrix','cfem/cfem.hpp')])
p('C17','Boundary-condition bookkeeping is exact',
 'After any sequence of boundary-condition declarations each boundary face carries the conditions declared for it and no other, asking for one kind of condition never answers with another kind, counters equal the number of faces so marked, functions returned are the declared ones with the declared scaling, declaring a second condition of the same unknowns on a boundary replaces the first or is refused, and asking for the function or the boundary number of a condition that was not declared is refused.',
 ['histories','inputs'],'arbitrary sequences of scalar and vector boundary declarations by boundary number, on any mesh',
 'Tests only declare one condition per run.',
 ['boundary_conditions/boundary_conditions.hpp'],
 [('BoundaryConditions','boundary_conditions/boundary_conditions.hpp')])
p('C18','Variable-degree bookkeeping matches the discrete spaces',
 'For any assignment of cell, face and reconstruction degrees to the elements of a mesh, offsets are contiguous and ordered, counts equal the sum of the local space dimensions, inadmissible degree triples are refused or repaired as documented, and the variable-degree operators equal the uniform-degree ones when all degrees are equal.',
 ['inputs','configurations'],'all degree assignments on all meshes',
 'Tests never vary the degree inside a mesh.',
 ['adaptivity/adaptivity.hpp'],
 [('MeshDegreeInfo','adaptivity/adaptivity.hpp')])
p('C19','Mesh loaders return the mesh the file describes or fail cleanly',
 'Loading a well-formed file of any supported format yields exactly the points, cells, faces, boundary marks and regions it describes, independent of the numbering used in the file. A missing, truncated or malformed file is refused without touching memory it does not own, without looping and without delivering a partial mesh as a success.',
 ['inputs','fault_sequences'],'all text formats (netgen, medit, FVCA5, FVCA6, poly, cartesian), any mesh, any truncation point, random corruptions, missing and empty files',
 'The test suite reads no mesh file; memory errors on hostile files need sanitizers.',
 ['loaders/loader.hpp','loaders/loader_netgen.hpp','loaders/loader_medit.hpp','loaders/loader_fvca5.hpp','loaders/loader_fvca6.hpp','loaders/loader_poly.hpp','loaders/loader_cartesian.hpp','loaders/loader_utils.hpp','loaders/strtot.hpp','libdiskpp/src/common/mapped_file.cpp'],
 [('format readers','loaders'),('memory-mapped input','libdiskpp/src/common/mapped_file.cpp')])
p('C20','Mesh hierarchies nest',
 'In a hierarchy of refined meshes every level is a valid conforming mesh, every fine cell lies in the coarse cell it is attributed to, every coarse cell is exactly tiled by its descendants, locating any point of the domain returns the cell that contains it on every level, and boundary numbers are inherited.',
 ['histories','inputs'],'any starting mesh and number of levels, arbitrary query points',
 'No unit test uses the hierarchy.',
 ['mesh/mesh_hierarchy.hpp'],
 [('mesh_hierarchy','mesh/mesh_hierarchy.hpp')])
p('C21','Elastic laws derive from their energies with consistent tangents',
 'For every elastic and hyperelastic law the stress is the derivative of the stored energy, the tangent is the derivative of the stress (in the strain measure of the law), stresses vanish in the reference state wherever the documented energy is stress free there, rotating the body rotates the response, and tangents of hyperelastic laws have the major symmetry; two-dimensional plane-strain answers equal the three-dimensional ones restricted. The container of laws on a mesh answers, point by point, exactly what a stand-alone law with the same history answers. (The Hencky-Mises law documents the elastic moduli as its tangent; its stress is only required to be the documented secant form.)',
 ['inputs','configurations'],'arbitrary admissible deformations with positive Jacobian, all material parameters and volumetric-energy choices',
 'The unit test checks a stored number per law at one strain.',
 ['mechanics/behaviors/laws'],
 [('behaviour laws','mechanics/behaviors/laws')])
p('C22','Plastic laws satisfy their yield, flow and history rules',
 'Along any strain history the stress of a plastic law stays inside or on its yield surface, plastic flow is isochoric and follows the surface normal, accumulated plastic strain and dissipation never decrease, elastic unloading is linear, the algorithmic tangent is the derivative of the stress update, recomputing a step from the same committed state gives the same answer, and only an explicit commit moves the history, at every quadrature point of a mesh independently of the others.',
 ['histories','configurations'],'arbitrary strain paths including loading, unloading, reversal and rollbacks, all hardening parameters',
 'The unit test takes one step.',
 ['mechanics/behaviors/laws','mechanics/behaviors/laws/law_qp_bones.hpp'],
 [('return mapping','mechanics/behaviors/laws')])
p('C23','Tensor algebra, strain measures and conversions are faithful',
 'Voigt-type and MGIS-type conversions round trip and agree with index definitions, fourth-order products contract the indices they name, deformation measures satisfy their defining identities and frame invariance, stress measures transform into one another consistently with power conjugacy, and logarithmic strain with its derivatives equals the derivative of the matrix logarithm also for repeated eigenvalues.',
 ['inputs'],'arbitrary second- and fourth-order tensors, arbitrary admissible deformation gradients including equal and nearly equal stretches',
 'Index errors show on non-symmetric or special inputs only.',
 ['mechanics/behaviors/tensor_conversion.hpp','mechanics/behaviors/maths_tensor.hpp','mechanics/behaviors/maths_utils.hpp','mechanics/behaviors/maths_jacobian_derivate.hpp','mechanics/behaviors/logarithmic_strain','mechanics/deformation_tensors.hpp','mechanics/stress_tensors.hpp'],
 [('conversions','mechanics/behaviors/tensor_conversion.hpp'),('logarithmic strain','mechanics/behaviors/logarithmic_strain')])
p('C24','Time stepping covers the interval exactly',
 'The list of time steps built from any schedule covers the requested interval without gaps or overlaps, ends exactly at the requested time, keeps every user time, halving a step replaces it by two that tile it, and no step is lost or repeated across any sequence of accept and split.',
 ['histories','inputs'],'arbitrary time schedules, numbers of subdivisions and accept/split histories',
 'Rounding drops a step only for some schedules.',
 ['mechanics/NewtonSolver/TimeManager.hpp'],
 [('ListOfTimeStep','mechanics/NewtonSolver/TimeManager.hpp')])
p('C25','Rational arithmetic is exact',
 'Every arithmetic operation, comparison, conversion and compound assignment on rationals, including mixed operations with integers, equals the exact rational result in lowest terms with a positive denominator, as long as the exact result and the cross products of the operands it is computed from are representable; a zero denominator is refused (by an assertion).',
 ['inputs'],'all representable operands and operation sequences',
 'Tests never instantiate the class.',
 ['mesh/rational.hpp'],
 [('rational','mesh/rational.hpp')])
p('C26','Concurrent use is race free and deterministic',
 'Loading meshes with the internal worker threads and querying one constant mesh, building local operators and integrating from many threads at the same time is free of data races and gives bitwise the results of a sequential run.',
 ['schedules'],'arbitrary interleavings of loader threads and of concurrent readers',
 'Tests are single threaded; races need a race detector and varied schedules.',
 ['loaders/loader_netgen.hpp','loaders/loader_cartesian.hpp','mesh/mesh.hpp','methods/implementation_hho','quadratures','libdiskpp/contrib/triangle/triangle_mesher.c'],
 [('THREAD/WAIT_THREAD in the loaders','loaders/loader_utils.hpp'),('global data of the triangulator','libdiskpp/contrib/triangle/triangle_mesher.c')])
p('C27','Written output describes the data given',
 'A mesh and its fields written to the visualisation and interchange formats (silo, gmsh post-processing meshes, netgen dumps, HDF5, matlab) and read back have the same coordinates, zones, connectivity, outward orientation, variables and values, for every mesh family and any number of variables; a write that fails is reported instead of being ignored, and file handles are neither leaked nor closed twice.',
 ['inputs','fault_sequences'],'all mesh families, nodal and zonal variables, failures at any write',
 'No test reads an output back.',
 ['output/silo.hpp','output/gmshDisk.hpp','output/postMesh.hpp','output/gmshConvertMesh.hpp','output/hdf5_io.hpp','mesh/mesh_hierarchy.hpp'],
 [('silo writer','output/silo.hpp'),('conversion to gmsh meshes','output/gmshConvertMesh.hpp'),('HDF5 wrapper','output/hdf5_io.hpp')])
for x in P:
    for f in x['anchors']['files']+[m['where'] for m in x['anchors']['mechanism']]:
        assert os.path.exists('/repo/'+f) or not os.path.isdir('/repo'),(x['id'],f)
    assert len(x['title'])<=80,(x['id'],len(x['title']))
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
open(out,'w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
