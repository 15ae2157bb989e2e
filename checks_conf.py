# One entry per property: the harness units that decide it, and what the
# evidence says about how situations are counted.
import os
STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib", "stubs")
CHECKS = {
 'C01': dict(units=[dict(src='c01.cpp', defs=['PART=2']), dict(src='c01.cpp', defs=['PART=3'])],
   rule='distinct (mesh family, cell shape) and (family, table sizes) combinations'),
 'C02': dict(units=[dict(src='c02.cpp', defs=['PART=2'], libs=['jburkardt','triangle']), dict(src='c02.cpp', defs=['PART=3'], libs=['jburkardt','triangle'])],
   rule='distinct (mesh family, cell shape) combinations'),
 'C03': dict(units=[dict(src='c03.cpp', defs=['PART=2'], libs=['jburkardt','triangle']), dict(src='c03.cpp', defs=['PART=3'], libs=['jburkardt','triangle'])],
   rule='distinct (mesh family, cell shape) and (polygon kind, vertex count) combinations'),
 'C04': dict(units=[dict(src='c04.cpp', defs=['PART=2'], libs=['jburkardt','triangle']), dict(src='c04.cpp', defs=['PART=3'], libs=['jburkardt','triangle'])],
   rule='distinct (mesh kind, cell or face, vertex count, degree) combinations'),
 'C05': dict(units=[dict(src='c05.cpp', libs=['jburkardt','triangle'])],
   rule='distinct (rule, degree) combinations'),
 'C06': dict(units=[dict(src='c06.cpp', defs=['PART=2'], libs=['jburkardt','triangle']), dict(src='c06.cpp', defs=['PART=3'], libs=['jburkardt','triangle'])],
   rule='distinct (mesh kind, cell shape or face, degree) and (harmonic degrees) combinations'),
 'C07': dict(units=[dict(src='c07.cpp', defs=['PART=2'], libs=['jburkardt','triangle']), dict(src='c07.cpp', defs=['PART=3'], libs=['jburkardt','triangle'])],
   rule='distinct (mesh kind, cell shape or face, degree, axes) combinations'),
 'C25': dict(units=[dict(src='c25.cpp', libs=['jburkardt','triangle'])],
   rule='distinct (workload kind, magnitude, program length) combinations'),
 'C24': dict(units=[dict(src='c24.cpp')],
   rule='distinct (precision, number of stages, number of steps, split or not) combinations'),
 'C17': dict(units=[dict(src='c17.cpp', defs=['PART=2'], libs=['jburkardt','triangle']), dict(src='c17.cpp', defs=['PART=3'], libs=['jburkardt','triangle'])],
   rule='distinct (mesh kind, scalar or vector problem, set of declaration kinds in the history) combinations'),
 'C08': dict(units=[dict(src='c08.cpp', defs=['PART=2'], libs=['jburkardt','triangle']), dict(src='c08.cpp', defs=['PART=3'], libs=['jburkardt','triangle'])],
   rule='distinct (mesh kind, cell or face shape, basis degree, function degree) combinations'),
 'C09': dict(units=[dict(src='c09.cpp', defs=['PART=%d'%i], libs=['jburkardt','triangle']) for i in (2,3,4)],
   rule='distinct (mesh kind, cell shape, cell and face degrees, reconstruction degree) combinations'),
 'C10': dict(units=[dict(src='c10.cpp', defs=['PART=2'], libs=['jburkardt','triangle']), dict(src='c10.cpp', defs=['PART=3'], libs=['jburkardt','triangle']), dict(src='c10.cpp', defs=['PART=4'], libs=['jburkardt','triangle'])],
   rule='distinct (mesh kind, cell shape, cell and face degrees, scaling) and (mesh kind, degree per face) combinations'),
 'C11': dict(units=[dict(src='c11.cpp', libs=['jburkardt','triangle'])],
   rule='distinct (mesh kind, interface, number of faces, degrees, symmetric or not, synthetic or genuine system) combinations'),
 'C12': dict(units=[dict(src='c12.cpp', defs=['PART=2'], libs=['jburkardt','triangle']), dict(src='c12.cpp', defs=['PART=5'], libs=['jburkardt','triangle']), dict(src='c12.cpp', defs=['PART=3'], libs=['jburkardt','triangle']), dict(src='c12.cpp', defs=['PART=4'], libs=['jburkardt','triangle'])],
   rule='distinct (mesh kind, number of cells, degrees, boundary mixture, stabilisation) combinations'),
 'C13': dict(units=[dict(src=f, defs=['PART=%d'%i], libs=['jburkardt','triangle']) for f in ('c13.cpp','c13b.cpp') for i in (2,5,3,4)],
   rule='distinct (mesh kind, cell shape, degrees) combinations'),
 'C18': dict(units=[dict(src='c18.cpp', defs=['PART=%d'%i], libs=['jburkardt','triangle']) for i in (2,5,3,4)],
   rule='distinct (mesh kind, constructor or history, number of unknowns), (mesh kind, cell shape, degrees), (mesh kind, cells, degree) and (degree triple) combinations'),
 'C23': dict(units=[dict(src='c23.cpp')],
   rule='distinct (workload kind, dimension, magnitude bucket) and (eigenvalue multiplicity, gap, frame) combinations'),
 'C21': dict(units=[dict(src='c21.cpp', libs=['jburkardt','triangle'])]+[dict(src='c22b.cpp', defs=['PART=%d'%i,'PLASTIC=0'], libs=['jburkardt','triangle']) for i in (2,3)],
   rule='distinct (law, dimension, volumetric energy, deformation kind) combinations'),
 'C22': dict(units=[dict(src='c22.cpp', libs=['jburkardt','triangle'])]+[dict(src='c22b.cpp', defs=['PART=%d'%i,'PLASTIC=1'], libs=['jburkardt','triangle']) for i in (2,3)],
   rule='distinct (law, dimension, path kind, hardening points, kinematic part, plastic steps, elastic steps, reversals) histories'),
 'C20': dict(units=[dict(src='c20.cpp', libs=['jburkardt','triangle'])],
   rule='distinct (precision, mesh kind, number of levels) combinations'),
 'C19': dict(units=[dict(src='c19.cpp', defs=['PART=%d'%i], libs=['common','jburkardt','triangle']) for i in range(2)]+[dict(src='c19g.cpp', libs=['common','jburkardt','triangle','gmsh'])],
   rule='distinct (format, mesh size) combinations and outcomes of damaged files'),
 'C16': dict(units=[dict(src='c16.cpp', libs=['jburkardt','triangle'])],
   rule='distinct (orientation, mesh size, discretisation, block size) combinations'),
 'C14': dict(units=[dict(src='c14.cpp', defs=['PART=%d'%i], libs=['jburkardt','triangle']) for i in (2,3,4)],
   rule='distinct (mesh kind, operator, cell shape, degrees) combinations'),
 'C15': dict(units=[dict(src='c15.cpp', libs=['jburkardt','triangle'])],
   rule='distinct (mesh kind, cell shape, order), (mesh kind, order, size) and (condensation shape) combinations'),
 'C27': dict(units=[dict(src='c27.cpp', defs=['PART=%d'%i], libs=['common','jburkardt','triangle']+(['silo'] if i == 1 else []), cflags=['-I'+STUBS], asan='malloc_fill_byte=0:max_free_fill_size=0' if i == 1 else '') for i in (1,2,3)],
   rule='distinct (mesh kind, variant, size, number of variables) outputs'),
 'C26': dict(units=[dict(src='c26.cpp', defs=['PART=%d'%i], san='tsan', libs=['common','jburkardt','triangle']) for i in (1,2,5,3,4)],
   rule='distinct orders of the starts and ends of the tasks of the threads, pairs of operations seen running at the same time, (job, number of threads) combinations'),
}
NOT_APPLICABLE = {}
