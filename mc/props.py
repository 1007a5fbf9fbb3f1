"""The properties: one table from which properties.jsonl and MANIFEST.json are written.
    /opt/venv/bin/python mc/props.py
A property whose check module checks/<id>.py exists is claimed."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
M = 'panels/models/'
L = 'panels/core/src/'

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, level, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, level=level, note=note, state=state))


ENUM = 'exhaustive enumeration of a bounded input space on the real code, against an independent reference model'
SEQ = 'explicit-state search over operation sequences on the real objects, differential oracle (fresh object replay)'

prop('C01', 'The approximation functions are the Bardell functions',
     'For every term number from 0 to 29, every point of the interval and every combination of edge-restraint factors, the approximation functions and their first and second derivatives equal the hierarchical cubic-Hermite/Legendre (Bardell) definition. '
     'The function evaluated one term at a time and the function evaluated for all terms at once agree, and only the first four terms are scaled by the edge-restraint factors, each by its own.',
     ['inputs'], 'all terms x derivatives x restraint factors x points',
     'The tests never evaluate the approximation functions; a wrong coefficient in term 23 or in one derivative only shows with many terms and one combination of restraints.',
     ['panels/bardell.pyx', L + 'bardell_functions.cpp'],
     [{'name': 'calc_f, calc_fp, calc_fpp, calc_vec_*', 'where': L + 'bardell_functions.cpp'}],
     ['panels.bardell functions'], ENUM, 'exploration',
     '41 abscissae determine polynomials of degree <= 29 and the dependence on each restraint factor is linear, so the enumerated product decides the functions on the whole interval for all factors')

prop('C02', 'Closed-form products of approximation functions equal their integrals',
     'For every pair of terms up to 30 and every pair of edge-restraint factor sets, the closed-form integrals over the whole interval of products of approximation functions and derivatives (all six kinds provided) equal the exact integral of the product.',
     ['inputs'], 'all pairs of terms x six integral kinds x restraint factors of both functions',
     'There are 5400 closed-form expressions; the tests only touch the low terms indirectly through eigenvalues compared to 3 digits.',
     ['panels/bardell.pyx', L + 'bardell.cpp'], [{'name': 'integral_ff, integral_ffp, ...', 'where': L + 'bardell.cpp'}],
     ['panels.bardell.calc_integral_*'], ENUM, 'exploration',
     'every one of the 6x30x30 pairs, bilinear in the restraint factors so unit factors span; oracle is 48-point Gauss integration (numpy) of the definition')

prop('C03', 'Gauss-Legendre rules are exact for every number of points',
     'For every requested number of integration points the rule has that many increasing, symmetric points inside the interval with positive weights, and integrates exactly every polynomial of degree up to twice the number of points minus one.',
     ['inputs'], 'all numbers of points from 1 to 100 (thorough: 300)',
     'Tests use a handful of point numbers; a wrong digit in one table of abscissae gives plausible matrices.',
     ['panels/legendre_gauss_quadrature.pyx', L + 'legendre_gauss_quadrature.cpp'],
     [{'name': 'leggauss_quad', 'where': L + 'legendre_gauss_quadrature.cpp'}],
     ['panels.legendre_gauss_quadrature.get_points_weights'], ENUM, 'exploration',
     'all moments up to degree 2n-1 for each n: a basis of the polynomials that must be exact')

prop('C04', 'The linear stiffness matrix is the second variation of the strain energy',
     'For every plate and cylindrical shell, laminate, edge restraints, dimensions and number of terms, the linear constitutive stiffness matrix is symmetric and equals the second variation of the Donnell strain energy of the laminate. '
     'It is placed at the requested rows and columns of the requested size without touching the rest, and forcing an orthotropic laminate is the same as using that laminate.',
     ['inputs', 'configurations'], 'all laminates (18 stiffness terms) x 24 restraint factors x dimensions x radii x numbers of terms x placements',
     'Tests compare a few eigenvalues of one or two laminates with common restraints; entries for coupled laminates (B16, D26) or unusual restraints are never compared.',
     ['panels/shell.py', M + 'plate_clpt_donnell_bardell.pyx', M + 'cylshell_clpt_donnell_bardell.pyx'],
     [{'name': 'fk0 (Cython)', 'where': M}, {'name': 'Shell.calc_kC', 'where': 'panels/shell.py'}], ['Shell.calc_kC'], ENUM, 'exploration',
     'entries are linear in the 18 laminate stiffness terms, bilinear in restraint factors and Laurent polynomials in a, b, 1/r of small degree; the enumerated laminates span the 18 dimensions and all entries are compared')

prop('C05', 'The geometric stiffness matrix is the work of the membrane stress state',
     'For every plate and cylindrical shell, edge restraints, dimensions, number of terms and uniform membrane stress state, the geometric stiffness matrix is the second variation of the work of the stress on the quadratic rotation terms. '
     'A constant stress state given separately enters the linear stiffness the same way, and a given displacement state adds its own linear stresses.',
     ['inputs', 'configurations'], 'all stress states x restraints x dimensions x numbers of terms x placements',
     'Tests use uniaxial or shear states one at a time on simply supported plates.',
     ['panels/shell.py', M + 'plate_clpt_donnell_bardell.pyx', M + 'cylshell_clpt_donnell_bardell.pyx', M + 'plate_clpt_donnell_bardell_num.pyx', M + 'cylshell_clpt_donnell_bardell_num.pyx'],
     [{'name': 'fkG0, fkG_num', 'where': M}, {'name': 'Shell.calc_kG', 'where': 'panels/shell.py'}], ['Shell.calc_kG', 'Shell.calc_kC with Nxx_cte...'], ENUM, 'exploration',
     'linear in the three stress components, which are enumerated as units and mixtures; all entries compared')

prop('C06', 'The mass matrix is the second variation of the kinetic energy',
     'For every plate and cylindrical shell, edge restraints, dimensions and number of terms, the mass matrix is symmetric, positive semi-definite and equals the second variation of the kinetic energy with translational and rotary inertia, for the laminate thickness, offset of the reference surface and densities (one, one per ply, or one per integration point). ',
     ['inputs', 'configurations'], 'all densities, thicknesses, offsets x restraints x dimensions x numbers of terms x placements',
     'Tests compare a few frequencies of thin plates without offset, in which the offset and rotary terms do not show.',
     ['panels/shell.py', M + 'plate_clpt_donnell_bardell.pyx', M + 'plate_clpt_donnell_bardell_num.pyx', M + 'cylshell_clpt_donnell_bardell.pyx'],
     [{'name': 'fkM, fkM_num', 'where': M}, {'name': 'Shell.calc_kM', 'where': 'panels/shell.py'}], ['Shell.calc_kM'], ENUM, 'exploration',
     'all entries; the matrix is linear in the three inertia moments, which the enumerated laminates span')

prop('C07', 'Point-wise laminates and parts of the domain integrate the same energy',
     'Giving the laminate stiffness, thickness or density at each integration point yields the energy integral with that point-wise field, so that uniform point values reproduce the uniform result. '
     'Restricting the domain to a rectangle integrates over that rectangle only, and the matrices of any partition of the domain into rectangles add up to the matrices of the whole.',
     ['inputs', 'configurations'], 'all unit stiffness terms x point fields x numbers of points x sub-rectangles and partitions',
     'One test uses a variable laminate, none a part of the domain; swapped points in x and y show only with unequal numbers of points and non-uniform fields.',
     ['panels/shell.py', M + 'plate_clpt_donnell_bardell_num.pyx', M + 'cylshell_clpt_donnell_bardell_num.pyx'],
     [{'name': 'fkC_num, fkM_num, fkG_num', 'where': M}], ['Shell.calc_kC(ABDnxny=...)', 'Shell.calc_kM(h_nxny=, rho_nxny=)', 'Shell.x1..y2'], ENUM, 'exploration',
     'every integration point individually and all 18 stiffness terms; all rectangles and partitions of a grid')

prop('C08', 'Internal forces are the energy gradient, tangent stiffness their Jacobian',
     'For every displacement state of every plate and cylindrical shell, the internal force vector is the gradient of the geometrically non-linear strain energy, and reduces to the linear stiffness times the displacements for small displacements. '
     'The tangent stiffness (constitutive at the displaced state plus geometric) is the Jacobian of the internal forces.',
     ['inputs', 'configurations'], 'all displacement states (every monomial of the quartic energy) x laminates x restraints x dimensions',
     'Non-linear tests follow one load path; an error in one coupling term only slows Newton iterations or shifts a deflection by a percent.',
     ['panels/shell.py', M + 'plate_clpt_donnell_bardell_num.pyx', M + 'cylshell_clpt_donnell_bardell_num.pyx'],
     [{'name': 'calc_fint, fkC_num, fkG_num with NLgeom', 'where': M}], ['Shell.calc_fint', 'Shell.calc_kC(c, NLgeom=True)', 'Shell.calc_kG(c, NLgeom=True)', 'Shell.calc_kT'], ENUM, 'exploration',
     'every pair of degrees of freedom excited at 2 amplitudes, all 18 stiffness terms; the doubled non-linear membrane shear strain of the current code is a listed known finding, everything else is compared exactly')

prop('C09', 'Displacement, strain and stress fields equal their definition at any point',
     'For every set of Ritz constants and every set of requested points of any shape, the displacements, rotations, strains and stress resultants returned are those of the displacement series, of the Donnell kinematics (linear, or with the quadratic rotation terms when asked) and of the laminate, point by point and in the shape of the request.',
     ['inputs', 'configurations'], 'all Ritz constants (all single and pairs of degrees of freedom) x points x restraints x numbers of terms',
     'Tests look at a maximum deflection; fields of other components, at edges, for term numbers m != n, and for cylinders are never compared.',
     ['panels/shell.py', M + 'clpt_bardell_field.pyx'], [{'name': 'fuvw, fstrain', 'where': M + 'clpt_bardell_field.pyx'}],
     ['Shell.uvw', 'Shell.strain', 'Shell.stress'], ENUM, 'exploration',
     'fields are linear (strain: quadratic) in the constants, so singles and pairs span; every component at every point; doubled non-linear shear strain is a listed known finding')

prop('C10', 'The external force vector is the virtual work of all added loads',
     'For every sequence of added point loads, distributed line loads (constant or incremented with the load factor) and prescribed displacements (through their penalty), the external force vector is the gradient of their virtual work, with the load factor applied to incremented loads only. '
     'It is placed at the requested position of the requested size, and linear in the load factor and in each load.',
     ['inputs', 'histories', 'configurations'], 'all load kinds x components x positions x load functions x load factors x sequences of up to three loads',
     'Tests add one or two loads of the most common kind, at one position.',
     ['panels/shell.py', 'panels/shell_fext.py'], [{'name': 'shell_fext', 'where': 'panels/shell_fext.py'}], ['Shell.add_point_load', 'Shell.add_distr_load_fixed_x', 'Shell.add_distr_load_fixed_y', 'Shell.add_point_pd', 'Shell.add_distr_pd_fixed_x', 'Shell.add_distr_pd_fixed_y', 'Shell.calc_fext'], ENUM, 'exploration',
     'single loads of every kind/component/edge position, load functions spanning polynomials up to the exactly integrated degree, all sequences up to length three over a menu of loads')

prop('C11', 'Penalty stiffness of prescribed displacements equals its energy',
     'For every plate or shell and every prescribed point or line, the penalty stiffness matrices for prescribed displacements equal the second variation of one half of the penalty times the squared displacement at the point (or integrated over the line), each penalty acting on its own displacement component and on no other. '
     'The point-constraint stiffness does the same, and the penalty constants provided for them depend only on the laminate and dimensions as documented.',
     ['inputs', 'configurations'], 'all penalties per component x positions x restraints x dimensions x numbers of terms x placements',
     'No test compares the penalty matrices; a penalty acting on the wrong component still gives a stiff structure.',
     ['panels/shell.py', 'panels/multidomain/connections/kCpd.pyx', 'panels/multidomain/connections/penalties.py'],
     [{'name': 'fkCpd, fkCld_xcte, fkCld_ycte', 'where': 'panels/multidomain/connections/kCpd.pyx'}], ['connections.kCpd', 'connections.penalties', 'Shell.calc_stiffness_point_constraint'], ENUM, 'exploration',
     'linear in the three penalties; all positions of a grid including edges and corners')

prop('C12', 'A connection stiffness is the energy of the displacement mismatch',
     'For every pair of panels and every kind of connection (along lines of constant x or y in the same plane or at a right angle, over a common surface), the connection matrix is the second variation of the penalty energy of the mismatch of displacements and rotations: symmetric, positive semi-definite, and zero exactly for displacement states that are compatible across the connection. '
     'The two panels may have different numbers of terms, restraints and dimensions and any order, and the penalty constants follow from both laminates.',
     ['inputs', 'configurations'], 'all connection kinds x panel pairs x positions x restraints x numbers of terms',
     'Tests use one assembly per kind with equal panels, where exchanging the roles of the two panels cannot be seen.',
     ['panels/multidomain/multidomain.py', 'panels/multidomain/connections/'],
     [{'name': 'fkC**11, fkC**12, fkC**22', 'where': 'panels/multidomain/connections/kC*.pyx'}, {'name': 'get_kC_conn', 'where': 'panels/multidomain/multidomain.py'}, {'name': 'calc_kt_kr', 'where': 'panels/multidomain/connections/penalties.py'}],
     ['MultiDomain.get_kC_conn', 'connections.calc_kt_kr'], ENUM, 'exploration',
     'all entries of the three blocks of each kind with every restraint factor distinct, unequal term numbers and all positions of a grid')

prop('C13', 'A multi-domain assembly is the sum of its panels and connections',
     'Stiffness, geometric stiffness, mass, tangent, internal and external force of an assembly are the sum of those of every panel, placed at the panel\'s own degrees of freedom, and of the connections; no panel is omitted, counted twice or moved. '
     'Reordering the panels only permutes the degrees of freedom, and the fields of the assembly are those of each panel with its own part of the solution.',
     ['configurations', 'inputs'], 'all assemblies of up to four panels (different sizes, models and groups) x orders x connection sets x matrices; subsets of load kinds and of optional attributes on each of two panels',
     'Tests use fixed assemblies of equal panels and compare a single eigenvalue.',
     ['panels/multidomain/multidomain.py'], [{'name': 'MultiDomain', 'where': 'panels/multidomain/multidomain.py'}],
     ['MultiDomain.calc_kC', 'calc_kG', 'calc_kM', 'calc_kT', 'calc_fint', 'calc_fext', 'uvw, strain, stress', 'get_size'], ENUM, 'exploration',
     'all orders and all subsets of a menu of panels and connections against independently placed blocks')

prop('C14', 'The results of a shell do not depend on its history',
     'After any sequence of attribute changes, loads and calculations, every result of a shell (matrices, forces, fields, sizes) equals that of a fresh shell with the same current definition; no earlier calculation, or earlier value of an attribute, leaves a trace. '
     'Calculations do not change the definition of the shell, nor arrays or lists given by or returned to the user.',
     ['histories'], 'all sequences of attribute changes, loads and calculations up to the bound',
     'A test makes one sequence; stale cached laminates, sizes, offsets and matrices show only for particular orders of calls.',
     ['panels/shell.py'], [{'name': 'Shell._rebuild and cached attributes', 'where': 'panels/shell.py'}],
     ['all Shell.calc_*, Shell.uvw/strain/stress'], SEQ, 'model_checking',
     'breadth-first search over operation sequences to the fixpoint of a canonical internal state (bounded depth), each reached state compared with a fresh object',
     state=[{'name': 'cached laminate, plyts, matrices, sizes', 'meaning': 'derived data kept between calls', 'where': 'panels/shell.py'}])

prop('C15', 'The results of an assembly do not depend on its history',
     'After any sequence of changes to panels, connections and loads and of calculations, every result of a multi-domain assembly equals that of a fresh assembly with the same current definition. '
     'Connections given by the user, to the assembly or to one call, are not modified, and their stiffness follows the connection list in use (the last one given) and the current panels.',
     ['histories'], 'all sequences of panel, connection and load changes and calculations up to the bound',
     'Tests build an assembly and use it once.',
     ['panels/multidomain/multidomain.py'], [{'name': 'MultiDomain cached kC_conn, size, results', 'where': 'panels/multidomain/multidomain.py'}],
     ['MultiDomain.*'], SEQ, 'model_checking',
     'breadth-first search over operation sequences to bounded depth, each reached state compared with a fresh assembly',
     state=[{'name': 'cached connection matrices and sizes', 'meaning': 'derived data kept between calls', 'where': 'panels/multidomain/multidomain.py'}])

prop('C16', 'Aerodynamic matrices are the work of the piston-theory pressure',
     'For every plate and cylindrical shell, the aerodynamic stiffness matrix is that of the piston-theory pressure (slope term for flow along either direction, and the curvature term) and the aerodynamic damping matrix that of its velocity term, with coefficients given directly or derived from the Mach number, density and speed as documented; the direction of flow exchanges the roles of the two in-plane coordinates.',
     ['inputs', 'configurations'], 'flows x coefficients x restraints x dimensions x numbers of terms x placements',
     'One flutter test compares one critical value of one plate.',
     ['panels/shell.py', M + 'plate_clpt_donnell_bardell.pyx', M + 'cylshell_clpt_donnell_bardell.pyx', M + 'plate_clpt_donnell_bardell_num.pyx'],
     [{'name': 'fkAx, fkAy, fcA', 'where': M}, {'name': 'Shell.calc_kA, calc_cA', 'where': 'panels/shell.py'}], ['Shell.calc_kA', 'Shell.calc_cA'], ENUM, 'exploration',
     'all entries, unit coefficients (linear), every Mach-derived combination of a grid')

prop('C17', 'A stiffened bay is the sum of its skin panels and stiffeners',
     'Stiffness, geometric stiffness, mass, aerodynamic and external force of a stiffened panel bay are the sum of those of its skin panels over their strips, of the stiffener bases, and of the stiffener flanges (as a beam, or as a panel connected along the line of the stiffener), each with its own laminate, position and degrees of freedom. '
     'The order in which stiffeners are added only permutes the degrees of freedom, and displacement fields of the skin and of any stiffener use its own part of the solution.',
     ['configurations', 'inputs'], 'all bays with up to two skin strips beyond the first and up to two stiffeners of both kinds, orders, laminates, positions',
     'Tests use one symmetric stiffener in the middle and compare one eigenvalue.',
     ['panels/stiffpanelbay/stiffpanelbay.py', 'panels/stiffener/bladestiff1d.py', 'panels/stiffener/bladestiff2d.py', 'panels/stiffener/models/'],
     [{'name': 'StiffPanelBay', 'where': 'panels/stiffpanelbay/stiffpanelbay.py'}, {'name': 'BladeStiff1D, BladeStiff2D', 'where': 'panels/stiffener/'}],
     ['StiffPanelBay.calc_kC', 'calc_kG', 'calc_kM', 'calc_kA', 'calc_fext', 'uvw_skin', 'uvw_stiffener'], ENUM, 'exploration',
     'all bays of a menu against independently integrated energies')

prop('C18', 'Saving and loading preserves the object in every reachable state',
     'An object saved in any state reached by any sequence of operations loads with the same definition and gives the same results. '
     'If saving fails at any point, an existing file of the same name is left readable with its former content.',
     ['histories', 'fault_sequences', 'crash_points'], 'all operation sequences up to the bound followed by save and load; all failures of the write',
     'Only a never-used object is saved in tests, if at all; failure of the write is not tested.',
     ['panels/shell.py', 'panels/stiffpanelbay/stiffpanelbay.py'],
     [{'name': 'save, load', 'where': 'panels/shell.py, panels/stiffpanelbay/stiffpanelbay.py'}], ['Shell.save', 'panels.shell.load', 'StiffPanelBay.save', 'panels.stiffpanelbay.stiffpanelbay.load'], SEQ + '; enumeration of write failures', 'model_checking',
     'every state reached by operation sequences to bounded depth; every injected failure point of the write')

prop('C19', 'The ready-made assemblies are what their parameters describe',
     'For every parameter set, the ready-made assemblies (closed cylinders, blade-stiffened cylinders, T-stiffened panels) consist of the described panels: dimensions add up to the described structure, each panel carries its own part of the load, laminate and restraints, neighbouring panels are connected along their common edge including the closing one; and the results returned are those of that structure.',
     ['configurations', 'inputs'], 'numbers of panels x loads x laminates x parameters of every builder',
     'Each builder is called by one test with one parameter set.',
     ['panels/multidomain/cylinder.py', 'panels/multidomain/cylinder_blade_stiffened.py', 'panels/multidomain/tstiff2d_1stiff_compression.py', 'panels/multidomain/tstiff2d_1stiff_freq.py', 'panels/multidomain/tstiff2d_1stiff_flutter.py'],
     [{'name': 'create_cylinder, ...', 'where': 'panels/multidomain/'}], ['the assembly and results they return'], ENUM, 'exploration',
     'all parameter sets of a grid and every subset of the optional arguments; structural invariants of the returned assembly and matrices against independent assembly')

prop('C20', 'Adding terms to the series only adds rows and columns',
     'For every plate and cylindrical shell the matrices and force vectors of a smaller number of terms are the corresponding part of those with more terms, so that the energy space is nested. '
     'Consequently the natural frequencies and the linear stiffness of the structure never increase when terms are added, and rigid-body motion costs no strain energy where no edge is restrained.',
     ['inputs', 'configurations'], 'all pairs of numbers of terms up to the bound x laminates x restraints',
     'Convergence is observed in tests for two sizes at most.',
     ['panels/shell.py', M], [{'name': 'hierarchical functions, degree-of-freedom numbering', 'where': M}], ['Shell.calc_kC', 'calc_kG', 'calc_kM', 'calc_kA', 'calc_fint', 'calc_fext'], ENUM, 'exploration',
     'all (m, n) up to the bound against the largest, no reference model involved')

prop('C21', 'Field results do not depend on the number of threads or their schedule',
     'Displacement, strain and stress fields are the same for every requested number of cores, every number of points (fewer, equal or more than the cores, divisible or not) and every schedule of the worker threads.',
     ['schedules', 'inputs'], 'all numbers of cores and points up to the bound, all thread orders and interleavings up to a preemption bound',
     'Tests run with the default number of cores and large grids, under whatever schedule the machine produces.',
     [M + 'clpt_bardell_field.pyx', 'panels/shell.py'], [{'name': 'parallel loop over chunks of points', 'where': M + 'clpt_bardell_field.pyx'}],
     ['Shell.uvw', 'Shell.strain', 'Shell.stress'], 'stateless exploration of thread schedules of the real compiled code under a controlled scheduler, preemption bounded', 'model_checking',
     'all core and point numbers up to the bound; all orders and preemption-bounded interleavings at the granularity of conflicting memory accesses')

prop('C22', 'The results of a stiffened bay do not depend on its history',
     'After any sequence of changes to the strips, stiffeners, flanges, loads and air flow of a stiffened bay, of stiffeners added and of other calculations, every calculation gives the results of a fresh bay with the current definition; '
     'no calculation changes the definition or what was returned before.',
     ['histories'], 'all operation sequences up to the bound on strip, beam-stiffener, panel-stiffener, load and flow changes',
     'Tests create a bay, calculate each matrix once and stop.',
     ['panels/stiffpanelbay/stiffpanelbay.py', 'panels/stiffener/bladestiff1d.py', 'panels/stiffener/bladestiff2d.py'],
     [{'name': '_rebuild of the bay and of its stiffeners', 'where': 'panels/stiffpanelbay/stiffpanelbay.py, panels/stiffener/'}],
     ['every public method of StiffPanelBay'], SEQ, 'model_checking',
     'every operation sequence to bounded depth on the real bay')

prop('C23', 'Inconsistent definitions and arrays of the wrong size are refused',
     'A calculation on a shell, an assembly or a stiffened bay raises an exception, instead of crashing or returning numbers, when its definition is incomplete or inconsistent (laminate, dimensions or model missing or unknown, lists of ply angles, thicknesses, '
     'materials or densities of different lengths, more than 30 terms, a connection that is incomplete, unknown or between panels outside the assembly, a stiffener away from the border between two strips), or when an array has the wrong size or shape (Ritz constants, '
     'laminates, thicknesses or densities per integration point, field points, a global size in which the panel does not fit). The refused call harms nothing: with the right definition every calculation gives the same results as before.',
     ['inputs', 'histories'], 'all listed wrong definitions and arguments x all calculations that use them x both models x fresh or used objects',
     'No test makes a wrong call; compiled code reads and writes without bounds checks, so that a refusal that was lost shows as silent garbage.',
     ['panels/shell.py', 'panels/multidomain/multidomain.py', 'panels/stiffpanelbay/stiffpanelbay.py', 'panels/stiffener/bladestiff1d.py', M + 'clpt_bardell_field.pyx'],
     [{'name': 'check_c, Shell._rebuild, _default_field, get_kC_conn, add_bladestiff1d/2d', 'where': 'panels/shell.py, panels/multidomain/multidomain.py, panels/stiffpanelbay/stiffpanelbay.py'}],
     ['every calculation of Shell, MultiDomain and StiffPanelBay'], ENUM, 'exploration',
     'every wrong definition and argument of the list at every calculation of the real code, differential check afterwards')

prop('C24', 'The plots show the calculated fields',
     'What a plot of a shell, an assembly group or a stiffened bay draws are the values of the requested displacement, strain or stress field (with the requested geometric non-linearity) at the points where it was calculated, each panel where it stands in the assembly, '
     'displaced by the in-plane displacements times the scale factor when asked, with contour levels that span exactly the given limits or else the extremes of the field over all panels plotted. Drawing options do what they say (axes given, inverted axis, title, color bar, names, boundaries, file written only when asked), '
     'and neither the constants given nor the fields calculated before are changed.',
     ['inputs', 'histories'], 'all fields x non-linearity x deformed or not x offsets x kinds of points x limits x earlier calculations, for shells, assemblies and bays',
     'The tests that plot never look at the result.',
     ['panels/plot_shell.py', 'panels/multidomain/multidomain.py', 'panels/stiffpanelbay/stiffpanelbay.py'],
     [{'name': 'plot_shell, MultiDomain.plot, plot_skin, plot_stiffener', 'where': 'panels/plot_shell.py, panels/multidomain/multidomain.py, panels/stiffpanelbay/stiffpanelbay.py'}],
     ['plot_shell', 'MultiDomain.plot', 'StiffPanelBay.plot_skin', 'StiffPanelBay.plot_stiffener'], ENUM, 'exploration',
     'every combination of the arguments that select what is drawn, recorded at the drawing library, against fields calculated on fresh objects')

prop('C25', 'Equivalent ways of giving the same input give the same results',
     'Every accepted form of the same definition or argument (integer, floating-point or NumPy numbers; lists, tuples or arrays of any memory layout, byte order or numeric type; one value or one per ply; constructor or attributes, in any order; '
     'derived or explicit model; loads split, joined or reordered; angles differing by half a turn; plies divided in identical layers; connections in any order) gives the same result in every calculation of shells, assemblies and stiffened bays, and no argument is changed.',
     ['inputs'], 'every equivalent form of every attribute and argument, singly and (thorough) in all pairs, for every calculation and both models',
     'Tests use one form of each input.',
     ['panels/shell.py', 'panels/multidomain/multidomain.py', 'panels/stiffpanelbay/stiffpanelbay.py', 'panels/stiffener/bladestiff1d.py', 'panels/stiffener/bladestiff2d.py'],
     [{'name': 'Shell._rebuild, _get_lam_F, load and field interfaces, connection dictionaries', 'where': 'panels/shell.py, panels/multidomain/multidomain.py, panels/stiffpanelbay/stiffpanelbay.py'}],
     ['every public method of Shell, MultiDomain and StiffPanelBay'], ENUM, 'exploration',
     'every form of every input at every calculation of the real code, differential against the plain form')

prop('C26', 'Simply supported panels have the exact frequencies, buckling loads and mode shapes',
     'With enough terms, the free vibration frequencies and linear buckling multipliers of simply supported flat and cylindrical panels with cross-ply, isotropic and antisymmetric angle-ply laminates, with or without offset, pre-load and aerodynamic stiffness, are those of the exact solutions, '
     'and displacements, rotations, strains and stresses of the eigenvectors are those of the exact modes; the same panel modelled as a stiffened bay of strips without stiffeners, or as an assembly of connected panels (within the compliance of the penalty connections), gives the same values.',
     ['inputs'], 'all listed laminates x aspect ratios x radii x supports x pre-loads x loads x divisions in strips or panels',
     'Tests compare a few first eigenvalues with stored values or between formulations.',
     ['panels/shell.py', M + 'clpt_bardell_field.pyx', 'panels/models/', 'panels/stiffpanelbay/stiffpanelbay.py', 'panels/multidomain/'],
     [{'name': 'fkC, fkG, fkM, fkA and field functions of both models; strips; SSxcte and SSycte connections', 'where': 'panels/models/, panels/multidomain/connections/'}],
     ['calc_kC', 'calc_kG', 'calc_kM', 'calc_kA', 'uvw', 'strain', 'stress'], ENUM, 'exploration',
     'every configuration within the bounds against closed-form solutions that share nothing with the implementation')

prop('C27', 'A calculation that failed or was interrupted half-way can be repeated',
     'When a call made during a calculation of a shell, an assembly or a stiffened bay fails or is interrupted (memory exhausted, an error in a load function, Ctrl-C), the definition of the object is as before, '
     'and from then on every calculation, the interrupted one included, gives the results of a fresh object with the same definition.',
     ['faults', 'histories'], 'all calculations x all calls made by them, on fresh and used objects (thorough: pairs of crash points)',
     'Tests never interrupt a calculation.',
     ['panels/shell.py', 'panels/multidomain/multidomain.py', 'panels/stiffpanelbay/stiffpanelbay.py', 'panels/stiffener/bladestiff1d.py', 'panels/stiffener/bladestiff2d.py'],
     [{'name': 'attributes replaced during calculations and what is derived in _rebuild', 'where': 'panels/shell.py, panels/stiffpanelbay/stiffpanelbay.py, panels/multidomain/multidomain.py'}],
     ['every calculation of Shell, MultiDomain and StiffPanelBay'], 'exhaustive enumeration of crash points of the real code (failures injected at every call it makes), differential oracle in pristine processes', 'model_checking',
     'every call made by every calculation, followed by all calculations')

prop('C28', 'Objects are independent of one another',
     'The calculations of a shell, an assembly or a stiffened bay give the same results whatever is calculated with other objects before, between or during them, also from another thread.',
     ['schedules', 'histories'], 'all pairs of calculations on two objects, one after the other, preempted at every call (one preemption), and in two threads (two preemptions)',
     'Tests use one object at a time.',
     ['panels/shell.py', 'panels/multidomain/multidomain.py', 'panels/stiffpanelbay/stiffpanelbay.py', 'panels/modelDB.py', 'panels/shell_fext.py'],
     [{'name': 'module-level state, default arguments, shared lists and arrays', 'where': 'panels/'}],
     ['every calculation of Shell, MultiDomain and StiffPanelBay'], 'stateless exploration of interleavings of the real code under a controlled scheduler (preemption at every call the library makes, bounds 1 and 2)', 'model_checking',
     'all preemption points of all pairs of calculations, against pristine processes')


prop('C29', 'The results do not depend on the choice of units and axes',
     'Any consistent change of the units of length, force and time changes every result of shells, assemblies and stiffened bays by its dimension and nothing else; the same structure described with x and y exchanged, or with x, y or z reversed, gives the same results, transformed.',
     ['inputs'], 'every calculation of shells, assemblies with every connection and stiffened bays; units over powers of two in all combinations within the bound; the group of exchanges and reversals of the axes; edge flags, laminates, loads, partial domains enumerated',
     'Tests compare single cases in one system of units and one orientation; a threshold, default or constant with hidden units is invisible there.',
     ['panels/shell.py', 'panels/models/plate_clpt_donnell_bardell.pyx', 'panels/models/cylshell_clpt_donnell_bardell.pyx', 'panels/multidomain/multidomain.py', 'panels/stiffpanelbay/stiffpanelbay.py', 'panels/stiffener/bladestiff1d.py'],
     [{'name': 'absolute thresholds and constants; terms that treat x and y, or edges 1 and 2, differently', 'where': 'panels/'}],
     ['every calculation and field of Shell, MultiDomain, StiffPanelBay'], 'exhaustive enumeration of the finite group of transformations and of definitions within the bound; relation of the executions checked on the real code', 'exploration',
     'metamorphic: does not use the reference; all transformations of the bound on every calculation')


prop('C30', 'Rigid-body motions carry no strain energy, the total mass and the resultants of the loads',
     'A free panel, an assembly with any connections, and a stiffened bay resist no rigid-body motion: stiffness, connection springs, strains and internal forces vanish for it, and the internal forces of any state have no resultant. Mass, geometric stiffness, damping and external force, projected on these motions, are the inertia of the geometry, the work of the membrane forces and flow, and the resultants of the loads.',
     ['inputs'], 'laminates x offsets x numbers of terms x partial domains for shells; every sequence of connection kinds, in chains and trees and every order of the panels, for assemblies; every set of up to two stiffeners at every position for bays',
     'Tests compare eigenvalues of a few restrained structures; a wrong side, offset or distance in a connection or stiffener changes them only slightly, but the balance of a free structure by all of it.',
     ['panels/shell.py', 'panels/multidomain/multidomain.py', 'panels/multidomain/connections/', 'panels/stiffpanelbay/stiffpanelbay.py', 'panels/stiffener/bladestiff1d.py', 'panels/stiffener/bladestiff2d.py'],
     [{'name': 'lever arms of connections and stiffeners; sums over panels; side and direction of flanges', 'where': 'panels/multidomain/connections/, panels/stiffener/'}],
     ['every matrix, vector and field of Shell, MultiDomain, StiffPanelBay'], 'exhaustive enumeration of structures within the bound; invariants of the executions checked on the real code', 'exploration',
     'rigid-body kinematics and inertia written out in the check, independent of the reference energies')


def main():
    have = {p['id'] for p in P if os.path.exists(os.path.join(HERE, 'checks', p['id'] + '.py'))}
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in P:
            a = dict(files=p['files'], mechanism=p['mech'], observe_at=p['observe'], hook_needed=None)
            if p['state']:
                a['state'] = p['state']
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'].strip(),
                                    quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'], anchors=a)) + '\n')
    py = '/opt/venv/bin/python mc/'
    man = dict(version=1, setup_cmd=py + 'build.py',
               checks=[dict(property=p['id'], quick_cmd=py + 'run.py %s quick' % p['id'], thorough_cmd=py + 'run.py %s thorough' % p['id'],
                            technique=p['technique'], level=p['level'], level_note=p['note']) for p in P if p['id'] in have],
               not_applicable=[dict(property=p['id'], reason='check not built yet') for p in P if p['id'] not in have],
               notes='No hooks: the checks build and drive the unmodified sources of /repo. See DESIGN.md.')
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
