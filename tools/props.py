HOOKS = ['67c9ae1']
SAN = 'ASan/UBSan builds; '
prop('C01', 'Results do not depend on threads, ranks, partitions or message timing',
     'A simulation computes the same solution (up to floating point rounding) for any number of threads and workers, any number of ranks and partitioning of the mesh, and any delay of messages and workers. This includes the fields at the end of the simulation, the recorded seismograms and the influence of sources, for all equations that support distributed memory.',
     ['schedules', 'configurations', 'inputs'], 'all meshes, materials, time groups, thread and rank counts, delays of messages and workers',
     'The unit tests never run a complete simulation; the scheduler, the communication and the main program are not even part of the test binaries.',
     ['src/main.cpp', 'src/time/Manager.cpp', 'src/parallel/Distributed.cpp', 'src/parallel/MpiRemix.cpp', 'src/parallel/Shared.cpp', 'src/impl/seismic/solvers/AderDg.hpp', 'src/impl/advection/solvers/AderDg.hpp', 'src/mesh/EdgeV.cpp'],
     [('scheduling of work regions', 'src/time/Manager.cpp, src/impl/*/inc/time/man_sched.inc'), ('communication buffers', 'src/parallel/Distributed.cpp, MpiRemix.cpp'), ('neighboring solves of remote elements', 'src/impl/*/solvers/AderDg.hpp')],
     'differential monitoring of final states of real runs under delays', 'Differential: every run of the real executables is compared element by element with the serial run of the same mesh. MPI is replaced by a stand-in over sockets with random message delays; exploration of sampled scenarios.',
     observe=['state of all elements at synchronization points', 'receiver output'], hook='state dump at synchronization points, delays in workers')
prop('C02', 'Each step is done exactly once, in dependency order, until the sync time',
     'In every time step, every element of a time group is updated exactly once, after all data of the adjacent elements, time groups and ranks which the update needs is available and before this data is overwritten; the number of sent and received messages of two ranks matches. Every time group performs its fraction of the steps of the slower ones and reaches each synchronization time exactly; the simulation ends at the requested time and never stops making progress.',
     ['schedules', 'configurations'], 'all interleavings of scheduler, workers and messages; all time groups and synchronization intervals',
     'Scheduling is not covered by any test; a wrong order shows up only for particular interleavings and time group relations.',
     ['src/time/Manager.cpp', 'src/time/TimeGroupStatic.cpp', 'src/impl/seismic/inc/time/man_sched.inc', 'src/impl/advection/inc/time/man_sched.inc', 'src/impl/swe/inc/time/man_sched.inc', 'src/impl/seismic/ts_dep.inc', 'src/parallel/MpiRemix.cpp'],
     [('dependencies of the work regions', 'src/impl/*/inc/time/man_sched.inc'), ('steps of the time groups', 'src/time/TimeGroupStatic.cpp')],
     'offline trace checking of recorded work packages and messages', 'Offline checker over recorded begin/end events of all work packages and messages of randomized runs, with delays in workers and messages; held for the observed histories.',
     observe=['begin and end of work packages, steps of the time groups, messages'], hook='events of work packages and time groups')
prop('C03', 'Work packages tile each region; shares follow measured throughput',
     'For any region, number of workers and history of measured times, the packages handed to the workers are disjoint, contiguous and cover the region exactly, and the first sparse entity of a package is the number of matching entities before it. Without measurements work is split equally, balanced regions keep their split, and otherwise the shares follow the measured throughput. A package is handed out exactly once whenever its region is made ready, higher priorities first, and a region counts as finished only if all workers finished it; parallel initialization zeroes exactly the given array.',
     ['histories', 'inputs', 'schedules'], 'all regions, sparse types, worker counts, measured times and orders of status changes',
     'The unit test balances one region; the shared memory tests only initialize arrays.',
     ['src/parallel/LoadBalancing.cpp', 'src/parallel/LoadBalancing.h', 'src/parallel/Shared.cpp', 'src/parallel/Shared.h', 'src/monitor/Timer.hpp'],
     [('throughput-based balancing', 'LoadBalancing::balanceWrkRgn'), ('status of work packages', 'Shared::setStatusTd, getWrkTd')],
     'online monitors with a simulated clock under ASan/UBSan', 'Oracle recomputes tiling, sparse offsets and shares by brute force for random histories of regions and measured times; real OpenMP threads for the hand-out.',
     observe=['public interface of the load balancing and the work distribution'])
prop('C22', 'Sparse entity links, data layouts and communication buffers are exact',
     'For every set of entities, bit masks and adjacencies, counts, regions, inherited and propagated types and the sparse-dense, sparse-sparse and adjacency links equal their set-theoretic definition. Dynamic memory is aligned, large enough and never shared by two entities; data for adjacent entities gets one item each, communicated data being contiguous and in the order the other side expects. The communication structure of two ranks agrees on sizes and tags of all messages, and each communicating face has its own slot in the buffers.',
     ['inputs', 'configurations'], 'all entity counts, masks, adjacencies, layouts, channels and time groups',
     'The unit tests use a single hand-written example per function.',
     ['src/data/SparseEntities.hpp', 'src/data/DataLayout.hpp', 'src/data/EntityLayout.cpp', 'src/data/Dynamic.h', 'src/data/Dynamic.cpp', 'src/data/common.hpp', 'src/parallel/Distributed.cpp'],
     [('bit masks of sparse types', 'src/data/SparseEntities.hpp'), ('pointers into buffers', 'Distributed::init')],
     'brute-force reference monitors under ASan/UBSan', 'Every call on random inputs is compared with a brute-force definition; memory accesses are watched by ASan.',
     observe=['outputs of the public functions'])
prop('C20', 'Geometry, mappings, quadrature, basis and series are mathematically exact',
     'For every valid element and point: maps between reference and physical coordinates are inverse to each other and agree with shape functions and Jacobians; face parametrizations of two neighbors describe the same points; volumes, areas, inscribed diameters, normals, tangents, determinants, inverses and rotations satisfy their definitions; a point is classified as inside or outside correctly, its closest point of an element is the closest one and points are located in the closest element. Quadrature rules lie inside of the element and integrate polynomials of their degree exactly; basis functions are orthogonal with the given mass, derivatives match, and projections reproduce all polynomials of the order. Integrals of sampled series equal those of the piecewise linear function and add up over sub-intervals; a domain contains exactly the intersection of its half-spaces.',
     ['inputs'], 'all element types, orders, vertex coordinates, points, polynomials, series and integration intervals',
     'The tests evaluate a few hand-computed points; errors show only for particular faces, orders, positions or intervals.',
     ['src/linalg/Mappings.hpp', 'src/linalg/Geom.hpp', 'src/linalg/Shape.hpp', 'src/linalg/Series.hpp', 'src/linalg/Matrix.h', 'src/linalg/HalfSpace.hpp', 'src/linalg/Domain.hpp', 'src/dg/QuadraturePoints.h', 'src/dg/QuadratureEval.hpp', 'src/dg/Basis.cpp', 'src/dg/Basis.h', 'src/dg/generated', 'src/data/SparseEntities.hpp'],
     [('mappings', 'src/linalg/Mappings.hpp'), ('quadrature', 'src/dg/QuadraturePoints.h'), ('basis', 'src/dg/Basis.cpp'), ('series', 'src/linalg/Series.hpp')],
     'reference-formula monitors on random inputs under ASan/UBSan', 'Every call on random elements, points, polynomials and intervals is compared with independent closed formulas; sampled inputs. The empty wykobi submodule is replaced by a stand-in of the functions used.',
     observe=['outputs of the public functions'])
prop('C09', 'Shallow water: conservation, lake at rest, dry cells, walls, CFL time step',
     'For all states of water, momentum and bathymetry, the net-updates of the f-wave solver add up to the jump of the fluxes including the bathymetry source, vanish for equal states and for water at rest over any bathymetry, go to the side the Einfeldt speeds point to (supercritical flow only updates downstream), are mirror-symmetric and independent of other fused runs. On any mesh, a step conserves the volume of water with periodic or reflecting boundaries, keeps a lake at rest and a constant stream, never changes dry elements, treats their edges and reflecting boundaries as walls and outflow boundaries as transparent. The time step of an element is at most its diameter over the largest wave speed; statistics are minimum, average and maximum over the elements and the smallest time step of the fused runs.',
     ['inputs', 'configurations'], 'all states, bathymetries, meshes, boundary conditions and numbers of fused runs',
     'The unit test solves two Riemann problems; the finite volume scheme has no test at all.',
     ['src/impl/swe/solvers/Fwave.hpp', 'src/impl/swe/solvers/FiniteVolume.hpp', 'src/impl/swe/setup.inc'],
     [('f-wave solver', 'Fwave::nusN'), ('dry elements and boundaries', 'FiniteVolume::nusN, qtsLr'), ('update', 'FiniteVolume::update')],
     'invariant and reference monitors on random states and meshes under ASan/UBSan', 'Conservation, well-balancedness and an independent update are evaluated on random states and meshes; sampled inputs.',
     observe=['net-updates, updated states and time steps'])
prop('C24', 'Matrix kernels, sparse formats and discrete DG operators are exact',
     'For all sizes, leading dimensions, scalars and numbers of fused matrices, matrix products equal their definition and write nothing else (beta zero ignores previous content, even NaN). Conversions between dense, coordinate, CSR and CSC formats, with sub-matrices and fill-in, and transposes keep exactly the non-zero entries in order. For all elements, orders, coefficients and states, the time prediction is the Taylor series of the differential equation, its integral and evaluation are exact for all modes, and the volume, local surface and neighboring surface kernels equal the integrals of the weak form for every combination of faces and vertices, also for the anelastic quantities and pre-computed face data. This holds for the plain kernels and for those on top of LIBXSMM, single with dense and fused with sparse matrices.',
     ['inputs', 'configurations'], 'all matrix shapes, sparsity patterns, element types, orders, faces, vertices and fused runs',
     'The unit tests multiply one matrix per function; the tests of the kernels need generated matrices and are not part of the test binaries.',
     ['src/linalg/Matrix.h', 'src/data/MmVanilla.hpp', 'src/impl/seismic/kernels/TimePredVanilla.hpp', 'src/impl/seismic/kernels/TimePred.hpp', 'src/impl/seismic/kernels/VolIntVanilla.hpp', 'src/impl/seismic/kernels/SurfIntVanilla.hpp', 'src/impl/seismic/kernels/TimePredSingle.hpp', 'src/impl/seismic/kernels/VolIntSingle.hpp', 'src/impl/seismic/kernels/SurfIntSingle.hpp', 'src/impl/seismic/kernels/TimePredFused.hpp', 'src/impl/seismic/kernels/VolIntFused.hpp', 'src/impl/seismic/kernels/SurfIntFused.hpp', 'src/impl/seismic/kernels/FakeMats.hpp', 'src/data/MmXsmmSingle.hpp', 'src/data/MmXsmmFused.hpp', 'src/impl/advection/kernels/TimePred.hpp', 'src/impl/advection/kernels/VolInt.hpp', 'src/impl/advection/kernels/SurfInt.hpp', 'src/dg/TimePred.hpp', 'src/dg/VolInt.hpp', 'src/dg/SurfInt.hpp'],
     [('matrix products', 'Matrix::matMul*'), ('sparse formats', 'Matrix::denseToCrd, crdToCsr, crdToCsc, fillInQfma'), ('kernels', 'src/impl/*/kernels')],
     'quadrature and brute-force reference monitors under ASan/UBSan', 'Each call on random inputs is compared with the definition; kernels are compared with quadrature of the weak form. LIBXSMM is absent: its kernels run on a stand-in with interpreted reference kernels, which leaves rows and columns without entries untouched, as the generated code does. One known finding (sign of the relaxation in the viscoelastic time prediction).',
     observe=['outputs of the kernels'])
prop('C21', 'Material, star, rotation, Riemann and attenuation coefficients are exact',
     'For all materials, normals and states: Lame parameters, wave speeds and the CFL time step agree with each other; star matrices are the Jacobians of the fluxes of the elastic wave equations mapped to the reference element; rotations between face-aligned and physical coordinates are inverse to each other and equal the rotation of tensors and vectors; flux solvers of elements give the state at the face of the exact Riemann problem of the two materials, with identical fluxes seen from both sides, traction-free free surfaces and absorbing outflow boundaries, also in the acoustic limit. Every element uses its own material, its neighbors across the right faces (also for communicated data) and the right boundary condition. Anelastic coefficients reproduce the requested quality factors in the frequency band and keep the moduli at the reference frequency.',
     ['inputs', 'configurations'], 'all materials, normals, states, boundary conditions, element types, quality factors and frequency bands',
     'The unit tests evaluate single hand-computed examples; set up of solvers and attenuation of neighbors with different materials is not tested.',
     ['src/impl/seismic/common.hpp', 'src/impl/seismic/setups/Elasticity.h', 'src/impl/seismic/setups/Elasticity.cpp', 'src/impl/seismic/setups/ViscoElasticity.h', 'src/impl/seismic/setups/ViscoElasticity.cpp', 'src/impl/seismic/solvers/AderDgInit.hpp'],
     [('rotations and middle states', 'src/impl/seismic/common.hpp, src/impl/seismic/setups/Elasticity.cpp'), ('attenuation', 'src/impl/seismic/setups/ViscoElasticity.cpp'), ('coefficients of all elements', 'AderDgInit.hpp')],
     'reference monitors (characteristic solutions, complex moduli) under ASan/UBSan', 'Every call on random materials and normals is compared with characteristic solutions of the Riemann problem and complex moduli; sampled inputs.',
     observe=['outputs of the public functions'])

prop('C13', 'Sub-cell grid, projections, maximum principle and finite volume scheme agree',
     'For every element type and order: the sub-cell connectivity is symmetric and consistent with faces, vertices and neighboring elements of every orientation; scattering DG modes gives exact sub-cell averages (in elements, at their faces and at neighbors\' faces), gathering restores the modes and the mean, and kernels apply exactly these operators, replacing only inadmissible solutions; extrema are exact; the discrete maximum principle rejects a run if and only if its sub-cell values leave the relaxed bounds of the element and its face neighbors; only limited elements are treated with sub-cells, limited-plus neighbors included; memory and links between dense and sparse entities are complete and disjoint. The sub-cell solver is the conservative Rusanov finite volume scheme on the sub-grid with materials of both sides, and internal boundary super-cells and faces pair the sub-cells on both sides.',
     ['inputs', 'configurations'], 'all modes, sub-cell values, admissibilities, materials, neighborhoods and element types',
     'Unit tests check the operators for single elements and hand-chosen values; solver set up and most kernels of face-adjacent elements are not tested.',
     ['src/sc/Kernels.hpp', 'src/sc/Detections.hpp', 'src/sc/Steering.hpp', 'src/sc/SubGrid.hpp', 'src/sc/Init.hpp', 'src/sc/Memory.hpp', 'src/sc/ibnd', 'src/impl/seismic/sc/Llf.hpp', 'src/impl/seismic/sc/Boundary.hpp'],
     [('operators and grid', 'src/sc/Init.hpp, src/sc/Kernels.hpp, src/sc/SubGrid.hpp'), ('maximum principle', 'src/sc/Detections.hpp'), ('finite volume solver', 'src/impl/seismic/sc/Llf.hpp')],
     'reference monitors (polynomial averages, finite volumes) under ASan/UBSan', 'Operators of every configuration are compared with quadrature of the basis; kernels, detection and solver with references on random data; sampled inputs. The shock-capturing limiter is not wired into the executables at this commit, so whole simulations with sub-cells cannot be run.',
     observe=['outputs of the public functions'])

prop('C10', 'Frictional faults: slip-weakening friction and internal boundaries are exact',
     'For all materials, faces, fault coordinate systems, background stresses and histories: a sub-face of a fault fails if and only if the total shear stress exceeds the strength max(0, -(mu (sn0+sn) + cohesion)); then the total traction has the magnitude of the strength and the direction of the total shear stress, else the fault is locked and both sides see the states of the welded contact. Friction never accelerates the slip: slip rate and traction are the ones of two elastic half-spaces in frictional contact (also for different materials), slip grows by the slip rate times the time step and the friction coefficient weakens linearly from static to dynamic over the critical slip distance, every run and sub-face on its own. Net-updates of internal boundaries are the fluxes of these states through the physical face, scaled to sub-cells, whichever element is left or right and wherever the face points; set up of faults assigns minus and plus sides, impedances, stresses of domains or files and names to the right faces, sub-faces and runs; fault output files contain the sub-faces of exactly the requested range of faces as cells at their physical coordinates, with the value of each quantity.',
     ['inputs', 'histories', 'configurations'], 'all materials, normals, coordinate systems, stresses, histories of slip and fused runs',
     'Unit tests evaluate one state per dimension in which background and total shear stress agree in sign; tests of internal boundaries and rupture set up are not part of the build.',
     ['src/impl/seismic/solvers/FrictionLaws.hpp', 'src/impl/seismic/solvers/FrictionLaws.type', 'src/impl/seismic/solvers/InternalBoundary.hpp', 'src/impl/seismic/setups/RuptureInit.hpp', 'src/io/InternalBoundary.hpp', 'src/impl/seismic/generated'],
     [('friction laws', 'FrictionLaws.hpp: linSlipWeak'), ('net-updates and solvers', 'InternalBoundary.hpp: netUpdates, init'), ('fault set up', 'RuptureInit.hpp: linSlipWeak'), ('fault output', 'io/InternalBoundary.hpp: write')],
     'reference monitors (frictional contact of half-spaces) under ASan/UBSan', 'Histories of friction and net-updates on random faces are compared with the exact frictional contact of two elastic half-spaces; sampled inputs.',
     observe=['outputs of the public functions'])

prop('C14', 'EDGE-V mesh: complete, consistently oriented topology and exact geometry',
     'For every conforming mesh of quads, triangles, hexes or tets, whatever the numbering and orientation in the file, with holes, groups or periodic boundaries: every face of every element exists exactly once, with ascending vertices and faces in lexicographic order; face, element, vertex and neighbor links agree in both directions, the smaller element of an interior face comes first, and periodic faces are linked to the opposite face. Element vertices and faces follow the reference element (tris counter-clockwise, tets positively oriented, smallest vertices first), and groups of the file end up as types of exactly their faces. Areas, volumes, centroids and in-diameters are exact; face normals are unit vectors out of the first element, and tangents complete them to a right-handed orthonormal system; ids of adjacent faces and vertices of neighbors are the ones at which the two reference elements meet.',
     ['inputs', 'configurations'], 'all conforming meshes, numberings, orientations, boundary groups and periodic directions of all element types',
     'Unit tests read four small meshes and check a few entries.',
     ['tools/edge_v/src/mesh/Mesh.cpp', 'tools/edge_v/src/mesh/Mesh.h', 'tools/edge_v/src/geom/Geom.cpp', 'tools/edge_v/src/geom/Generic.hpp', 'tools/edge_v/src/geom/Line.cpp', 'tools/edge_v/src/geom/Tria3.cpp', 'tools/edge_v/src/geom/Quad4r.cpp', 'tools/edge_v/src/geom/Tet4.cpp', 'tools/edge_v/src/geom/Hex8r.cpp', 'tools/edge_v/src/io/Gmsh.cpp'],
     [('links between entities', 'Mesh.cpp: Mesh, getFaEl, getElFa, getElFaEl, setPeriodicBnds'), ('ids of adjacent entities', 'Mesh.cpp: getFaIdsAd, getVeIdsAd'), ('geometry', 'tools/edge_v/src/geom')],
     'reference monitors on random meshes (brute-force topology) under ASan/UBSan', 'Random meshes are written as Gmsh files and read by the real code; all links and geometry are compared with brute force and closed formulas. Runs with the real Gmsh library and with an instrumented stand-in.',
     observe=['public interface of the mesh and of the geometry'])
prop('C15', 'Partitions, reordering and communication structures of EDGE-V match',
     'For all meshes, partitions and time groups: every element is in exactly one partition, the numbers of elements per partition are exact, and partitioning weights elements by their number of time steps. Reordering sorts elements by partition, then inner before send elements, then time group, and keeps elements, vertices and boundary types of the mesh. For each partition the communication structure lists every pair of local time group, adjacent partition and adjacent time group once, in ascending order, with exactly the faces shared by them; the i-th item one side sends is received at the same face by the other side; numbers of inner and send elements per time group are exact.',
     ['inputs', 'configurations'], 'all meshes, partitions, numbers of partitions and time groups',
     'Unit tests use a single mesh and check structures of one partition; matching of both sides is never checked.',
     ['tools/edge_v/src/mesh/Partition.cpp', 'tools/edge_v/src/mesh/Partition.h', 'tools/edge_v/src/mesh/Communication.cpp', 'tools/edge_v/src/mesh/Communication.h', 'tools/edge_v/src/io/Gmsh.cpp'],
     [('partitions and priorities', 'Partition.cpp: kWay, getElPr'), ('channels and faces', 'Communication.cpp: getChannels, getStructs, getSeRe...')],
     'two-sided structure monitors on random meshes under ASan/UBSan', 'Structures of all partitions are matched with each other and with brute force on random meshes, partitions (random and Metis) and time groups; partitions without elements are not communicated.',
     observe=['public interface of partitions and communication'])
prop('C16', 'EDGE-V time steps, time groups, velocity models and refinement are exact',
     'For all meshes, velocities, rates and fundamental time steps: the time step of an element is its in-diameter over the mean maximum wave speed of its vertices (or over the one of the element), normalized by the smallest one; interval i of the time groups is the fundamental time step times the rates of all previous groups; every element gets the first group whose upper bound exceeds its time step, lowered only as far as required such that face neighbors differ by at most one group. Numbers of elements per group, also of ranges, the speed-up and the logged theoretical speed-ups (grouped, normalized and per element) match this assignment. Velocity models evaluate their expression with coordinates and grid data of each point and can be initialized and freed in any order; averages are means over the vertices; target lengths of elements and vertices follow the refinement expression (minimum over the adjacent elements at vertices).',
     ['inputs', 'histories'], 'all adjacencies, time steps, rates, fundamental time steps, velocities, grids and expressions',
     'Unit tests use one small example each; models based on expressions and grids are not part of the test binaries.',
     ['tools/edge_v/src/time/Groups.cpp', 'tools/edge_v/src/time/Groups.h', 'tools/edge_v/src/time/Cfl.cpp', 'tools/edge_v/src/models', 'tools/edge_v/src/mesh/Refinement.cpp', 'tools/edge_v/src/io/Grid.cpp', 'tools/edge_v/src/io/ExprTk.cpp'],
     [('normalization of the groups', 'Groups.cpp: normalizeElTgs'), ('time steps', 'Cfl.cpp: setTimeSteps'), ('target lengths', 'Refinement.cpp: init')],
     'brute-force reference monitors under ASan/UBSan', 'Random adjacencies and velocities; groups are compared with the largest admissible assignment (shortest paths). Expressions are evaluated by a stand-in of the absent ExprTk submodule.',
     observe=['public interface of groups, time steps, models and refinement'])
prop('C17', 'Files of EDGE-V: lossless IO, and outputs of a run describe one mesh',
     'Values of all types written to HDF5 are read back unchanged, with the right number and without writing beyond them; tables and background meshes contain exactly the given rows, columns, nodes, elements and lengths at the requested precision; all settings of the XML configuration are passed on with their defaults. For every configuration (partitions, groups, periodic boundaries, velocity models, centroid-based time steps, automatic or given fundamental time step) the files of a complete run describe the input mesh: partitions contain every element once with original vertices and boundary types, ordered by inner/send and time group; numbers of elements per group, relative time steps, channels, send and receive elements and faces and ghost ids match the mesh files and each other across partitions; bathymetry and displacements are the averages of the grids at the vertices; an automatic fundamental time step has the best speed-up of the searched ones.',
     ['inputs', 'configurations'], 'all values and sizes; all meshes and configurations of complete runs',
     'The main program is not tested at all; unit tests of the files write one small example.',
     ['tools/edge_v/src/main.cpp', 'tools/edge_v/src/io/Hdf5.cpp', 'tools/edge_v/src/io/Hdf5.h', 'tools/edge_v/src/io/Grid.cpp', 'tools/edge_v/src/io/Csv.cpp', 'tools/edge_v/src/io/BgMeshMsh4.cpp', 'tools/edge_v/src/io/Config.cpp', 'tools/edge_v/src/io/Gmsh.cpp'],
     [('support files', 'main.cpp'), ('data sets', 'Hdf5.cpp'), ('settings', 'Config.cpp')],
     'offline checking of output files of real runs under ASan/UBSan', 'The real edge_v executable (with a stand-in of Gmsh, since the installed library lacks the partition plugin) runs on random meshes and configurations; an offline checker compares all files with the input mesh and each other. UCVM is not available.',
     observe=['output files'])
prop('C18', 'EDGEcut: extruded surfaces are watertight, outward oriented and graded',
     'For every rectilinear surface grid, whatever the order of its points, the spacings, heights and offsets, target depth and number of coarsening levels (with enough cells for the levels): the six written OFF files have the announced numbers of points and triangles and together form a single closed surface without gaps or overlaps, in which every triangle points out of the domain and every edge is shared by exactly two triangles. The top contains exactly the points of the grid, coarsened level by level (by two per level, in rings) towards the border; the sides follow the coarse border of the grid and reach the target depth in equidistant steps not larger than the smallest coarse spacing (one more than the integer quotient of maximum depth and smallest coarse spacing); the bottom is the coarse grid at the target depth. Coordinates in files of the executable keep double precision, and every file of the configuration gets its own side.',
     ['inputs', 'configurations'], 'all rectilinear grids, orders of the points, depths, levels and configurations',
     'The unit test extrudes a single grid of 12 points without coarsening.',
     ['tools/edge_cut/src/mesh/Extrude.cpp', 'tools/edge_cut/src/mesh/Extrude.h', 'tools/edge_cut/src/main.cpp', 'tools/edge_cut/src/io/Config.cpp'],
     [('triangulation and coarsening', 'Extrude.cpp: writeTriaOff, writeTrias*'), ('sides and steps', 'Extrude.cpp: Extrude, addSide'), ('executable', 'main.cpp, Config.cpp')],
     'topological monitor of output surfaces (edge matching, orientation, area) under ASan/UBSan', 'All files of random grids, written by the class and by the executable, are parsed and joined to one surface; sampled inputs.',
     observe=['output files'])

prop('C06', 'Local time stepping is exact and conservative across time groups',
     'For any mesh, assignment of elements to time groups, materials, end time and synchronization interval, clustered local time stepping gives the solution of the differential equations: initial values that are polynomials of a degree below the order (also with a kink at a material interface or symmetric to a free surface) stay exact up to rounding in all elements that boundaries cannot have reached, whichever time groups, ranks and faces are in between. In periodic domains momentum and strain (elastic) and the advected quantity keep their totals up to rounding, and the elastic energy does not grow.',
     ['inputs', 'configurations', 'schedules'], 'all meshes, time groups, materials, polynomials, end times and ranks',
     'No unit test runs a time step; errors at interfaces of time groups look like plausible waves.',
     ['src/impl/seismic/solvers/AderDg.hpp', 'src/impl/advection/solvers/AderDg.hpp', 'src/time/Manager.cpp', 'src/time/TimeGroupStatic.cpp', 'src/impl/seismic/kernels/TimePred.hpp', 'src/impl/seismic/kernels/SurfInt.hpp'],
     [('time integrals for faster and slower neighbors', 'AderDg::local'), ('neighboring contributions', 'AderDg::neigh'), ('buffers of the time groups', 'impl/*/inc/time/man_sched.inc')],
     'exact polynomial solutions and conservation monitors on real LTS runs', 'The real executable runs on graded random meshes with two to four time groups; every element out of reach of the boundary is compared with the exact solution at the end; totals and energy at every synchronization point.',
     observe=['state of all elements at synchronization points'], hook='state dump at synchronization points')
prop('C08', 'Whole simulations reproduce exact solutions, conserve and keep symmetries',
     'For any mesh, element type, order, material and set of fused initial values, a simulation keeps solutions of the elastic wave and advection equations exact that are polynomials of a degree below the order, also across material interfaces and at free surfaces; totals of conserved quantities stay constant in periodic domains, the elastic energy never grows with free surface, outflow or periodic boundaries, and shifted periodic initial values give shifted results. Shallow water simulations keep a lake at rest over any bathymetry with dry land and a constant stream, and reflecting or periodic domains keep the volume of water while waves move, with bathymetry and displacements of the mesh or initial values from expressions.',
     ['inputs', 'configurations'], 'all meshes, materials, boundaries, initial values, element types, orders and fused runs',
     'The unit tests never put mesh, setup, kernels and time stepping together.',
     ['src/main.cpp', 'src/impl/seismic/setup.inc', 'src/impl/advection/setup.inc', 'src/impl/swe/setup.inc', 'src/setups/InitialDofs.hpp', 'src/impl/seismic/solvers/AderDg.hpp', 'src/impl/seismic/solvers/AderDgInit.hpp', 'src/dg/Basis.cpp', 'src/mesh/EdgeV.cpp'],
     [('set up of equations, initial values and boundaries', 'src/impl/*/setup.inc, InitialDofs.hpp'), ('time steps', 'src/impl/*/solvers')],
     'exact solutions, conservation and symmetry monitors on real runs', 'EDGE-V and EDGE run on random meshes and their states at synchronization points are compared with exact solutions of the equations or conserved totals; sampled scenarios, double precision.',
     observe=['state of all elements at synchronization points'], hook='state dump at synchronization points')

prop('C11', 'Receivers record the solution at their location for every sampling time',
     'For any mesh, element type, order, number of fused simulations, time groups, ranks, threads and sampling interval, every receiver of a seismic simulation produces exactly one file with the samples at the times 0, f, 2f, ... before the end time, each exactly once and in ascending order, no matter how many samples fall into a time step or how often the buffers are written. A sample has the values of the polynomial solution of all quantities and fused simulations at the location of the receiver and the sampling time, also inside of time steps; receivers outside of the mesh are moved to the closest point of the closest element; the header gives name, specified and projected coordinates; extracting columns of a receiver gives exactly its (sub-sampled) values.',
     ['inputs', 'configurations', 'schedules'], 'all meshes, receiver locations (also at vertices, faces and outside), sampling intervals, time groups, ranks and threads',
     'Receivers are not part of the tests which are built; they interact with time groups, work packages and the scheduler.',
     ['src/io/Receivers.cpp', 'src/io/Receivers.h', 'src/io/FileSystem.hpp', 'src/impl/seismic/solvers/AderDg.hpp', 'src/impl/seismic/inc/time/man_sched.inc', 'src/dg/TimePred.hpp', 'src/data/SparseEntities.hpp', 'src/linalg/Geom.hpp', 'tools/processing/recvs_extract_cols.py'],
     [('set up and buffers', 'Receivers::init, writeRecvAll, flushIf'), ('samples inside of time steps', 'AderDg.hpp: local, TimePred::evalTimePrediction'), ('location', 'SparseEntities::ptToEn, Geom::closestPoint')],
     'exact-solution monitors on receiver files of real runs', 'Files of real runs are compared with exact polynomial solutions (elements which the boundary has not reached, and the first step) and with the exact list of sampling times; sampled scenarios.',
     observe=['receiver files', 'state dump for the location of elements'], hook='delays in workers')

prop('C07', 'Fused simulations are independent of each other',
     'A simulation which fuses several forward runs gives every one of them the results of a simulation of its own: for any mesh, material, time groups and initial values, sources and receivers per run, the states, anelastic quantities and recorded seismograms of run i equal those of a non-fused simulation with the settings of run i up to rounding relative to the size of run i, no matter how large or small the other runs are, whether they are zero or not finite, and in which order the runs are given. (Shallow water runs share the time step; for them reordering the runs reorders the results.)',
     ['inputs', 'configurations'], 'all equations, fused counts, initial values, sources, receivers and orders of the runs',
     'The tests run kernels with the same number of fused simulations only and never compare with non-fused ones.',
     ['src/impl/seismic/solvers/AderDg.hpp', 'src/impl/advection/solvers/AderDg.hpp', 'src/impl/swe/solvers/FiniteVolume.hpp', 'src/impl/seismic/kernels', 'src/impl/seismic/setups/PointSources.hpp', 'src/setups/InitialDofs.hpp', 'src/io/Receivers.cpp', 'src/dg/TimePred.hpp', 'src/dg/VolInt.hpp', 'src/data/MmVanilla.hpp', 'src/data/MmXsmmFused.hpp', 'src/data/MmXsmmSingle.hpp'],
     [('kernels with fused runs as fastest dimension', 'src/dg, src/impl/*/kernels'), ('sources per fused run', 'PointSources.hpp: elSpPs, apply'), ('initial values per fused run', 'InitialDofs.hpp')],
     'differential monitoring of fused and non-fused runs', 'Two builds of the real program, fused and not fused, on the same generated scenarios; runs of very different size next to each other make any mixing visible. Sampled scenarios, double precision.',
     observe=['state of all elements at synchronization points', 'receiver files'], hook='state dump at synchronization points')
prop('C12', 'Point sources add the integral of their time series at their location',
     'For any mesh, time groups, ranks, fused runs and set of point sources (any number per element, in any order, also outside of the mesh), a seismic simulation adds for every source, quantity and time interval exactly scaling times the integral of the linearly interpolated time series over the part of the interval covered by its samples. After one step the element holding a source has the projection of a point load at the source location, moved to the closest point of the mesh if required, and all other elements are unchanged; each source is applied in exactly one element. In periodic homogeneous media the totals of all quantities (of the velocities in attenuating media) equal the integrated contributions of the sources at every time, and elements out of reach of the sources stay zero.',
     ['inputs', 'configurations', 'schedules'], 'all meshes, source locations, scalings, time series, time groups, partitions and fused runs',
     'Unit tests of point sources are not part of the build; sources interact with time groups, sparse elements and work packages.',
     ['src/impl/seismic/setups/PointSources.hpp', 'src/linalg/Series.hpp', 'src/impl/seismic/steps.inc', 'src/impl/seismic/setup.inc', 'src/impl/seismic/inc/time/man_sched.inc', 'src/data/SparseEntities.hpp', 'src/dg/Basis.cpp'],
     [('location and projection', 'PointSources::getIds, initBasisEvals'), ('time series', 'PointSources::initTsData, Series::integrate'), ('work regions of sources', 'setup.inc, man_sched.inc')],
     'exact projection, conservation and causality monitors on real runs', 'States of real runs from zero initial values are compared with the projected point load after one step, with the integrated time series in total and with zero out of reach; sampled scenarios, double precision.',
     observe=['state of all elements at synchronization points'], hook='state dump at synchronization points')
prop('C23', 'Configuration, sparse types, wave field output and error norms are faithful',
     'Every well-formed configuration is taken over as given: mesh, boundary conditions with names and ids, initial and reference expressions per fused run (zero where missing), end time, output, receivers (unnamed ones get their index; without path or positive frequency none are kept), synchronization (default: 5% of the end time, at most the output interval), point sources, attenuation, velocity domains, fault coordinates and rupture setups; malformed files, non-positive intervals, frequencies or quality factors and wrong numbers of point source files are rejected; a domain is the intersection of its half-spaces; entities get the union of the sparse types of all domains which contain all of their vertices. The wave field is written for time zero and all multiples of the interval up to the end by every rank as readable VTK (ASCII or binary), holding exactly the owned elements of the requested sparse type with their vertices and the cell averages of all quantities and runs at that time. Error norms equal the L1, L2 and maximum norms of the difference between solution and reference over the whole mesh, for any number of ranks.',
     ['inputs', 'configurations', 'schedules'], 'all configurations, domains, meshes, output intervals and types, reference solutions, element types, ranks and fused runs',
     'The unit tests parse one domain; no test runs the writers, the norms of a distributed run or a complete configuration.',
     ['src/io/Config.cpp', 'src/io/Config.h', 'src/impl/seismic/io/Config.cpp', 'src/mesh/SparseTypes.hpp', 'src/linalg/Domain.hpp', 'src/linalg/HalfSpace.hpp', 'src/io/WaveField.cpp', 'src/io/Vtk.cpp', 'src/io/ErrorNorms.cpp', 'src/setups/InitialDofs.hpp', 'src/impl/seismic/fin.inc', 'src/impl/advection/fin.inc', 'src/main.cpp'],
     [('configuration', 'src/io/Config.cpp, src/impl/seismic/io/Config.cpp'), ('sparse types', 'src/mesh/SparseTypes.hpp'), ('wave field', 'src/io/WaveField.cpp, src/io/Vtk.cpp'), ('error norms', 'InitialDofs::err, fin.inc')],
     'reference monitors on random configurations, offline checkers of written files against dumped states', 'Parsed values are compared with what was written into random XML; files of complete runs with mini-MPI are compared with the states at the synchronization points and norms of our own quadrature.',
     observe=['files written by EDGE', 'states at synchronization points'], hook='state dump at synchronization points')
prop('C19', 'EDGE-pre generates correct bases, sub-grids, projections, csv files and C++',
     'For every element type (line, tria3, quad4r, tet4, hex8r) and every degree, EDGE-pre generates: orthogonal, hierarchically ordered basis functions with their derivatives; mass, stiffness and flux matrices equal to the integrals of the basis over the reference element and its faces (for every face, neighboring face and vertex orientation); a conforming sub-grid of 2*degree+1 cells per edge whose inner, send and receive sub-cells, vertices, face adjacency, face types and DG-adjacency are consistent with each other and with the geometry; scatter, gather and surface operators which are the cell averages of the basis, its constrained least-squares inverse (gather of scatter is the identity, means are preserved) and the sub-face integrals. Integration and substitution of polynomials are exact for every interval. The csv files of a run hold exactly these arrays for all requested types and degrees, and the conversion to C++ reproduces the rank, extents and values of every csv.',
     ['inputs', 'configurations'], 'all element types, degrees, integrands, arrays and configurations',
     'The tests compare hand-computed entries of single low-degree operators; the remaining types, degrees and the writers are never run.',
     ['tools/edge_pre/edge_pre.py', 'tools/edge_pre/cpp.py', 'tools/edge_pre/edge_pre/dg/basis', 'tools/edge_pre/edge_pre/int', 'tools/edge_pre/edge_pre/io', 'tools/edge_pre/edge_pre/sc', 'tools/edge_pre/edge_pre/types'],
     [('bases and matrices', 'edge_pre/dg/basis, edge_pre/int'), ('sub-grids', 'edge_pre/sc/grid'), ('sub-cell operators', 'edge_pre/sc/ops'), ('output', 'edge_pre/io, cpp.py')],
     'reference monitors on generated data: independent quadrature and geometry', 'All csv files of real runs and results of module calls are compared with an independent implementation (own basis, Gauss quadrature, lattice geometry); generated C++ is compiled and its values printed. Degrees are limited by the run time of the symbolic integration; plots are not judged.',
     observe=['csv files', 'results of module calls', 'compiled C++ arrays'])
prop('C04', 'Threads of EDGE and EDGE-V never race on shared data',
     'In every run of EDGE and EDGE-V with several threads, two threads never access the same memory without ordering if one of them writes: initialization, scheduler and workers, updates of adjacent elements, time groups and their buffers, receivers, point sources, wave field output, error norms and the parallel loops of EDGE-V. The ordering stems from the barriers of OpenMP and the status flags of the work packages.',
     ['schedules', 'configurations'], 'all interleavings, numbers of threads and workers, time groups, ranks, receivers and sources',
     'The unit tests are single-threaded except for the initialization of arrays; races depend on the interleaving.',
     ['src/parallel/Shared.cpp', 'src/time/Manager.cpp', 'src/impl/seismic/inc/time/man_sched.inc', 'src/io/Receivers.cpp', 'src/io/WaveField.cpp', 'src/impl/seismic/setups/PointSources.hpp', 'src/impl/seismic/solvers/AderDg.hpp', 'src/impl/advection/solvers/AderDg.hpp', 'src/impl/swe/solvers/FiniteVolume.hpp', 'tools/edge_v/src'],
     [('status flags of work packages', 'src/parallel/Shared.cpp'), ('dependencies of the regions', 'src/impl/*/inc/time/man_sched.inc'), ('parallel loops', 'tools/edge_v/src')],
     'happens-before race detection (ThreadSanitizer) of complete runs', 'ThreadSanitizer builds with an own OpenMP runtime, whose synchronization it sees; volatile status flags count as acquire/release. Held for the observed executions; complete randomized runs with delays in workers and messages.',
     observe=['all memory accesses of instrumented code'], hook='delays in workers')
prop('C05', 'Runs never access invalid or uninitialized memory or invoke undefined behavior',
     'For every valid mesh and configuration, complete runs of EDGE and EDGE-V (time stepping, receivers, sources, wave fields, error norms, several ranks and threads) access only memory they own, never use uninitialized values and invoke no undefined behavior of the language (overflows, invalid shifts, misaligned or null accesses, indices out of range).',
     ['inputs', 'configurations', 'schedules'], 'all meshes, equations, element types, orders, precisions, fused runs, outputs, ranks and threads',
     'The unit tests cover neither the main program nor output, communication or scheduling, and are not run below sanitizers.',
     ['src/main.cpp', 'src/mesh/EdgeV.cpp', 'src/data/Dynamic.cpp', 'src/io/Receivers.cpp', 'src/io/WaveField.cpp', 'src/io/Vtk.cpp', 'src/parallel/Distributed.cpp', 'src/parallel/MpiRemix.cpp', 'src/impl/seismic/setups/PointSources.hpp', 'src/impl/seismic/solvers/AderDg.hpp', 'tools/edge_v/src'],
     [('memory of elements and communication', 'src/data/Dynamic.cpp, src/parallel/Distributed.cpp'), ('buffers of output', 'src/io'), ('mesh tables', 'tools/edge_v/src/mesh')],
     'AddressSanitizer, UndefinedBehaviorSanitizer and memcheck on complete runs', 'ASan/UBSan builds of five configurations, four further ones and EDGE-V below memcheck for uninitialized values; sampled scenarios. Leaks are not judged; libraries are not instrumented.',
     observe=['all memory accesses of instrumented code'])
