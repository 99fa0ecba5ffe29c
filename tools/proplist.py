MAP = ["hydraxmpm/shapefunctions/mapping.py"]
SHP = ["hydraxmpm/shapefunctions/linear.py", "hydraxmpm/shapefunctions/quadratic.py", "hydraxmpm/shapefunctions/cubic.py"]
LAW = "hydraxmpm/constitutive_laws/"
BLD = ["hydraxmpm/common/builder.py"]

prop("P01", "Shape functions partition unity and reproduce linear fields",
     "For every particle whose interpolation stencil lies inside the grid, the shape function values of its interactions are non-negative and sum to one, their gradients sum to zero, and linear fields and their gradients are reproduced exactly (values for all kernels; gradients for all kernels away from the piecewise-linear kernel's kinks). Values and gradients agree with the B-spline of the chosen order at the particle-node distance, and a gradient is the derivative of the value.",
     ["inputs", "configurations"], "every particle position (also on nodes, on cell boundaries, next to the grid edge), kernel, dimension, cell size and origin",
     "the tests evaluate two or three hand-picked positions; a piecewise polynomial can be wrong on one of its pieces only",
     SHP + MAP, [("kernel polynomials", "hydraxmpm/shapefunctions/"), ("interaction geometry", "hydraxmpm/shapefunctions/mapping.py: ShapeFunctionMapping.compute")])
prop("P02", "Every interaction couples a particle with the node it names",
     "Each particle is connected to exactly the nodes of its stencil, each once; the recorded node id is the one whose position minus the particle position is the recorded distance, and nodes of the stencil that lie off the grid contribute nothing. Gathering from or scattering to the grid therefore addresses the right nodes.",
     ["inputs", "configurations"], "every particle position inside or outside the domain, grid shape, padding, kernel, dimension",
     "tests use one square grid and central positions; asymmetric grids, edges and outside particles are never reached",
     MAP + ["hydraxmpm/grid/grid.py"], [("interaction ids", "hydraxmpm/shapefunctions/mapping.py"), ("grid numbering", "hydraxmpm/grid/grid.py: GridDomain")])
prop("P03", "Particle-to-grid transfer conserves and superposes",
     "After the transfer every grid node holds the sum over all selected bodies on that grid of the kernel-weighted mass, momentum (including the affine part) and internal force of their points; totals over the grid equal the totals of the points. Internal forces sum to zero.",
     ["inputs", "configurations"], "all point sets, kernels, schemes, several bodies and grids, stresses, affine fields",
     "tests check one two-point configuration with a single body; superposition of bodies, stress contributions and 3D are not sampled",
     SOLV, [("p2g", "hydraxmpm/solvers/usl.py, usl_asflip.py: p2g")])
prop("P04", "A step balances momentum",
     "Over a step the momentum of the material points changes exactly by dt times the external forces acting on them, and is conserved without external force, contact, damping or speed limiting. Grid momenta advance by dt times the nodal force.",
     ["inputs", "histories", "configurations"], "all states, steps, bodies, stresses and blending parameters for which no clamp is active",
     "no test checks the momentum of a whole step; conservation has to hold for every state",
     SOLV, [("step", "hydraxmpm/solvers/usl.py: __call__"), ("grid update", "hydraxmpm/solvers/")])
prop("P05", "Uniform motion and Galilean invariance",
     "A stress-free body in uniform motion (or free fall) keeps moving uniformly and stays undeformed, whatever its arrangement of points; adding a constant velocity to everything adds the same velocity to the result of a step and changes no strain, stress or volume.",
     ["inputs", "configurations", "histories"], "all arrangements, masses, velocities, kernels, schemes and blending parameters below the speed limit",
     "tests compare one configuration to stored numbers",
     SOLV, [("g2p", "hydraxmpm/solvers/usl.py, usl_asflip.py: g2p")])
prop("P06", "Velocity gradients are the gradient of the grid velocity",
     "After a step every point's velocity gradient equals the kernel-gradient (or moving-least-squares) estimate of the updated grid velocity field with the package's sign (compression positive), and the affine field stored for the next transfer represents the same field; affine velocity fields are reproduced exactly.",
     ["inputs", "configurations"], "all velocity fields, kernels, schemes and positions inside the domain",
     "tests use two points and one field; a transposed or mis-signed gradient agrees with symmetric fields",
     SOLV, [("g2p", "hydraxmpm/solvers/"), ("affine update", "hydraxmpm/solvers/usl_asflip.py")])
prop("P07", "Deformation gradient, volume and history stay consistent",
     "A step multiplies the deformation gradient by the increment of its velocity gradient, the volume equals the reference volume times the determinant, and the stored full history deformation follows the same product without ever being reset; masses and reference volumes never change and plane problems stay plane.",
     ["inputs", "histories"], "all sequences of velocity gradients, laws that reset the shear part, 2D and 3D",
     "tests take a single step from the identity",
     SOLV, [("F update", "hydraxmpm/solvers/"), ("shear reset", "hydraxmpm/solvers/")])
prop("P08", "Velocities and positions follow the documented blending",
     "Particle velocity is the documented blend of the interpolated new grid velocity and its increment added to the old velocity; positions move with the interpolated velocity plus the scheme's position correction, and the speed limit bounds every particle's speed to the given fraction of a cell per step.",
     ["inputs", "configurations"], "all blending parameters (static and support-dependent), expansion or compression, velocities above and below the limit",
     "tests use one alpha; the branches on compression, isolation and speed limit are never separated",
     SOLV, [("blending", "hydraxmpm/solvers/usl_asflip.py: g2p"), ("FLIP/PIC", "hydraxmpm/solvers/usl.py: g2p")])
prop("P09", "A step commutes with the symmetries of the problem",
     "Translating everything with its grid, permuting or mirroring axes, changing units of length, time and mass consistently, reordering points and registrations, or splitting a body of identical law into two, transforms the result in the same way and changes nothing else.",
     ["inputs", "configurations"], "all scenarios and all listed transformations, schemes, kernels, dimensions",
     "symmetries relate pairs of runs; no test runs the solver twice",
     SOLV + MAP, [("index arithmetic", "hydraxmpm/shapefunctions/mapping.py"), ("builder order", "hydraxmpm/common/builder.py")])
prop("P10", "Bodies on different grids do not influence each other",
     "Removing from a simulation everything on one grid leaves the motion, strain and stress of the bodies on the other grids unchanged.",
     ["configurations", "histories"], "all combinations of bodies, grids, laws and kernels",
     "no test uses more than one grid",
     SOLV + BLD, [("couplings", "hydraxmpm/solvers/coupling.py"), ("solver binding", "hydraxmpm/common/builder.py: set_solver")])
prop("P11", "Forces act exactly on their targets",
     "Gravity adds mass times acceleration, damping opposes motion in proportion to the unbalanced force, each exactly on the grids or material points it was registered for and only if the solver selected it; several forces superpose and each keeps its own state whatever the registration order.",
     ["configurations", "inputs"], "all force lists, targets, selections and registration orders",
     "tests apply one gravity to one body; index confusion needs two of each",
     ["hydraxmpm/forces/gravity.py", "hydraxmpm/forces/damping.py"] + BLD, [("force slots", "hydraxmpm/common/builder.py"), ("gravity", "hydraxmpm/forces/gravity.py"), ("damping", "hydraxmpm/forces/damping.py")])
prop("P12", "A solver works on exactly what it was given",
     "A solver advances exactly the couplings selected for it, each with the grid, kernel, law and points it was registered with; unselected bodies are left untouched, and every law sees the state of its own body only.",
     ["configurations", "histories"], "all selections, numbers of bodies, grids, laws and registration orders",
     "tests have a single coupling",
     BLD + SOLV, [("set_solver", "hydraxmpm/common/builder.py"), ("couplings", "hydraxmpm/solvers/coupling.py")])
prop("P13", "Contact keeps material out and obeys Coulomb friction",
     "On every grid node inside (or within one cell of) a collider the velocity after contact does not point further into it relative to the collider, never pulls, and its tangential change is limited by the friction coefficient times the normal change; separating nodes, nodes outside, and grids the collider was not registered for are untouched.",
     ["inputs", "configurations"], "all collider shapes, positions, motions, friction values, gaps and grid velocities",
     "the single rigid-body test checks one wall position; friction cones and separation are case distinctions on inputs",
     ["hydraxmpm/forces/sdf_collider.py", "hydraxmpm/sdf/sdfobject.py"], [("apply_frictional_contact", "hydraxmpm/forces/sdf_collider.py")])
prop("P14", "Rigid objects move rigidly",
     "A collider with linear and angular velocity advances its centre by the velocity and its orientation by the angular velocity, keeping a unit quaternion; the wall velocity it imposes on a point is the velocity of the rigid motion at that point, and distances seen from the body do not change.",
     ["inputs", "histories"], "all velocities, rotations, time steps, numbers of steps, 2D and 3D",
     "drift and composition of rotations only show over histories",
     ["hydraxmpm/sdf/sdfobject.py", "hydraxmpm/forces/sdf_collider.py"], [("rigid state update", "hydraxmpm/forces/sdf_collider.py"), ("quaternions", "hydraxmpm/sdf/sdfobject.py")])
prop("P15", "Signed distances describe the shapes",
     "Every primitive's signed distance has the documented sign inside and outside, is zero exactly on its surface, never exceeds the true distance to it in magnitude (1-Lipschitz), and its normal is the unit outward gradient; rotating, shifting and combining shapes gives the distance of the transformed or combined shape, with the friction of the closest part.",
     ["inputs", "configurations"], "all points, sizes, rotations, shifts, combinations, 2D and 3D",
     "there are no tests of the shapes",
     ["hydraxmpm/sdf/sdfcollection.py", "hydraxmpm/sdf/sdfobject.py"], [("signed distances", "hydraxmpm/sdf/sdfcollection.py"), ("world transform", "hydraxmpm/sdf/sdfobject.py")])
prop("P16", "Sampled objects have the distance their samples define",
     "A voxel object's distance is the interpolation of its table at the point brought into the object's frame and scale, less the thickness; its normals are the directions of steepest increase, its bounds enclose it, bodies generated in it hold exactly the lattice points inside; tables that are not three-dimensional are refused. A cloud of material points has the (blended) union of the spheres of the points' initial volumes as its distance, and normals to match.",
     ["inputs", "configurations"], "all tables, boxes, scales, thicknesses and poses; all clouds, volumes and blends in 2D and 3D", "no test uses either object", ["hydraxmpm/sdf/gridsdf.py", "hydraxmpm/sdf/sdfcollection.py", "hydraxmpm/utils/generate_body.py"],
     [("GridSDF", "hydraxmpm/sdf/gridsdf.py"), ("MaterialPointCloudSDF", "hydraxmpm/sdf/sdfcollection.py")])
prop("P18", "Linear elasticity follows Hooke's law for every history",
     "The stress after any sequence of strain increments is the initial stress plus the isotropic Hooke response to the accumulated strain (compression positive), with moduli determined by Young's modulus and Poisson ratio; it does not depend on rotation-free path, time step or other points.",
     ["inputs", "histories"], "all parameters, initial stresses and sequences of velocity gradients",
     "the test applies one hand-computed increment", [LAW + "linearelastic.py"], [("update", LAW + "linearelastic.py")])
prop("P19", "Drucker-Prager stress stays admissible with correct flow",
     "After every update the stress lies inside or on the Drucker-Prager surface with the current cohesion; elastic steps do not yield, plastic steps return to the cone or its apex with the documented dilatancy, plastic strain never decreases and cohesion hardens with it, and a disconnected (too loose) material carries no stress.",
     ["inputs", "histories"], "all parameters (cohesion, dilatancy, hardening), states and loading histories",
     "no test exercises this law; the branches depend on history", [LAW + "druckerprager.py"], [("return mapping", LAW + "druckerprager.py")])
prop("P20", "Modified Cam clay stays admissible with correct hardening",
     "After every update the stress lies inside or on the yield ellipse of the current preconsolidation pressure; yielding ends on the surface, hardens when the plastic volume contracts and softens when it dilates, with elastic response of the pressure-dependent moduli inside, and a specific volume beyond the limit carries no stress.",
     ["inputs", "histories"], "all parameters, overconsolidation ratios, moduli bounds and loading histories",
     "the test takes a few steps of one path", [LAW + "modifiedcamclay.py"], [("return mapping", LAW + "modifiedcamclay.py")])
prop("P21", "Newtonian fluid pressure and viscous stress",
     "The stress of the Newtonian fluid is the equation-of-state pressure of the current density (never tensile) plus twice the viscosity times the deviatoric rate of compression, independent of history and of other points; viscous stresses dissipate.",
     ["inputs", "histories"], "all parameters, densities and rates", "the test checks one density and one rate", [LAW + "newtonfluid.py"], [("update", LAW + "newtonfluid.py")])
prop("P22", "mu(I) rheology is frictional, bounded and never tensile",
     "Stress is zero at or below the reference density; above it, pressure is the documented linear law and the shear stress is coaxial with the shear rate with friction between the static and dynamic coefficients growing with the inertial number.",
     ["inputs", "histories"], "all parameters, densities and rates including zero and very fast shear", "no test exercises this law", [LAW + "mu_i_rheology.py"], [("update", LAW + "mu_i_rheology.py")])
prop("P23", "Constitutive laws are objective",
     "Rotating a point's initial state and its velocity gradients rotates its stress and leaves every scalar state variable unchanged; a rigid spin turns the stress of the rate-form plastic laws with the body without changing invariants to first order. A law changes the stress, its own state and nothing else.",
     ["inputs", "histories"], "all laws, rotations and histories", "objectivity relates pairs of runs", [LAW + f for f in ("druckerprager.py", "modifiedcamclay.py", "linearelastic.py", "newtonfluid.py", "mu_i_rheology.py")], [("Jaumann increment", "hydraxmpm/utils/math_helpers.py")])
prop("P24", "Initial states are consistent",
     "Each way of creating a law's initial state from pressure, stress, density or overconsolidation ratio yields mutually consistent stress, density, preconsolidation and reference values, such that the law keeps the state under a zero velocity gradient and the round trip pressure-density-pressure is exact.",
     ["inputs", "configurations"], "all parameters, pressures, deviatoric stresses, densities and ratios", "the test checks one state", [LAW + "modifiedcamclay.py", LAW + "newtonfluid.py", LAW + "mu_i_rheology.py", LAW + "druckerprager.py"], [("create_state*", LAW)])
prop("P25", "Critical time steps bound the wave speed",
     "The critical time step of a law equals the safety factor times the cell size over the largest sum of elastic wave speed and particle speed, for every set of points; it scales linearly with the cell size.",
     ["inputs", "configurations"], "all laws with a time step estimate, parameters, densities and speeds", "no test calls it", [LAW + "druckerprager.py", LAW + "linearelastic.py", LAW + "newtonfluid.py"], [("get_dt_crit", LAW)])
prop("P26", "Element tests impose their boundary conditions",
     "Wherever its lateral iteration converges, a drained triaxial test keeps the lateral stress at its confinement, a constant-pressure test keeps the mean pressure, an undrained test keeps the volume, all while imposing the axial rate at every step; the single-step driver applies exactly the requested velocity gradient, deformation and time step.",
     ["inputs", "configurations", "histories"], "all laws, rates, confinements, modes and output strides", "no test drives them", ["hydraxmpm/element_tests/driver.py", "hydraxmpm/element_tests/triaxial_test.py"], [("Newton iteration", "hydraxmpm/element_tests/triaxial_test.py"), ("driver", "hydraxmpm/element_tests/driver.py")])
prop("P27", "Saved simulations load back exactly",
     "Loading a saved step returns exactly the state saved under that step number last, every other saved step staying as it was, and continuing from it gives the same run as never having stopped; starting a writer in overwrite mode discards the old run's files and only those.",
     ["histories", "configurations", "crash_points"], "all sequences of creating writers, saving, stepping and loading, at any stopping point", "no test saves anything", ["hydraxmpm/common/sim_io.py"], [("save_step", "hydraxmpm/common/sim_io.py"), ("load_simulation", "hydraxmpm/common/sim_io.py")])
prop("P28", "Stepping is deterministic bookkeeping",
     "Every step advances the step counter by one and time by the current time step; running n then m steps equals running n+m, compiled and uncompiled, and the same build gives the same result.",
     ["histories", "configurations", "schedules"], "all splits of a run, jit or eager, schemes", "relates runs; no test runs more than a handful of steps", SOLV + ["hydraxmpm/common/simstate.py"], [("step", "hydraxmpm/solvers/")])
prop("P29", "Grid geometry and numbering agree",
     "A grid covers the requested domain plus padding with cells of exactly the requested size, its number of nodes is the product of its sizes, and node positions, flat numbering and per-axis sizes agree with each other.",
     ["inputs", "configurations"], "all origins, extents, cell sizes, paddings and dimensions", "the tests use round numbers, where rounding errors cannot show", ["hydraxmpm/grid/grid.py"] + BLD, [("GridDomain", "hydraxmpm/grid/grid.py")])
prop("P30", "Builders and generators give points with the requested properties",
     "Points created from positions with particles per cell, density or mass have consistent mass, volume and density; generated bodies contain exactly the regular lattice points of the requested spacing inside the shape, none outside.",
     ["inputs", "configurations"], "all shapes, spacings, particles per cell, densities, partial arguments", "tests check default construction of two points", ["hydraxmpm/material_points/material_points.py", "hydraxmpm/utils/generate_body.py"] + BLD, [("defaults", "hydraxmpm/material_points/material_points.py"), ("generate_particles", "hydraxmpm/utils/generate_body.py")])
prop("P31", "Tensor helpers agree with continuum mechanics",
     "Pressure, deviator, invariants, strain measures and rates, spin, Jaumann increments and stress reconstruction agree with their continuum-mechanics definitions for single tensors and stacks, and are mutually consistent.",
     ["inputs"], "all tensors and stacks, also zero, isotropic and nearly singular", "no test calls most helpers", ["hydraxmpm/utils/math_helpers.py"], [("helpers", "hydraxmpm/utils/math_helpers.py")])
prop("P32", "Exported views show the state",
     "Files and streams written for visualisation contain every particle at its position with the values of the named property and the radius of its initial volume, under the given label, step and time; a drawn domain is the grid's box; a drawn boundary is the whole zero level set of the object within the requested window, with one-sided normals; views exported earlier under other labels or steps stay as they are; a visualizer in save mode saves.",
     ["inputs", "histories"], "all particle sets, properties (named, unknown or none), labels, steps, times, windows, resolutions and objects in 2D and 3D, and sequences of exports", "no test exports anything", ["hydraxmpm/common/vtk_io.py", "hydraxmpm/common/rerun.py"],
     [("VTKVisualizer", "hydraxmpm/common/vtk_io.py"), ("RerunVisualizer", "hydraxmpm/common/rerun.py")])
