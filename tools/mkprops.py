import json
S2="sopht/numeric/eulerian_grid_ops/stencil_ops_2d/"; S3="sopht/numeric/eulerian_grid_ops/stencil_ops_3d/"
P2="sopht/numeric/eulerian_grid_ops/poisson_solver_2d/"; P3="sopht/numeric/eulerian_grid_ops/poisson_solver_3d/"
IB="sopht/numeric/immersed_boundary_ops/"; U="sopht/utils/"
TESTS="The tests run one square/cubic grid (n=16) per kernel, always with a fixed grid size and the physical core count, on one random (or constant) field, one call per generated kernel"
props=[]
def add(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":m,"where":w} for m,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":me,"where":w} for n,me,w in state]
    props.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

add("C01","Advection is the conservative upwind ENO3 scheme on every grid",
"In 2D and 3D, the advection flux kernel adds, to every cell at least two cells away from all boundaries, inverse-dx times the sum over axes of front-face minus back-face third-order ENO fluxes, each face upwinded by the sign of the sum of its two adjacent velocities, and leaves every other cell bit-for-bit unchanged; neighbouring cells see the same face flux, so compactly supported fields lose nothing. The Euler-forward advection timestep (scalar, and vector in 3D: every component) equals field minus dt/dx times that flux whatever the flux buffer held before, keeps the two-cell boundary layer of the field, and does not modify the velocity.",
["inputs","configurations","histories"],"All field/velocity contents (including sign changes, ties and zero velocity), all grid shapes and aspect ratios, both precisions, all thread counts, fixed or free grid size, any sequence of calls.",
TESTS+"; non-square grids, dirty flux buffers, repeated steps, free grid size, velocity patterns and conservation are not reached.",
[S2+"advection_flux_2d.py",S2+"advection_timestep_2d.py",S3+"advection_flux_3d.py",S3+"advection_timestep_3d.py"],
[("separate front and back face stencils per axis accumulated into advection_flux",S2+"advection_flux_2d.py"),("flux buffer zeroed, flux with -dt/dx, sum",S3+"advection_timestep_3d.py")],
["arguments and arrays of each generated advection kernel before and after every call"])

add("C02","Diffusion is the second-order Laplacian, with the documented boundary handling",
"In 2D and 3D, the diffusion flux kernel writes prefactor times the standard 5-point (7-point) Laplacian sum of the field into every interior cell for scalar fields, and component by component for 3D vector fields; the outermost cell layer of the flux is set to zero when ghost-zone reset is on and left untouched when it is off. The Euler-forward diffusion timestep adds exactly that flux to the field (each component of a vector field), independent of what the flux buffer held, and leaves the outermost layer of the field unchanged.",
["inputs","configurations","histories"],"All fields, prefactors, grid shapes, precisions, thread counts, fixed or free grid size, with and without ghost-zone reset, any sequence of calls.",
TESTS+"; unequal axes, stale buffers, repeated calls and ghost reset off in the step are not reached.",
[S2+"diffusion_flux_2d.py",S2+"diffusion_timestep_2d.py",S3+"diffusion_flux_3d.py",S3+"diffusion_timestep_3d.py"],
[("Laplacian stencil kernel, then boundary reset of width 1",S3+"diffusion_flux_3d.py")],["arrays of each diffusion kernel before and after every call"])

add("C03","Curl and divergence are the exact central-difference operators",
"The in-plane curl, out-of-plane curl (2D), curl and divergence (3D) kernels write prefactor times the central differences with the right-handed component/axis pairing (x,y,z components against the reversed z,y,x array axes) into every interior cell, the divergence including its factor one half; the outermost layer is zero with ghost reset and untouched without it. Consequently the discrete divergence of a discrete curl, and the curl of a discrete gradient, vanish to rounding on any grid.",
["inputs","configurations"],"All vector/scalar fields, all grid shapes with unequal axes, both precisions, thread counts, fixed or free grid size, ghost reset on/off.",
TESTS+"; axis mix-ups that cancel on cubic grids or symmetric data, ghost reset off, and the vector identities are not reached.",
[S2+"inplane_field_curl_2d.py",S2+"outplane_field_curl_2d.py",S3+"curl_3d.py",S3+"divergence_3d.py"],
[("one pystencils kernel per component",S3+"curl_3d.py")],["arrays of each curl/divergence kernel before and after every call"])

add("C04","Vorticity update adds exactly the curl of the forcing",
"Updating vorticity from a velocity forcing adds prefactor times the central-difference curl of the forcing to every interior cell of the vorticity (each component in 3D) and nothing elsewhere; updating from a penalised velocity adds prefactor times the curl of (penalised minus original velocity), so it agrees with the forcing update for the difference field and changes nothing when both velocities are equal. The velocity and forcing fields are never modified.",
["inputs","configurations","histories"],"All fields, prefactors, grid shapes, precisions, thread counts, fixed or free grid size, repeated accumulation.",
TESTS+"; accumulation over several calls, unequal axes, equal velocities, and boundary preservation with non-trivial boundary data are not reached.",
[S2+"update_vorticity_from_velocity_forcing_2d.py",S3+"update_vorticity_from_velocity_forcing_3d.py"],
[("in-place per-component update stencils",S3+"update_vorticity_from_velocity_forcing_3d.py")],["arrays of each update kernel before and after every call"])

add("C05","Vorticity stretching flux and time steps follow their schemes",
"The 3D stretching flux kernel writes prefactor times the vorticity dotted with the central-difference gradient of each velocity component into interior cells and zero into the outermost layer; the Euler-forward step adds it once, and the SSP-RK3 step performs the three-stage strong-stability-preserving Runge-Kutta combination of it. Neither step depends on previous contents of the flux or mid-step buffers, modifies the velocity, or changes the outermost vorticity layer beyond rounding.",
["inputs","configurations","histories"],"All vorticity/velocity fields, step sizes, grid shapes, precisions, thread counts, fixed or free grid size, repeated steps with dirty buffers.",
TESTS+"; the test's own SSP-RK3 reference copies the implementation's coefficients, and repeated steps and unequal axes are not reached.",
[S3+"vorticity_stretching_flux_3d.py",S3+"vorticity_stretching_timestep_3d.py"],
[("three per-component flux kernels then boundary reset",S3+"vorticity_stretching_flux_3d.py"),("stage combination through elementwise sum and saxpby",S3+"vorticity_stretching_timestep_3d.py")],["arrays of each stretching kernel before and after every call"])

add("C06","The Laplacian filter removes exactly the n-fold filtered content",
"The multiplicative filter of order n >= 1 replaces the field by the field minus n applications of the product of the three one-dimensional discrete Laplacian operators; the convolution filter subtracts, axis after axis (x, y, z), n applications of the one-dimensional operator; intermediate values on the outermost layer count as zero. Results depend only on the field being filtered, not on the two scratch buffers or on earlier calls, apply to each component of a vector field independently, and leave the outermost layer unchanged.",
["inputs","configurations","histories"],"All scalar/vector fields, filter orders n >= 1, both filter types, grid shapes, precisions, thread counts, fixed or free grid size, reuse of the same buffers by several filters.",
TESTS+"; orders above 2, reused dirty buffers, repeated application and unequal axes are not reached.",
[S3+"laplacian_filter_3d.py"],[("ping-pong between filter flux buffer and field buffer with zeroed flux boundary",S3+"laplacian_filter_3d.py")],["field and buffers before and after every filter call"])

add("C07","Brinkmann penalisation is the exact implicit pointwise blend",
"For scalar and vector fields in 2D and 3D (and for a fixed target value in 2D), every cell of the penalised field equals (field + factor*chi*target)/(1 + factor*chi), component by component: outside the body (chi = 0) the field is returned unchanged (up to rounding), and elsewhere the result lies between the field and the target and approaches the target as the factor grows. Every cell of the array is written and the inputs are not modified.",
["inputs","configurations"],"All fields, characteristic functions in [0,1], penalty factors from 0 to very large, grid shapes, precisions, thread counts, fixed or free grid size, in-place or separate output.",
TESTS+"; extreme factors, chi exactly 0/1, boundedness, in-place use and unequal axes are not reached.",
[S2+"brinkmann_penalise_2d.py",S3+"brinkmann_penalise_3d.py"],[("pointwise pystencils kernel, reused per component",S2+"brinkmann_penalise_2d.py")],["arrays of each penalisation kernel before and after every call"])

add("C08","Level sets map to a monotone, bounded smoothed Heaviside",
"The characteristic function is 0 where the level set is below minus the blend width, 1 where it is above plus the blend width, and (1 + s + sin(pi s)/pi)/2 with s = level set / blend width in between, in every cell in 2D and 3D. It therefore always lies in [0,1], is non-decreasing in the level set, satisfies chi(phi) + chi(-phi) = 1, is continuous at the band edges, and different generated kernels keep their own blend width.",
["inputs","configurations","histories"],"All level-set values including band edges, zero, large magnitudes; all blend widths; shapes, precisions, thread counts, fixed or free grid size; several kernels with different widths alive together.",
TESTS+" and one blend width; edges of the band, other widths and extreme values are not reached.",
[S2+"char_func_from_level_set_2d.py",S3+"char_func_from_level_set_3d.py"],[("piecewise pystencils kernel",S2+"char_func_from_level_set_2d.py")],["level set and characteristic field at every call"])

add("C09","Boundary penalisation damps only the boundary zone, sinusoidally",
"For zone width w >= 1, boundary penalisation first along x, then y (then z), replaces each of the w outermost layers by the value of the innermost layer of the zone times sin(pi/2 * distance from the first (last) grid coordinate / (w dx)); cells outside all zones are bit-for-bit unchanged, and the outermost layers become zero. Width zero changes nothing; in 3D vector fields are penalised component by component; every width from 0 to half the grid works.",
["inputs","configurations"],"All fields, all widths, grid coordinates with any origin and spacing, non-square grids, both precisions, thread counts, fixed or free grid size, repeated calls.",
TESTS+" and width 2 (or one grid family); other widths, offsets of the coordinate grid, unequal axes, and vector width 0 are not reached.",
[S2+"penalise_field_boundary_2d.py",S3+"penalise_field_boundary_3d.py"],[("numpy copy of the zone's inner layer followed by sliced sine kernels",S2+"penalise_field_boundary_2d.py")],["field before and after every call"])

add("C10","Elementwise and boundary-setting kernels touch exactly their cells, correctly",
"Sum, copy, set-value, add-value, a*x+b*y, complex product and (3D) cross product compute their pointwise formula in every cell, scalar or per vector component with that component's own constant; sum, add-value and a*x+b*y also when the output is one of the inputs. Setting values at boundaries writes the constant to exactly the cells within the given width of some face and leaves every other cell bit-for-bit unchanged.",
["inputs","configurations"],"All field contents, constants, coefficients, widths, grid shapes, strided views and aliasing of output with input, both precisions, thread counts, fixed or free grid size.",
TESTS+"; aliasing, strided views, widths other than the tested one, unequal axes and distinct per-component constants are not reached.",
[S2+"elementwise_ops_2d.py",S3+"elementwise_ops_3d.py"],[("pointwise pystencils kernels; sliced iteration for boundaries",S3+"elementwise_ops_3d.py")],["arrays of each kernel before and after every call"])

add("C11","Kernels have no hidden state and no side effects outside their outputs",
"Every generated 2D/3D grid kernel modifies only the arrays and the cells it documents as outputs: input arrays, cells outside the written region, and memory around or between the passed views stay bit-for-bit the same. What it writes depends only on its documented inputs, not on previous contents of output or scratch arrays, on how often it was called, or on other kernels generated before or called in between.",
["inputs","histories","configurations"],"All generators and options, all interleavings of calls to several live kernels with different precision, shape, width and options, dirty output and scratch arrays.",
TESTS+"; each kernel is generated alone, called once, with buffers in one fixed initial state, and inputs are never compared afterwards.",
["sopht/numeric/eulerian_grid_ops/stencil_ops_2d/__init__.py","sopht/numeric/eulerian_grid_ops/stencil_ops_3d/__init__.py"],
[("pure stencil kernels closed over their generation options",S2),("explicit zeroing of flux buffers and ghost zones",S3)],["all arrays passed to each kernel, and guard memory around them, before and after every call"])

add("C12","Grid kernels never access memory outside the arrays they are given",
"For every generated 2D/3D kernel and every grid shape it accepts (including the smallest shapes, fixed and free grid size, serial and multi-threaded, whole arrays and component views), the compiled code reads and writes only inside the passed arrays and executes no undefined behaviour.",
["inputs","configurations"],"All generators and options, grid shapes down to the stencil width and below, thread counts, precisions, exact-size heap allocations.",
TESTS+" without any memory checking; out-of-bounds reads that are later overwritten or land in the heap go unnoticed.",
["sopht/numeric/eulerian_grid_ops/stencil_ops_2d/__init__.py","sopht/numeric/eulerian_grid_ops/stencil_ops_3d/__init__.py",U+"pyst_kernel_config.py"],
[("automatic ghost layers and iteration slices of the generated loops",U+"pyst_kernel_config.py")],["AddressSanitizer/UBSan reports from the compiled kernels"])

add("C13","Multi-threaded kernels are data-race free and thread-count independent",
"Generated with any number of threads, every kernel and every composite step (time steps, filters, Poisson solver grid operations) executes without a data race between its worker threads, and gives, up to rounding, the same result as the serial version for every thread count, including more threads than rows.",
["schedules","configurations","inputs"],"All thread schedules and thread counts, all generators, grid shapes from tiny to larger than the thread count, aliasing patterns the library itself uses internally.",
TESTS+"; one schedule at one thread count is sampled and races that happen to resolve correctly pass.",
["sopht/numeric/eulerian_grid_ops/stencil_ops_2d/__init__.py","sopht/numeric/eulerian_grid_ops/stencil_ops_3d/__init__.py",U+"pyst_kernel_config.py"],
[("OpenMP loops over independent cells; out-of-place stencils through buffers",S3+"laplacian_filter_3d.py")],["every compiled-kernel invocation (arrays, aliasing, scalars) replayed under ThreadSanitizer; outputs per thread count"])

add("C14","Generation options change speed, never results",
"The same operation generated with a fixed grid size or for free grid sizes, on contiguous arrays or (free size) on strided views, and in single or double precision gives the same result up to the rounding of the precision in use; a kernel generated for one fixed size or precision rejects arrays of another size or precision instead of computing on them.",
["configurations","inputs"],"All generators, grid shapes, options, precisions, array layouts.",
TESTS+"; free-size kernels and strided arguments are only used inside the Poisson solver and never compared with fixed-size ones, and rejections are untested.",
[U+"pyst_kernel_config.py",U+"precision.py",S2+"advection_flux_2d.py",S3+"elementwise_ops_3d.py"],
[("grid_info string chosen from fixed_grid_size, dtype from real_t",U+"pyst_kernel_config.py")],["outputs of differently configured kernels on identical data; exceptions on mismatched arrays"])

add("C15","The unbounded Poisson solver convolves with the free-space Green's function",
"In 2D and 3D, for any right-hand side the solution equals the discrete free-space convolution (regularised logarithmic / 1/(4 pi r) kernel times the cell volume) with no periodic images on non-square grids of any, even odd, size and any domain extent; hence solving is linear, translation-equivariant and symmetric. Repeated solves, in-place solves, vector solves (each component alone), interleaved solvers and every thread count give the same result, and the right-hand side is not modified.",
["inputs","histories","configurations"],"All right-hand sides, grid shapes, domain sizes, precisions, thread counts, sequences of solves on one or several solver objects.",
"The tests use a square/cubic n=16 grid, one range (2.0), one solve on a fresh object; rectangular grids, reuse of buffers, odd sizes and other ranges are not reached.",
[P2+"UnboundedPoissonSolverPYFFTW2D.py",P3+"UnboundedPoissonSolverPYFFTW3D.py",P2+"FFTPyFFTW2D.py",P3+"FFTPyFFTW3D.py"],
[("Hockney-Eastwood domain doubling with even-reflected distance",P2+"UnboundedPoissonSolverPYFFTW2D.py"),("domain-doubled buffer zeroed before each solve",P3+"UnboundedPoissonSolverPYFFTW3D.py")],["right-hand side and solution of every solve"],
[("domain_doubled_buffer","work array reused by every solve",P2+"UnboundedPoissonSolverPYFFTW2D.py")])

add("C16","The fast-diagonalisation solver inverts the Neumann Laplacian",
"In 2D and 3D with homogeneous Neumann boundaries, the solution returned for any right-hand side satisfies minus the discrete Laplacian (mirror ghost cells, spacing dx) of the solution = right-hand side minus its mean, and has zero mean, on rectangular grids of any size >= 2 per axis. Repeated and interleaved solves and vector solves (each component alone) give the same results, and the right-hand side is not modified.",
["inputs","histories","configurations"],"All right-hand sides (including ones with a mean), grid shapes, spacings, precisions, sequences of solves.",
"The tests solve one cosine mode on one grid to a tolerance of 1e-3; other modes, the mean mode, unequal axes, reuse and non-unit spacing are not reached.",
[P2+"FastDiagPoissonSolver2D.py",P3+"FastDiagPoissonSolver3D.py"],
[("eigendecomposition of 1D Neumann matrices; null mode zeroed",P2+"FastDiagPoissonSolver2D.py")],["right-hand side and solution of every solve"])

add("C17","FFT helpers compute the normalised real transform and its inverse",
"For every even or odd grid shape in 2D and 3D and both precisions, the pyFFTW plans and the scipy reference kernels produce the same half-spectrum real-to-complex transform (the discrete Fourier transform by definition) and a backward transform that restores the field, with matching precision, for any number of threads and any number of reuses of the plan.",
["inputs","configurations","histories"],"All fields, even and odd grid shapes, precisions, thread counts, plan reuse and several plans alive together.",
"The tests use one even square/cubic shape and one transform per plan.",
[P2+"FFTPyFFTW2D.py",P2+"scipy_fft_2d.py",P3+"FFTPyFFTW3D.py",P3+"scipy_fft_3d.py"],
[("FFTW plans on aligned buffers; scipy rfftn/irfftn",P2+"FFTPyFFTW2D.py")],["field, spectrum and restored field of every transform"])

add("C18","Saving then loading restores every field, grid and the time exactly",
"After registering any set of Eulerian scalar/vector fields and any number of Lagrangian grids with scalar/vector fields (also equal field names on different grids, any number of nodes, grids without fields), saving to a file and loading it into fresh arrays restores every registered value, grid position and the time bit-for-bit, in place, in both precisions, 2D and 3D, for any file name and any save/load sequence. Saving modifies no registered array, and a later save stores the then-current values. A loaded file's grid connectivity is kept: what is saved after the load has it too. A field or grid registered again under its name is replaced: from then on the newest array is the one saved and restored.",
["inputs","histories","configurations"],"All field sets, shapes, dtypes, memory layouts, grid counts and names, file names, sequences of saves and loads, including restart into a different object.",
"The tests register one fixed set of fields on one square/cubic grid, save once and load once with tolerances.",
[U+"IO.py"],[("name-keyed dictionaries of fields and grids walked by save and load",U+"IO.py")],["registered arrays before save, after save, after load; the HDF5 file"],
[("eulerian_fields / lagrangian_fields","registered arrays by name",U+"IO.py")])

add("C19","The HDF5 layout and XDMF descriptions match the registered data",
"Each saved file stores every Eulerian scalar, and every vector component separately, with the grid's extent (leading 1 included), each Lagrangian field and grid with the node index first, the connectivity when requested, the grid parameters and the time; and next to it one XDMF file for the Eulerian fields and one per Lagrangian grid. Each XDMF lists exactly the registered fields of its grid with paths that resolve in the HDF5 file and dimensions equal to those of the datasets, the origin, spacing, topology size and time equal to the registered ones, and never overwrites the data file.",
["inputs","configurations"],"All field sets, grid shapes with unequal axes, origins and spacings, times, grid counts, 2D and 3D.",
"No test opens an XDMF file or looks at the HDF5 layout.",
[U+"IO.py"],[("generate_xdmf_eulerian / generate_xdmf_lagrangian string templates",U+"IO.py")],["the files written by every save, parsed independently"])

add("C20","Inconsistent registrations and files are rejected, never silently accepted",
"Registering an array whose shape fits neither a scalar nor a vector of its grid, or Eulerian fields before the grid, is rejected; loading raises when a registered field or Lagrangian grid is missing from the file, when the file's Eulerian origin, spacing or grid size differs, or when a stored Lagrangian grid or field has another size; unsupported precisions, negative widths or orders, unknown kernel, filter or field types and interpolation widths are rejected at construction.",
["inputs","configurations"],"All mismatching shapes, names, grids, parameters and option values next to the valid ones.",
"The tests exercise a handful of wrong values at most.",
[U+"IO.py",U+"precision.py",U+"pyst_kernel_config.py",S3+"laplacian_filter_3d.py",S2+"penalise_field_boundary_2d.py"],
[("shape tests and assertions in add_as_* and load",U+"IO.py"),("assertions and ValueErrors in generators",S3+"laplacian_filter_3d.py")],["exceptions raised by registration, load and generation calls"])

add("C21","Immersed-boundary weights form a partition of unity on the right cells",
"In 2D and 3D, for any marker at least the kernel support away from the domain edge, the nearest index is the cell at or just below the marker per axis, the local support holds the grid-minus-marker distances of the 4-per-axis surrounding cells, and the interpolation weights are the tensor product of the 1D cosine (or Peskin 4-point) delta function of those distances divided by the spacing per axis. The weights are non-negative (up to rounding), sum to one over dx^dim, are symmetric about the marker, and for the Peskin kernel have zero first moment.",
["inputs","configurations","histories"],"All marker positions (on grid points, on cell faces, arbitrary), grid spacings and coordinate shifts, node counts, precisions, both kernels, repeated and reused buffers.",
"These modules' tests need numba and are not run here; upstream they sample a few symmetric marker layouts.",
[IB+"EulerianLagrangianGridCommunicator2D.py",IB+"EulerianLagrangianGridCommunicator3D.py"],
[("floor-division nearest index plus fixed offsets",IB+"EulerianLagrangianGridCommunicator2D.py"),("closed-form delta functions",IB+"EulerianLagrangianGridCommunicator3D.py")],["outputs of the support and weight kernels for every marker set"])

add("C22","Interpolation and spreading are adjoint, local and conservative",
"Interpolating a grid field to markers gives the weighted sum over each marker's support times dx^dim (exact for constants with either kernel, and for linear fields with the Peskin kernel); spreading adds marker values times weights to the support cells only, on top of existing contents, accumulating where supports overlap. Hence spreading conserves the total (sum times dx^dim equals the marker sum) and is the adjoint of interpolation, component by component for vectors, in 2D and 3D, without modifying its inputs.",
["inputs","configurations","histories"],"All marker layouts including coincident and overlapping ones, scalar and vector fields, non-square grids, precisions, spacings, both kernels, repeated calls.",
"These modules' tests need numba and are not run here; upstream they use isolated markers and constant fields on square grids.",
[IB+"EulerianLagrangianGridCommunicator2D.py",IB+"EulerianLagrangianGridCommunicator3D.py"],
[("per-node slices accumulated with +=",IB+"EulerianLagrangianGridCommunicator2D.py")],["fields before and after every interpolation and spreading call"])

add("C23","Virtual boundary forcing is the PI feedback law along every history",
"For every sequence of interaction and time-step calls, the Lagrangian force equals stiffness times the accumulated position mismatch plus damping times the current velocity mismatch (interpolated flow minus body velocity), the position mismatch is the sum of dt times velocity mismatch over the time steps so far, and time advances from the start time by the sum of dt. The Eulerian forcing is that force spread with the same weights: replacing previous contents when reset is enabled, adding to them otherwise; the flow field and body fields are not modified, and instances do not influence each other.",
["histories","inputs","configurations"],"All call sequences, moving markers, flow fields, coefficients, grid dimensions, reset on/off, precisions, several instances.",
"These modules' tests need numba and are not run here; upstream they check single calls with static markers.",
[IB+"VirtualBoundaryForcing.py"],[("position mismatch integrated by forward Euler in time_step",IB+"VirtualBoundaryForcing.py")],["public force and mismatch fields, Eulerian forcing and time after every call"],
[("lag_grid_position_mismatch_field","integral of the velocity mismatch",IB+"VirtualBoundaryForcing.py")])

add("C24","Lagrangian Brinkmann forcing drives the flow implicitly to the body",
"Each interaction computes the implicit Brinkmann blend of interpolated flow and body velocity, (u + k dt u_body)/(1 + k dt), takes the penalisation flux as blend minus flow velocity, spreads it with dimensionless weights onto the Eulerian flux (replacing or adding to earlier contents according to the reset option) and reports the Lagrangian force as dx^dim times the flux over dt. The result depends only on the current arguments, so repeated or interleaved calls agree; a body moving with the flow receives zero flux, and total spread flux equals total marker flux.",
["histories","inputs","configurations"],"All flow fields, marker positions and velocities, coefficients, step sizes, dimensions, reset on/off, precisions, call sequences.",
"These modules' tests need numba and are not run here; upstream they check single calls with one layout.",
[IB+"experimental/BrinkmannBoundaryForcing.py"],[("implicit pointwise blend, then spreading with weights times dx^dim",IB+"experimental/BrinkmannBoundaryForcing.py")],["public Lagrangian fields and the Eulerian flux after every call"])

add("C25","Composed flow steps keep circulation and solenoidality and are restartable over long runs",
"Over any number of time steps composed from the library's kernels (advection, diffusion, stretching, filtering, boundary damping, penalised-velocity or forcing vorticity update, unbounded Poisson solve, curl of the stream function, in 2D and 3D), advection, diffusion, filtering and feedback of compactly supported vorticity keep its total circulation to rounding (up to what leaves through the boundary layers), diffusion within the stability limit never increases the maximum, the recovered velocity is discretely divergence-free in the interior, and each step equals, to rounding, the one computed from scratch with fresh kernels, so runs are reproducible and restartable at any step.",
["histories","inputs","configurations"],"All initial vorticity fields, step sizes within the stability limit, grid shapes, numbers of steps, precisions, thread counts, and restart points (through a saved file).",
"No test composes kernels, runs more than one step, or restarts.",
["sopht/numeric/eulerian_grid_ops/__init__.py",U+"IO.py"],
[("telescoping fluxes, stateless kernels, exact IO",S2+"advection_timestep_2d.py")],["fields after every step of composed runs"])
add("C26","Long runs hold arrays, descriptors and threads bounded",
"A simulation may call the library any number of times. After a warm-up, repeated kernel calls, Poisson solves, transforms, marker interactions, saves, loads and refused loads, and repeated construction and dropping of objects of the same configuration, leave the number and size of live arrays, the open descriptors and the threads of the process bounded: arrays handed to a call are not kept alive by it (beyond a bounded number of recent ones), a dropped object takes its buffers with it, and when save or load returns, or load refuses a file, the data and description files it used are closed, so that they can be read and replaced straight away, and no temporary files remain.",
["histories","configurations"],"All lengths of run, shapes, precisions, option sets, thread counts, registered fields and files, and reasons of refusal.",
"No test makes more than a few calls or looks at what a call leaves behind.",
[U+"IO.py","sopht/numeric/eulerian_grid_ops/__init__.py","sopht/numeric/immersed_boundary_ops/__init__.py"],
[("files opened in with blocks",U+"IO.py"),("buffers allocated once per generated kernel or solver",S3+"laplacian_filter_3d.py"),("buffers owned by the solver object","sopht/numeric/eulerian_grid_ops/poisson_solver_2d/UnboundedPoissonSolverPYFFTW2D.py")],["live arrays, descriptors, threads and open files before and after stretches of repeated calls"])
with open('/verif/properties.jsonl','w') as f:
    for p in props: f.write(json.dumps(p)+"\n")
print(len(props))
