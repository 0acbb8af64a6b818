import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","Node numbering and coordinates are inverse; wrapping is exactly periodic",
 "For every 2D or 3D domain, converting a node number to grid coordinates and back is the identity, coordinates stay inside the domain, and distinct coordinates get distinct numbers that fill the domain with the second axis fastest, then the first, then the third. Reading and writing a grid by coordinates touches exactly that node, a copy is independent of its original, and wrapping moves any integer position by a whole number of domain lengths to the unique point inside the domain.",
 ["inputs"],"all domain sizes per axis up to the bound (non-square and non-cubic included), every node, every integer position within several domain lengths, arbitrary grid values",
 "Tests use a few square domains and a few nodes; a slip that needs a non-square size, a negative multiple of the size or a boundary node survives them.",
 ["pfutil/indexPositionConversion.go","pfutil/grid.go","pfutil/sliceOperations.go"],
 [("index/position conversion","pfutil/indexPositionConversion.go NodeIdx, Pos"),("grid access","pfutil/grid.go Grid.Set, Get, Copy"),("periodic wrapping","pfutil/sliceOperations.go Wrap")])
p("P02","The Fourier transform matches the grid layout and frequency labels",
 "For every domain size the forward transform of a field equals the discrete Fourier sum taken over the grid coordinates with the frequency reported for each output node, and the inverse transform of the forward transform returns the field times the number of nodes. Reported frequencies lie in (-1/2, 1/2], are integer multiples of one over the axis length, and the conjugate partner of a node is the node with the negated frequency, so it holds the complex conjugate amplitude of any real field.",
 ["inputs"],"all complex fields on the listed 2D and 3D grids (odd, even, non-square, non-cubic), every node; all axis lengths up to the bound for the frequency and conjugate labels",
 "Tests transform a few cubic or 2D examples; a layout error on grids with unequal sides, or at the Nyquist node of an even axis, is invisible to them.",
 ["pfutil/fftWrap.go"],[("plans and transforms","pfutil/fftWrap.go NewFFTW, FFT, IFFT"),("frequency labels","pfutil/fftWrap.go Freq, ConjugateNode")])
p("P03","Combination and frequency iterators visit exactly the promised set once",
 "The product iterator yields every combination of indices below its limits exactly once in lexicographic order and then reports exhaustion. The unique-frequency iterator visits exactly one node of every conjugate pair (and every self-conjugate node), the real-amplitude iterator visits exactly the nodes that equal their own conjugate partner, both in increasing order, and the hyper-octant search yields every sign combination of its starting point exactly once.",
 ["inputs"],"all limits within the bound (up to four indices), all 2D and 3D grid sizes within the bound, every node, arbitrary starting points",
 "Tests compare a handful of small examples; off-by-one carry errors and errors on the Nyquist planes of particular parities escape.",
 ["pfutil/iterators.go","pf/util.go","pfc/initialGuessExplorer.go"],[("product","pfutil/iterators.go Product.Next"),("frequency iterators","pf/util.go UniqueFreqIterator, RealAmplitudeIterator, includeFreq"),("sign combinations","pfc/initialGuessExplorer.go HyperOctantExplorer.Next")])
p("P04","Affine maps compose in order and drawing paints exactly the shape's nodes",
 "Applying a transformation built by appending several ones equals applying them one after the other in the order they were appended; translations add their vector, scalings multiply per axis, and rotations about an axis are rigid, right-handed and leave that axis fixed. Drawing a shape sets a node to the given value exactly when the node's transformed position is inside the shape and leaves all other nodes untouched, and every interior point of a shape lies within its reported bounding box.",
 ["inputs"],"all real vectors, angles, shape sizes and positions within the bounds; every node of the listed grids",
 "Tests use a few fixed angles and one composition; a sign or order error in one matrix entry needs particular combinations of axes to show.",
 ["pfutil/affine.go","pfutil/shapes.go"],[("affine maps","pfutil/affine.go"),("shapes and drawing","pfutil/shapes.go")])
p("P05","Blur, Voronoi labelling and rotation respect periodic geometry",
 "Blurring replaces each node by the kernel-weighted mean of its periodic neighbourhood of the original data, so constants are unchanged, the total is conserved for a symmetric kernel and no value leaves the original range. Voronoi labelling assigns every node to a generating point no other point is strictly nearer than under periodic distance, the first one on ties. Rotating a 2D grid keeps the grid size, only copies existing values, fixes the centre node, is the identity for angle zero and follows the rotation map about the centre with periodic wrapping.",
 ["inputs"],"arbitrary field values on the listed grids, all generating point sets up to the bound, kernel widths and rotation angles within the bounds",
 "Tests look at one or two small pictures; wrap-around at one edge or on non-square grids is not sampled.",
 ["pfutil/blur.go","pfutil/voronoi.go","pfutil/grid.go"],[("blur","pfutil/blur.go Blur, BoxKernel"),("nearest point","pfutil/voronoi.go"),("rotation","pfutil/grid.go Rotate2D")])
p("P06","The text of an equation evaluates to the mathematics it spells",
 "For every supported equation text - signed terms built from registered scalars with powers, an optional Laplacian power, products of powers of fields, and registered functions and terms - the transformed right-hand side used by the solver equals the sum of the signed products it spells, with the Laplacian applied to the product of the fields. Terms linear in the evolved field with field-free coefficients are treated implicitly with the same coefficient, every other term explicitly, and spaces and the order of factors and terms do not change the result.",
 ["inputs"],"all values of the fields and scalars, the listed term shapes and their combinations (sign, powers, Laplacian power, factor order, spacing, one to three fields)",
 "Tests evaluate a few equations at fixed values; a mis-parsed sign, power or factor needs a particular combination of names and operators.",
 ["pf/rhsBuilder.go","pf/util.go","pf/model.go"],[("parsing","pf/rhsBuilder.go Build, ConcreteTerm, isBilinear, constructFunc"),("derived fields","pf/model.go UpdateDerivedFields, pf/util.go"),("splitting","pf/util.go SplitOnMany, GetPower, SortFactors")])
p("P07","A semi-implicit Euler step computes exactly the documented update",
 "One step maps every Fourier amplitude y of every field to (y + dt*N)/(1 - dt*A), with N the explicit and A the implicit part evaluated at the state and time at the start of the step, applies the modal filter if one is set, and advances the clock by exactly one time step. This holds for every number of fields, for any state, time and step size, and repeated steps compose.",
 ["inputs","histories"],"arbitrary real fields, arbitrary values of the explicit part and arbitrary implicit coefficients per frequency, any dt, one to three coupled fields, several consecutive steps, on the listed grids",
 "Tests run one-field diffusion at fixed numbers; coupling between fields, the time passed to terms and the filter order need specific models.",
 ["pf/euler.go","pf/model.go"],[("step","pf/euler.go Euler.Step"),("right-hand side","pf/model.go GetRHS, GetDenum, SyncDerivedFields")])
p("P08","A Runge-Kutta step computes the documented four-stage update",
 "One step of the four-stage scheme combines stage slopes with weights 1/6, 1/3, 1/3, 1/6, evaluates the stages at half, half and full step from the same initial state with the linear part damped as documented, and divides by the full implicit factor at the end; without implicit terms it equals the classical fourth-order method. The clock advances one step per step, and time-dependent terms are evaluated at the time belonging to each stage.",
 ["inputs","histories"],"arbitrary real fields and implicit coefficients, non-linear right-hand sides and time-dependent sources with arbitrary coefficients, any dt, one and two fields, several steps",
 "Tests compare one trajectory with a tolerance that hides a wrong weight or stage time of higher order.",
 ["pf/rk4.go"],[("stages","pf/rk4.go Step, correction, PrepareNextCorrection")])
p("P09","The fully implicit step satisfies its own update equation",
 "After an implicit step whose non-linear solver converged, the new fields satisfy the exponential-integrator equation linking old and new amplitudes (exact propagation of the linear part, time-linear interpolation of the explicit part between the old and the new state), and are real. The step advances the clock by one step and hands the solver the residual of that equation and the semi-implicit Euler prediction as the starting guess.",
 ["inputs"],"arbitrary real initial fields, arbitrary trial states handed to the residual, linear and quadratic explicit parts and arbitrary implicit coefficients away from and at zero, one and two fields",
 "Tests compare one diffusion decay; the weights of the interpolation and the second field's block are not pinned down by them.",
 ["pf/implicitEuler.go"],[("residual","pf/implicitEuler.go updateEquation, nonlinearIntegral"),("step","pf/implicitEuler.go Step")])
p("P10","Shrinking-dimer steps follow the documented saddle dynamics",
 "The dimer length decays exponentially from its initial value and never falls below the minimum, and the time reported for a length is the inverse of that law. A step shifts the fields to the two dimer ends, moves the centre by the reflected average force with the linear part treated implicitly in reflected form, turns the orientation by the projected force difference over length and time constant, and leaves the orientation at unit length. The reported largest force and torque, root mean square force, squared field norm and its decrease since the step before are those of the step taken, and are logged as such.",
 ["inputs","histories"],"arbitrary fields, orientations, lengths, time constants, weights and implicit coefficients within the bounds, a single field on the listed grids",
 "Tests run one saddle search to convergence; a wrong factor in the projection or the implicit inverse only changes the path taken.",
 ["pf/sdd.go"],[("step","pf/sdd.go SDD.Step"),("projections","pf/sdd.go householder, householderDenum, diagonalShermannMorrison.dot"),("length law","pf/sdd.go DimerLength, RequiredDimerLengthTime")])
p("P11","The solver runs the promised steps, callbacks and monitors in order",
 "Running for a number of epochs with a number of steps each performs exactly their product of time steps, notifies every registered term once after every step with the time after that step, and after each epoch calls every callback once in registration order with consecutive epoch numbers counted from the start epoch, then updates every monitor once with the current state. Every stepper that can be selected reports the elapsed time as steps taken times the step size.",
 ["inputs","histories"],"all epoch and step counts within the bound, any start epoch, any number of callbacks, monitors and terms within the bound, both selectable steppers, several consecutive runs",
 "Tests check one run with one callback; miscounted epochs on a second run, or a term kind that is skipped, go unnoticed.",
 ["pf/solver.go","pf/monitor.go","pf/rk4.go","pf/euler.go"],[("loop","pf/solver.go Solve, Propagate, SetStepper"),("monitors","pf/monitor.go"),("clock","GetTime of the steppers")])
p("P12","Spectral operators equal the exact derivatives of the sampled field",
 "On every field the Laplacian powers, gradient components, squared gradient, advection, weighted Laplacian, divergence-of-flux and tensor-Hessian terms equal the corresponding derivatives of the trigonometric interpolant of that field (with the unpaired highest frequency dropped where the operator documents it), multiplied or summed pointwise as documented. The result is linear in the differentiated field and in the coefficients.",
 ["inputs"],"arbitrary real field, coefficient and velocity values on the listed 2D and 3D grids with odd, even and unequal sides",
 "Tests differentiate one smooth function to a tolerance; swapped axes, missing factors on mixed terms and Nyquist handling on even grids are not seen.",
 ["pf/diffOp.go","pf/gradientCalculator.go","pf/advection.go","pf/squareGradientTerm.go","pf/tensorialHessian.go"],[("Laplacian","pf/diffOp.go LaplacianN.Eval"),("gradient and flux","pf/gradientCalculator.go"),("others","pf/advection.go, pf/squareGradientTerm.go, pf/tensorialHessian.go")])
p("P13","Divergence-form dynamics conserve the total of the field exactly",
 "For any state and step size, evolving a field by terms in divergence form - Laplacian powers of any expression, divergence of a weighted gradient, charge transport, conservative noise, pair correlation or ideal mixture with the Laplacian on - leaves the sum of the field over all nodes unchanged, with the semi-implicit Euler, Runge-Kutta and implicit Euler steppers. The corresponding right-hand side has a zero mean amplitude.",
 ["inputs","histories"],"arbitrary real fields, functions and noise values, any dt, the listed grids, one or several steps",
 "Tests check the mean of a few runs at best; a term that leaks only for some state or parity needs all states.",
 ["pf/euler.go","pf/rk4.go","pf/gradientCalculator.go","pf/noise.go","pf/chargeTransport.go","pf/pairCorrelationTerm.go"],[("terms","see files"),("steppers","pf/euler.go, pf/rk4.go")])
p("P14","Real fields stay real under every operator and stepper",
 "Starting from real fields, every built-in term produces amplitudes with conjugate symmetry and every stepper returns fields with zero imaginary part, on every grid including those with even sides. This includes point sources at grid nodes, filters and elastic terms.",
 ["inputs","histories"],"arbitrary real fields and coefficients on the listed 2D and 3D grids of mixed parity",
 "Tests look at real parts only, so an imaginary residue at the Nyquist node never shows.",
 ["pf/gradientCalculator.go","pf/tensorialHessian.go","pf/noise.go","elasticity/effectiveForce.go","pf/homoLinElast.go"],[("operators","see files"),("steppers","pf/euler.go, pf/rk4.go")])
p("P15","Sources, right-hand-side modifiers and filters act exactly as registered",
 "A point source adds its time function at the current time to the node at its position and nothing elsewhere, to its own equation only; several sources add up. Right-hand-side modifiers change only their own equation and run in the order they were added, after all terms and sources; a modal filter multiplies each amplitude by its value at the normalised frequency magnitude.",
 ["inputs"],"arbitrary fields, source strengths, node positions, modifier factors and filter values; one to three equations",
 "Tests register a single modifier or source on the first equation.",
 ["pf/sourceTerm.go","pf/model.go","pf/util.go"],[("sources","pf/sourceTerm.go Source.Eval, pf/model.go AddSource"),("modifiers","pf/model.go GetRHS, RegisterRHSModifier"),("filter","pf/util.go ApplyModalFilter")])
p("P16","Model registration keeps every name bound to its own data",
 "After registering fields, scalars, functions, derived fields and terms in any order, every name refers to the value registered under it, derived fields are recomputed from the current fields before use and hold the product or function they describe, equation numbers match the evolved field, and a field is never overwritten by a derived field that a term brings along. A term declared implicit whose coefficient changes when any field changes is refused when the model is initialised, and one that does not is accepted. The printed summary lists each equation once, in order, with its numbers of explicitly and implicitly treated terms.",
 ["inputs"],"arbitrary values of fields and scalars, one to three derived fields per registered term, every registration kind, arbitrary term coefficients and dependence strength above the detection threshold",
 "Tests register one derived field at a time, so aliasing between several is invisible.",
 ["pf/model.go","pf/userDefinedTerm.go"],[("registration","pf/model.go registerTerm, RegisterFunction, RegisterDerivedField, AddField"),("guard","pf/userDefinedTerm.go isImplicit")])
p("P17","The volume multiplier reacts to drift exactly as documented",
 "The volume-conserving term contributes the current multiplier times the indicator; its first update only records the field's integral, and every later update changes the multiplier by minus the drift since the previous update divided by step size and indicator integral. A constant integral never changes the multiplier.",
 ["inputs","histories"],"arbitrary fields, indicators with non-zero integral, step sizes and sequences of up to four updates",
 "Tests check one update; the bookkeeping over several updates is not covered.",
 ["pf/volumeConserving.go"],[("term","pf/volumeConserving.go")])
p("P18","The elastic driving force is minus the derivative of the elastic energy",
 "For a body with homogeneous stiffness and a misfit inside the inclusion, the elastic term's real-space value at every node is minus the derivative of the total elastic energy at mechanical equilibrium with respect to the field at that node. A zero misfit or a uniform field without indicator slope gives a zero force, and the force is refreshed from the field after every step.",
 ["inputs"],"arbitrary field values on the listed grids, isotropic stiffness parameters and arbitrary symmetric misfit within the bounds",
 "Tests compare one precipitate with a reference number.",
 ["pf/homoLinElast.go","elasticity/linearElasticity.go","elasticity/effectiveForce.go"],[("term","pf/homoLinElast.go Construct, Force, OnStepFinished"),("equilibrium","elasticity/linearElasticity.go Displacements, Strain")])
p("P19","Charge transport is minus the divergence of Ohm's current",
 "The current at every node is the local conductivity tensor applied to the external field plus the field induced by the charges through the Poisson equation, and the term equals minus the spectral divergence of that current, each tensor component entering in its documented slot. With uniform isotropic conductivity the external field contributes nothing and the charge relaxes at the conductivity rate.",
 ["inputs"],"arbitrary charge densities, position-dependent conductivity tensors and external fields on the listed 2D and 3D grids",
 "Tests use one conductivity layout; swapped off-diagonal slots or sides need anisotropic tensors.",
 ["pf/chargeTransport.go"],[("current","pf/chargeTransport.go current, Current"),("term","pf/chargeTransport.go Construct, voigtIndex")])
p("P20","Phase-field-crystal terms are the derivatives of their energies",
 "The pair-correlation term equals the derivative of its energy with respect to each node, identically in its implicit and explicit form, and the ideal-mixture linear plus non-linear parts equal the derivative of the mixture energy, including the prefactor; turning on the Laplacian applies exactly one Laplacian. The pair correlation function is the largest of its peaks, each a Gaussian damped by temperature, and the peaks of the square lattice lie at its two shortest reciprocal vectors.",
 ["inputs"],"arbitrary real fields, prefactors, mixture constants and peak values on the listed grids",
 "Tests use a prefactor of one or a single field, so a missing factor in one part stays hidden.",
 ["pf/pairCorrelationTerm.go","pfc/pairCorrelation.go","pfc/ideal.go"],[("terms","pf/pairCorrelationTerm.go"),("functions","pfc/pairCorrelation.go Eval, pfc/ideal.go")])
p("P21","The database returns exactly what was stored, per simulation and time step",
 "Loading a stored time step returns every field saved there with its node values and nothing from other simulations or time steps, loading the last step picks the largest stored one, and attributes, text attributes, comments and time series are stored under the current simulation with their exact keys and values (line breaks in comments become spaces). The position table lists each node exactly once with its coordinates under its node number, is written once per database, and a domain size that differs from the stored one is refused.",
 ["inputs","histories"],"arbitrary field values, field names, epochs (in any order, negative gaps included), one to three simulations sharing the database, attribute maps and domain sizes within the bounds",
 "Tests store one simulation; mixing of simulations or steps needs several of each.",
 ["pf/database.go"],[("store","pf/database.go SaveFields, insertRealPart, SetAttr, SetTextAttr, TimeSeries, Comment"),("load","pf/database.go Load, LoadLast, domainSizeOk")])
p("P22","Each database write is all-or-nothing when it fails or is cut short",
 "If storing a field at a time step, a set of attributes, a time-series record or the position table fails or the process stops at any point, the database afterwards contains either all rows of that unit or none. A later run on the same file then works as if the unit had not been started or had completed.",
 ["crash_points","inputs"],"every point before, between and after the database operations of a write at which the process stops or a statement fails, for every kind of write unit",
 "Tests never interrupt a write.",
 ["pf/database.go"],[("transactions","pf/database.go insertRealPart, populatePositionsTable, SetAttr, SetTextAttr, TimeSeries")])
p("P23","File output reads back as written and names match its references",
 "Binary files hold the real part of every node as big-endian doubles in node order and load back exactly; CSV files hold one row per node with its coordinates and values and load back in the same order to the printed precision; byte images map the minimum to 0, the maximum to 255 and are monotone in between. The XDMF description lists one entry per epoch and field whose file names, dimensions and number format are those the binary writer uses, and whose node order is the one the files have (planes slowest in 3D), with a start/stride/count time axis covering every epoch. A file written again holds only the new values, fields that do not fit the stated domain are refused, and the text file of a grid lists every node with its position and value.",
 ["inputs"],"arbitrary field values and sizes within the bounds, one to three fields, any epoch numbers and prefixes, 2D and 3D",
 "Tests write one small field of one shape.",
 ["pf/fileIO.go","pf/xdmf.go","pf/util.go","pf/model.go","pfutil/grid.go"],[("binary and CSV","pf/fileIO.go"),("XDMF","pf/xdmf.go CreateXDMF"),("bytes","pf/util.go RealPartAsUint8")])
p("P24","Elastic tensors have the right symmetries and transform as tensors",
 "Isotropic, cubic and Voigt-built stiffness tensors have both minor symmetries and reproduce their defining constants in every index position, and the major symmetry when their input is symmetric. Rotating by an orthogonal matrix preserves these symmetries and the energy of the correspondingly rotated strain, two rotations compose, isotropic tensors do not change, and contraction gives the stress of a strain.",
 ["inputs"],"all material constants, strains and rotation angles within the bounds, every index combination",
 "Tests compare a few entries; a misplaced index pair needs shear components in every plane.",
 ["elasticity/rank4.go","elasticity/linearElasticity.go"],[("constructors","elasticity/rank4.go Isotropic, CubicMaterial, FromFlatVoigt"),("rotation","elasticity/rank4.go Rotate, RotationMatrix"),("energy","elasticity/linearElasticity.go EnergyDensity")])
p("P25","Displacements balance the applied force at every frequency",
 "For every non-zero frequency the returned displacement satisfies mechanical equilibrium of the stiffness tensor with the applied force, the zero frequency gives zero displacement, and strains are the symmetrised spectral gradient of the displacement. Effective forces are the divergence of the misfit stress times the indicator, the first-order correction force is the divergence of the stiffness difference acting on misfit minus strain, and energies are quadratic and non-negative.",
 ["inputs"],"arbitrary complex forces, isotropic and cubic stiffness within the bounds, arbitrary misfit and indicator values, the listed frequencies and grids",
 "Tests compare one precipitate; single index errors cancel in symmetric examples.",
 ["elasticity/linearElasticity.go","elasticity/effectiveForce.go","elasticity/perturbation.go"],[("solve","elasticity/linearElasticity.go Displacements, Strain"),("forces","elasticity/effectiveForce.go, elasticity/perturbation.go")])
p("P26","Miller families and reciprocal lattices are complete and exact",
 "The equivalent planes of a Miller index are exactly all signed permutations of it, each once, and the reported counts in 2D and 3D equal the size of that set. Reciprocal vectors satisfy a_i . b_j = 2*pi*delta_ij for every lattice, the volume is the determinant of the cell and the built-in lattices have volumes a^2, a^3, a^3/4 (FCC), a^3/2 (BCC) and a^2/2 (triangular), plane vectors are the integer combination of the reciprocal vectors, and first-order cell changes are the derivative of the reciprocal cell. The density of a plane of a cubic lattice is the number of lattice points per area of that plane, for all indices.",
 ["inputs"],"all Miller indices within the bound, all invertible cells and lattice parameters within the bounds",
 "Tests use a few index triples; coincidences such as first equal to third index are not sampled.",
 ["pfc/miller.go","pfc/lattice.go"],[("Miller","pfc/miller.go"),("lattices","pfc/lattice.go")])
p("P27","The mode solver minimises the true energy with consistent derivatives",
 "The function, gradient and Hessian handed to the optimiser are consistent derivatives of one polynomial whose coefficients are the unit-cell integrals of the mode products times the mixture prefactors, the best of all explored minima is returned (the liquid with zero energy when none is lower), and the energy returned belongs to the amplitudes returned. The elastic fit's function and gradient are consistent, its reported fit belongs to the returned amplitudes, and peak widths are sqrt(beta/2)*|A/h| for the number beta of equivalent planes.",
 ["inputs"],"arbitrary amplitudes, mixture constants and optimiser results; one to three modes in 2D and 3D lattices",
 "Tests solve one structure; a wrong Hessian or gradient entry only slows the optimiser.",
 ["pfc/mode_solver.go","pfc/quadrature.go"],[("problem","pfc/mode_solver.go Solve, build, UnitcellIntegral"),("fit","pfc/mode_solver.go MatchElasticProp, PeakWidths"),("quadrature","pfc/quadrature.go")])
p("P28","Pointwise maps keep their documented range, order and inverse",
 "The bound transform maps every real strictly inside its interval, increases, and its two directions are inverse. The negative-value penalty force is zero for positive values and the derivative of the documented penalty otherwise, phase indicators run smoothly from 0 to 1 with consistent derivatives, the Vandeven filter starts at one, ends at zero, never increases and interpolates linearly, and the spectral viscosity is zero below a third of its threshold, the documented cubic in between and the full power law above it.",
 ["inputs"],"all arguments and parameters within the bounds",
 "Tests evaluate a few points; range and monotonicity are statements about all of them.",
 ["pf/boundTransform.go","pf/negative_value_penalty.go","pf/vandeven.go","pf/spectralViscosity.go","pf/homoLinElast.go","pfc/twoPhaseCorrFunc.go"],[("maps","see files")])
p("P29","Noise terms have the documented strength and conservative structure",
 "White noise is the standard normal sample scaled by the square root of twice the strength. Conservative noise is the discrete divergence of independent current components, one per dimension, each with that scale, so it sums to zero over the domain, is real and is redrawn at every evaluation.",
 ["inputs"],"arbitrary random samples, strengths and grids within the bounds, two and three dimensions",
 "Tests look at averages of random draws, which cannot separate the components.",
 ["pf/noise.go"],[("noise","pf/noise.go")])
p("P30","Crystal building and tilt boundaries place values where documented",
 "The corners of the domain in scaled coordinates solve the cell equation exactly, and the kernels have their documented values and cutoffs. Building a crystal writes only kernel values at nodes within the cutoff (up to rounding to the nearest node) of an atom whose cell origin lies inside the domain and leaves all other nodes alone, and a tilt boundary takes its lower half of rows from the grid rotated one way and the other half from the grid rotated the other way.",
 ["inputs"],"arbitrary grid values, cells and basis positions within the bounds, tilt angles within the bounds",
 "Tests compare one picture.",
 ["pfc/periodicFieldInit.go","pfutil/grid.go"],[("crystal","pfc/periodicFieldInit.go BuildCrystal, CornersScaledCrd"),("boundary","pfc/periodicFieldInit.go TiltGB")])
p("P31","The command line reports exactly the stored simulation data",
 "Listing attributes, comments, times, simulations or the summary of a database shows every stored item once, under its own simulation and name, with its value and nothing else, honouring the selected simulation and name (the newest simulation where none is given); replacing a comment changes that simulation's comments only. Exporting a field or a time series writes exactly the stored values of the selected simulation and time steps, each field value beside the position of its node. Very long words and empty comments never crash a listing or lose text. Within one simulation attribute names are distinct; time series with missing entries or negative time steps are not covered.",
 ["inputs","histories"],"arbitrary stored keys, values, comments and simulation ids within the bounds, every selection option",
 "The command line has no tests.",
 ["cmd/attr.go","cmd/comment.go","cmd/export.go","cmd/list.go","cmd/info.go","cmd/time.go","cmd/util.go"],[("listing","cmd/attr.go, cmd/comment.go, cmd/list.go, cmd/info.go, cmd/time.go"),("export","cmd/export.go")])
p("P32","Plots show the selected data at its place",
 "Given a file with the columns X, Y, Z and fields (blanks after the commas allowed, as documented), the contour command shows at every node of a 2D grid the value of the selected field (the first one where none is selected), with x to the right, y upwards and a colour bar of the same range, whatever the order of the rows and also if the field is constant. The lineplot command shows for each selected field, all fields where none is selected, in that order and under its name, exactly the points on the given line with their values.",
 ["inputs"],"arbitrary field values, row orders, grid shapes, selections of fields and lines within the bounds",
 "The command line has no tests; what a plot shows depends on every value, the order of the rows and the shape of the grid.",
 ["cmd/contour.go","cmd/lineplot.go"],[("contour","cmd/contour.go: contourCmd"),("lineplot","cmd/lineplot.go: lineplotCmd")])
import sys
out=open('/verif/properties.jsonl','w')
for x in P: out.write(json.dumps(x)+"\n")
out.close()
print(len(P))
