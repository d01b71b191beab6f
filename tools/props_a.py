# Property texts for the grid, equation and time stepping areas.
from common import P

P("G01", "Node addressing is a bijection and consistent everywhere",
  "For every 2D or 3D domain, converting a node number to a grid position and back is the identity in both directions (nodes ordered by depth, then row, then column), and every view of a field - index arithmetic, the grid type, reshaped slices, product iteration - addresses the same node by the same number. Wrapping a position by whole periods in either direction along any axis leads back to the same node, and writing one node changes that node only.",
  ["inputs", "configurations", "histories"], "all domain sizes, all nodes, all offsets, all pairs of writes",
  "tests use one or two small, mostly square or cubic domains and a few nodes",
  ["pfutil/indexPositionConversion.go", "pfutil/grid.go", "pfutil/sliceOperations.go", "pfutil/iterators.go"],
  [("Pos / Index", "pfutil/indexPositionConversion.go"), ("Grid.Get/Set", "pfutil/grid.go"), ("Wrap", "pfutil/sliceOperations.go")],
  "every node of every domain up to the bound is visited; nothing sampled")

P("G02", "The FFT wrapper is the DFT of the documented node order",
  "For every 2D or 3D domain, even or odd, cubic or not, the forward transform of a field is the discrete Fourier transform in the node order used by positions and frequencies, and the backward transform followed by the normalisation used by the solver restores the field. Transforms act only on the array they are given, so any sequence of transforms on several arrays gives the same result as transforming each array alone.",
  ["inputs", "configurations", "histories"], "all domain sizes, all fields (by a basis), all short transform histories",
  "tests transform a few fixed fields on square or cubic domains",
  ["pfutil/fftWrap.go"], [("FFTWWrapper", "pfutil/fftWrap.go")],
  "complete on the impulse basis of each domain; linearity is confirmed on a dense field")

P("G03", "Frequencies and conjugate nodes match the transform",
  "For every domain and node, the reported frequency is the (signed, cycles per grid spacing) frequency of the plane wave whose transform is concentrated at that node, and the conjugate node is the one that carries the complex conjugate amplitude for every real field. A spectrum made Hermitian in this sense transforms back to a real field. The iterator over unique frequencies visits exactly one node of every conjugate pair and the iterator over real amplitudes exactly the nodes that are their own conjugate, once each.",
  ["inputs", "configurations"], "all domain sizes, all nodes",
  "tests look at a handful of frequencies of two domains",
  ["pfutil/fftWrap.go", "pf/util.go"], [("Freq / ConjugateNode", "pfutil/fftWrap.go"), ("UniqueFreqIterator / RealAmplitudeIterator", "pf/util.go")],
  "every node of every domain up to the bound")

P("G04", "Drawing fills exactly the nodes inside the transformed shape",
  "For every sequence of translations, scalings and rotations, applying the composed transformation to a point gives the same point as applying the individual transformations one after the other in the order they were appended. Drawing a shape on a grid sets exactly those nodes whose transformed coordinates lie inside the shape to the given value, and leaves all others untouched, in 2D and 3D. Nodes exactly on the surface belong to a box but not to a ball.",
  ["histories", "inputs", "configurations"], "all compositions of transformations up to the bound, all shapes, all nodes of 2D and 3D grids",
  "tests draw one or two shapes with one transformation",
  ["pfutil/affine.go", "pfutil/shapes.go", "pfutil/grid.go"],
  [("Affine.Append/Apply", "pfutil/affine.go"), ("Draw", "pfutil/shapes.go")],
  "every composition up to the depth bound on every grid of the list")

P("G05", "Blurring, tessellation and rotation act on every node as defined",
  "Blurring a field replaces the value at every node by the kernel weighted average of the surrounding nodes with periodic wrapping, whatever the domain shape, kernel or storage of the field; a box kernel of width w weighs all nodes equally that are at most min(w, w/2+1) nodes away along each axis. A Voronoi tessellation labels every node with the index of a nearest generator under periodic distances, and rotating a 2D grid shows at every node the value of a source node within one grid spacing of its exact pre-image under the rotation about the centre.",
  ["inputs", "configurations"], "all domain sizes, all fields (by a basis), all short generator lists",
  "tests blur one square field and tessellate one point set",
  ["pfutil/blur.go", "pfutil/voronoi.go", "pfutil/sliceOperations.go"],
  [("Blur", "pfutil/blur.go"), ("Voronoi", "pfutil/voronoi.go")],
  "complete on the impulse basis and on every ordered generator list up to the bound")

P("E01", "An equation string means what it says",
  "The right-hand side evaluated for an equation such as 'dc/dt = m*LAP^2*c - a*c^3*eta' equals the spectral evaluation of the written expression: signed sum of products of scalars, integer powers of the Laplacian and products of powers of fields. This holds for every order and repetition of the factors in a term, every combination of signs, any number of terms and whatever the names are (one letter, or one name contained in another).",
  ["programs", "configurations"], "all equations of the grammar up to the bound, all name assignments of the list",
  "tests parse a few fixed strings and never compare the evaluated numbers for most of them",
  ["pf/rhsBuilder.go", "pf/model.go", "pf/util.go"],
  [("Build / ConcreteTerm", "pf/rhsBuilder.go"), ("RHS evaluation", "pf/model.go")],
  "all equations within the grammar bounds are parsed and evaluated by the real code and compared with a direct evaluation of the expression tree that produced the string")

P("E02", "Declaration order and naming do not change the dynamics",
  "The evolution of each field of a coupled system is independent of the order in which fields, scalars and equations are declared (fields and scalars before the equations that use them) and of how fields and scalars are named, also where one name is part of another. Each equation drives the field named on its left-hand side.",
  ["programs", "configurations", "histories"], "all declaration orders and role assignments of a three-field system",
  "tests use one declaration order each",
  ["pf/model.go", "pf/rhsBuilder.go", "pf/euler.go", "pf/rk4.go"],
  [("AddField / AddEquation / Init", "pf/model.go")],
  "all permutations are run on the real code and compared bit-tolerantly with a reference integrator")

P("E03", "User supplied terms, functions, sources and modifiers enter as written",
  "A term registered by the user contributes to the right-hand side with the sign and the Laplacian power written in front of it, for explicit, implicit and mixed terms in 2D and 3D; registered functions contribute alone or multiplied with scalars and fields. A prefix that is not supported is refused, never ignored. Sources are added to exactly the equations they were registered for at the current time, right-hand-side modifiers are applied in registration order, and derived fields carry the values of the function they were registered with.",
  ["programs", "histories", "configurations"], "all combinations of registered contributions up to the bound",
  "tests register one contribution at a time",
  ["pf/model.go", "pf/rhsBuilder.go", "pf/userDefinedTerm.go", "pf/sourceTerm.go"],
  [("RegisterExplicitTerm / RegisterImplicitTerm / RegisterMixedTerm / RegisterFunction / AddSource", "pf/model.go")],
  "every combination in the bound is evaluated by the real code and compared with an independent evaluation")

P("E04", "Invalid models are rejected, valid ones are not",
  "A model that cannot be meaningful - a factor that is neither a scalar, field, function nor registered term, a malformed left-hand side, two equations for one field or an equation that another field without one would use, a field whose data or domain has the wrong size, a name that collides with reserved symbols, an implicit term whose values change with any field - is refused with a panic or an error before any step is taken. A model that only uses declared names is accepted, and so is an implicit term that only depends on the frequency and on scalars.",
  ["programs", "inputs"], "all single defects at every position of the enumerated models",
  "tests try a few invalid inputs",
  ["pf/model.go", "pf/rhsBuilder.go", "pf/util.go"], [("validation in AddEquation / NewField / NewSolver", "pf/model.go")],
  "each invalid model is built from a valid one by exactly one defect; both are tried")

P("T01", "Explicit schemes perform the documented update",
  "One step of the (semi-implicit) Euler scheme gives, for every field and Fourier mode, the documented update with all right-hand sides evaluated at the fields and time of the beginning of the step; RK4 gives the documented four-stage update with stages at t, t+dt/2, t+dt/2 and t+dt. A modal filter multiplies every mode by its filter value after the step and nothing else. A step depends only on the fields, scalars, sources, modifiers, filter and time at its beginning, whatever happened before.",
  ["programs", "histories", "configurations"], "all coupled systems of the enumeration, all domain shapes, several steps",
  "tests compare one diffusion problem with an analytic solution",
  ["pf/euler.go", "pf/rk4.go", "pf/solver.go", "pf/vandeven.go"],
  [("Euler.Step", "pf/euler.go"), ("RK4.Step", "pf/rk4.go")],
  "4096 coupled systems plus a full featured system on all small domains, compared with an independent integrator based on a naive DFT")

P("T02", "Run histories: time, callbacks and epochs add up",
  "For every sequence of requests to solve, the simulation time equals the number of performed steps times the time step, callbacks run once per epoch in order with the epoch number (counting from the start epoch) and see the real fields of that moment, monitors record one value per epoch, and all user terms are notified after every step. Changes that a callback makes to fields or scalars are what the next step starts from. Splitting a run into several requests gives the same fields as one request.",
  ["histories", "configurations"], "all request sequences up to the depth bound, all schemes, callback and monitor counts",
  "tests run one request",
  ["pf/solver.go", "pf/euler.go", "pf/rk4.go", "pf/monitor.go"],
  [("Solve / Step / Propagate", "pf/solver.go")],
  "all request sequences up to the bound are executed and every notification compared with a reference run")

P("T03", "Conserved dynamics conserve, dissipative dynamics decay",
  "Whenever every term of a field's equation carries at least one Laplacian, the mean of the field is conserved exactly (to rounding) by every scheme, and real fields stay real under every equation. Linear dissipative equations never amplify any mode with the semi-implicit scheme, whatever the time step.",
  ["programs", "histories", "configurations"], "all equations of the conserved grammar, all small domains, several time steps",
  "tests check conservation for a single model",
  ["pf/euler.go", "pf/rk4.go", "pf/rhsBuilder.go", "pf/model.go"],
  [("semi-implicit update", "pf/euler.go")],
  "all equations of the bound are integrated on the real code")

P("T04", "The implicit scheme solves its step equation",
  "Every step of the implicit scheme returns fields that satisfy the step relation of the scheme (linear part propagated exactly, non-linear part interpolated linearly between its values for the old and new fields) to solver tolerance, for coupled systems, every domain and both small and large time steps, in runs of several steps with constant sources, right-hand-side modifiers, changing time steps and a non-linear solver of the user. Linear problems are propagated exactly by the exponential of the linear operator, and time advances by one time step per step.",
  ["programs", "histories", "configurations"], "all systems of the list, all small domains, several time steps",
  "one test runs one model",
  ["pf/implicitEuler.go"], [("ImplicitEuler.Step", "pf/implicitEuler.go")],
  "each step is compared with an independent solution of the relation")
