from common import P
P("P01", "Crystal geometry: equivalent planes, cells and reciprocal cells",
  "EquivalentMiller lists every index obtained from (hkl) by permutations and sign changes exactly once and NumEquivalent counts them (all of them in 3D, those with l=0 in 2D). For every cell the reciprocal vectors satisfy a_i.b_j = 2*pi*delta_ij and g_hkl.a_i = 2*pi*(hkl)_i, the volume is the positive volume spanned by the cell vectors, and CellChange/ChangeHKLVector are the exact first order changes of the reciprocal cell and of hkl vectors for every change of the real space cell. The SC, FCC, BCC and triangular cells have the neighbour distance and number of neighbours (SC, FCC and BCC also the volume) of their lattices, and CubicUnitCellDensity is the number of points of a simple cubic lattice per area of the plane.",
  ["inputs"], "all Miller indices up to the bound, all non-singular integer cells up to the bound, every elementary change of the cell",
  "tests look at five indices, three cells and an isotropic expansion",
  ["pfc/miller.go", "pfc/lattice.go"],
  [("NumEquivalent3D / EquivalentMiller", "pfc/miller.go"), ("Cell.Reciprocal / CellChange", "pfc/lattice.go")],
  "all indices and cells up to the bound are passed to the real code and compared with the group orbit and the defining relations")
P("P02", "Mode expansion: densities, integrals, amplitudes and elastic fits",
  "ModeDensity is the sum of cosines over all equivalent planes; UnitcellIntegral equals the exact number of zero-sum combinations of reciprocal vectors for every combination of powers; Gauss quadrature of order n integrates all monomials up to degree 2n-1 over the unit square and cube. Solve uses every starting point of the explorer once and returns stationary amplitudes whose reported energy is that of the exact free energy polynomial, never above any starting point nor above the liquid; the octant explorer visits every sign combination exactly once. MatchElasticProp meets attainable targets with one or more modes, reports the properties of the returned amplitudes, and PeakWidths follow from them and the number of equivalent planes.",
  ["inputs", "configurations"], "all pairs of modes of the lists, all powers with total degree <= 4, all sign combinations of up to five amplitudes",
  "tests evaluate five integrals and two minimisations",
  ["pfc/mode_solver.go", "pfc/quadrature.go", "pfc/initialGuessExplorer.go"],
  [("ModeSolver.UnitcellIntegral / Solve / MatchElasticProp", "pfc/mode_solver.go"), ("HyperOctantExplorer.Next", "pfc/initialGuessExplorer.go")],
  "exact combinatorial integrals and free energy polynomials are enumerated and compared with the real solver for every set of modes, mixture and explorer of the lists")
P("P03", "Crystals, kernels and correlation functions",
  "BuildCrystal puts exactly one copy of the kernel on every lattice site of a commensurate periodic domain (non-overlapping kernels with integer cutoff, sites on nodes), all copies equal, and touches no other node; kernels vanish beyond their cutoff. CornersScaledCrd gives all corners of the domain in scaled coordinates of any cell; TiltGB joins the grid rotated by +angle/2 and -angle/2 at the middle. The pair correlation function is the envelope of its damped Gaussian peaks, the square lattice peaks sit at the lengths of its reciprocal vectors, the ideal mixture and indicator polynomials have the documented values and derivatives, and the two phase correlation function interpolates between both phases node by node and leaves its argument unchanged.",
  ["inputs", "configurations"], "all commensurate domains, cells, bases and kernels of the lists, all impulses of the concentration on all small domains",
  "tests count atoms of three crystals (rounded down) and use one uniform concentration",
  ["pfc/periodicFieldInit.go", "pfc/twoPhaseCorrFunc.go", "pfc/pairCorrelation.go", "pfc/ideal.go"],
  [("BuildCrystal / TiltGB", "pfc/periodicFieldInit.go"), ("TwoPhaseCorrFunc.Evaluate", "pfc/twoPhaseCorrFunc.go"), ("ReciprocalSpacePairCorrelation.Eval", "pfc/pairCorrelation.go")],
  "all commensurate crystals of the lists are built by the real code and compared node by node with the set of lattice sites; the correlation functions are compared with their formulas on complete grids")
