from common import P
P("F01", "Differential operator terms evaluate the documented operator",
  "The library terms Div F Grad c, -v.Grad c (advection), F LAP c, Factor*(Grad c)^2 and K_ij d2c/dx_i dx_j contribute exactly the spectral evaluation of the documented operator to the equation they are used in, in 2D and 3D, for even and odd domains, real fields and all schemes; the Nyquist mode has no odd derivative, so real fields stay real. Any number of such terms, of the same or different fields, registered in any order, can be used together with user fields of any name (apart from the generated GRAD_<field>_<direction>) without influencing each other. Inconsistent advection terms are refused.",
  ["inputs", "configurations", "programs", "histories"], "all small domains, all pairs of impulses of the fields that enter, all combinations and orders of several terms",
  "tests evaluate one smooth field on one square even domain with one term, outside of a solver",
  ["pf/gradientCalculator.go", "pf/advection.go", "pf/squareGradientTerm.go", "pf/tensorialHessian.go"],
  [("DivGrad.PrepareModel / Construct", "pf/gradientCalculator.go"), ("Advection.PrepareModel", "pf/advection.go"), ("SquaredGradient.Construct", "pf/squareGradientTerm.go"), ("TensorialHessian.Construct", "pf/tensorialHessian.go")],
  "each term is run by the real solver on all pairs of impulses (which determine a bilinear operator) of all small domains, and in all combinations and registration orders with other terms, and compared with a naive Fourier evaluation of the operator")
P("F02", "Energy based terms are derivatives of their energies",
  "The pair correlation term (implicit and explicit form, with and without Laplacian), the ideal mixture term (mixed term and function form) and the penalty of negative values contribute prefactor times the functional derivative of their documented energies, and the reported energies have exactly these derivatives. The homogeneous modulus elasticity term equals -dE/dx of the documented elastic energy in mechanical equilibrium for the current field, from the first step on and in every stage of a scheme (in 2D for misfits and tensors without out-of-plane shear).",
  ["inputs", "configurations", "histories"], "all small domains, all impulses, all parameter combinations of the lists",
  "tests evaluate single terms with unit prefactor for one field",
  ["pf/pairCorrelationTerm.go", "pf/negative_value_penalty.go", "pf/homoLinElast.go", "pfc/ideal.go", "pfc/pairCorrelation.go"],
  [("PairCorrlationTerm.Construct / GetEnergy", "pf/pairCorrelationTerm.go"), ("IdealMixtureTerm", "pf/pairCorrelationTerm.go"), ("HomogeneousModulusLinElast.Construct", "pf/homoLinElast.go")],
  "terms are run by the real solver on all enumerated fields; energies are differentiated exactly (finite differences of polynomials) and elasticity is compared with an independent equilibrium solver")
P("F03", "Transport, noise and constraint terms conserve what they should",
  "The charge transport term equals minus the divergence of sigma*E with E from Poisson's equation plus the external field (tensor components in the order xx, yy, zz, yz, xz, xy or xx, yy, xy), and Current reports that current for densities in real and Fourier space. Conservative noise is the discrete divergence of the random currents: it never changes the mean and keeps fields real, and noise of strength S has variance 2S. The volume conserving term keeps the volume constant from the second step on for every stationary drive and indicator. Missing currents or indicators are reported.",
  ["inputs", "configurations", "histories"], "all small domains, all pairs of impulses of charge, conductivity, current, indicator and drive",
  "tests use isotropic constant conductivity and one random run",
  ["pf/chargeTransport.go", "pf/noise.go", "pf/volumeConserving.go"],
  [("ChargeTransport.current", "pf/chargeTransport.go"), ("ConservativeNoise.Construct", "pf/noise.go"), ("VolumeConservingLP.OnStepFinished", "pf/volumeConserving.go")],
  "terms are run by the real solver on all pairs of impulses (a basis of the bilinear operators) of all small domains; random currents are replaced by an impulse basis")
P("F04", "Filters, viscosity and bound transforms follow their definitions",
  "A Vandeven filter of order p is one minus the regularised incomplete beta function of its argument (to 2e-4): one at zero, decreasing, zero at and beyond one; used in a run it leaves the mean untouched and amplifies no mode. Spectral viscosity damps every mode by eps*Q(k)*k^Power with the documented Q. A bound transform maps the real line increasingly into the open interval (Min, Max), zero to its centre, and Backward is its inverse.",
  ["inputs", "configurations"], "all orders, thresholds, powers and intervals of the lists, all modes of all small domains",
  "tests look at a few values of one filter",
  ["pf/vandeven.go", "pf/spectralViscosity.go", "pf/boundTransform.go"],
  [("NewVandeven / Eval", "pf/vandeven.go"), ("interpolant", "pf/spectralViscosity.go"), ("BoundTransform", "pf/boundTransform.go")],
  "values of the real code are compared with closed forms on a complete grid of arguments and, through the real solver, for all modes of all small domains")
