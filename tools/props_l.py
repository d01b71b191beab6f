from common import P
P("L01", "Elastic tensor algebra",
  "Entries of rank 4 tensors are independent of each other; contraction, energy density and effective stress are the sums over the contracted indices; the Voigt form sets all entries related by the minor symmetries. Rotate applies the rotation to all four indices (so two rotations compose and the transpose undoes one), RotationMatrix is a proper rotation by the angle about the axis, an isotropic tensor is unchanged by all rotations and gives the Young's modulus and Poisson ratio it was built from, and the tensor of a cubic material has all the symmetries of its Voigt form.",
  ["inputs"], "every entry of every tensor, all pairs of the 48 cubic rotations, rotations about all axes, all material constants of the lists",
  "tests rotate one or two tensors and look at a few entries",
  ["elasticity/rank4.go", "elasticity/linearElasticity.go", "elasticity/effectiveForce.go"],
  [("Rank4.Rotate / FromFlatVoigt / CubicMaterial / Isotropic", "elasticity/rank4.go"), ("EnergyDensity", "elasticity/linearElasticity.go")],
  "every entry and every pair of cubic rotations is enumerated on the real tensors and compared with an index-by-index reference")
P("L02", "Elastic equilibrium and strain energies of inclusions",
  "Displacements solve the balance of forces C_ijkl k_j k_l u_k = F_i at every frequency of every domain and have no mean; strains are the symmetrised gradients of the displacements; the effective force of an inclusion is minus the divergence of C times the misfit times the indicator. On odd domains the energy of any inclusion with the moduli of the matrix (HomogeneousModulusEnergy, CalculateStrainEnergy) is the elastic energy of the equilibrium strain per inclusion volume, with ellipsoid axes, misfit components (Voigt order xx, yy, zz, 2yz, 2xz, 2xy) and elastic tensor referring to the same axes; the first order force of a difference in moduli is the divergence of the stress difference. Energies scale with the square of the misfit and do not change when ellipsoid, misfit and tensors are turned together by any of the 48 symmetries of the cube. 'gopf elast energy' prints that energy for the input file and fails on malformed or missing input; 'gopf elast template' writes a complete usable input.",
  ["inputs", "configurations"], "all frequencies of all domains up to the bound; all inclusions, ellipsoids, tensors and misfits of the lists; all 48 symmetries",
  "tests use isotropic tensors, spheres and dilatational misfits, for which swapped axes and wrong shear terms are invisible",
  ["elasticity/linearElasticity.go", "elasticity/perturbation.go", "elasticity/strainEnergyCLI.go", "elasticity/shapes.go", "elasticity/effectiveForce.go", "cmd/energy.go", "cmd/template.go"],
  [("Displacements / Strain / HomogeneousModulusEnergy", "elasticity/linearElasticity.go"), ("PerturbedForce", "elasticity/perturbation.go"), ("CalculateStrainEnergy", "elasticity/strainEnergyCLI.go")],
  "the mechanical equilibrium is solved independently by a naive transform for every domain, inclusion, tensor and misfit of the lists and compared with the real code")
