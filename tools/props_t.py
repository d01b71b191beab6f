from common import P
P("T05", "Saddle point searches follow shrinking dimer dynamics of all fields",
  "A step of the SDD stepper evolves the vector of all fields with the force alpha*F(x1)+(1-alpha)*F(x2), evaluated half the current dimer length to either side of the current fields, reflected in the unit orientation vector of all fields, (I-2vv^T), with the linear terms treated implicitly; it rotates the orientation by (I-vv^T)(F(x2)-F(x1))/(l*tau), keeps it normalised, and the dimer length is max(MinDimerLength, l0*exp(-t/tau)) with time = steps*Dt. Consequently a search that starts near an index one saddle of several coupled fields ends in it with the unstable direction as orientation. A search without orientation, without time step, with an orientation of wrong size or with a filter is refused; the monitor shows the largest Fourier transformed force, the root mean square force and the largest torque of the last step and the norm of the fields before it, its log has one header and one row per epoch, and the stored orientation is that of the search.",
  ["inputs", "configurations", "histories"], "all systems of two coupled fields with two terms out of eight per equation, all small domains, all parameter combinations of the lists, all grids of starting points",
  "tests follow three searches (one with two uncoupled fields) to the end",
  ["pf/sdd.go"],
  [("SDD.Step", "pf/sdd.go"), ("SDD.DimerLength", "pf/sdd.go"), ("SDDMonitor.Log", "pf/sdd.go")],
  "the real stepper and a dense real space reference of the dimer equations are advanced side by side for every enumerated system and compared after every step; searches on rotated surfaces are run to the end")
