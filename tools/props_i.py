from common import P
P("I01", "Files written by a simulation are read back unchanged",
  "Every real field value written to a binary file (big endian float64, one number per node) is read back bit for bit, whatever the value, and a second write to the same file leaves nothing of the first. Csv files (of fields and of grids) hold one row per node with its position and the value of every field (six decimals), and loading them gives every field back at every node; a csv file with a cell that is not a number or that does not fit the domain is refused. Byte files map the range of a field linearly to 0..255 (minimum 0, maximum 255, whatever the magnitude of the values). Files of different epochs and fields never overwrite each other, and the xdmf file refers to every field file of every step with dimensions and data layout such that a viewer finds each value at its position, and gives each step a time of its own, in the order of the steps.",
  ["inputs", "histories", "configurations"], "all short arrays of special values, all epoch sequences up to the bound, every cell of a csv file, all small domains",
  "tests write one file and look at a few values; nothing reads the xdmf file",
  ["pf/fileIO.go", "pf/xdmf.go", "pfutil/grid.go"], [("SaveFloat64 / LoadFloat64 / CsvIO / LoadCSV", "pf/fileIO.go"), ("WriteXDMF", "pf/xdmf.go")],
  "files are written by the real code for every enumerated content and history, then read with the loaders of the repository and with an independent reader")
