from common import P
P("C01", "Exported files hold exactly the selected stored data",
  "'gopf db export' writes, for the selected simulation (the newest one if none is given) and time step (the largest one if negative), a csv file with one row per node that gives its position and the stored value of every field of that time step, with six decimals, and nothing of other simulations or steps; --all writes one such file per stored time step. For timeseries, row k holds the values of step k of every stored series. A point that is not stored, or is stored as NaN, is never exported as a number. Every documented export type name is accepted.",
  ["inputs", "histories", "configurations"], "all stored histories of two simulations within the bound, all export commands",
  "there are no tests of the command line program",
  ["cmd/export.go", "cmd/util.go"], [("exportFieldData / exportTimeseries", "cmd/export.go")],
  "the real program is run as a subprocess on databases written by the real library, for every stored history of the bound; files are compared with the values stored")
P("C02", "Database queries report every stored item exactly once",
  "'gopf db attr', 'comment', 'list', 'time' and 'info' report every stored item exactly once, unabridged, and attributed to the simulation it was stored for: attributes (numbers and texts, in full tables, for one simulation, by name, unique names), comments of any length, simulation ids from newest to oldest (of simulations created in the same second the one registered last is newest), creation times, domain dimensions and the names of fields, attributes and timeseries. 'comment --new' replaces the comment of the selected simulation (the newest if none is given), also if it had none, and nothing else.",
  ["histories", "inputs"], "all contents of the bound, all command variants, all update sequences up to the depth bound",
  "there are no tests of the command line program",
  ["cmd/attr.go", "cmd/comment.go", "cmd/list.go", "cmd/time.go", "cmd/info.go", "cmd/util.go"],
  [("listAttributes / listSingleAttribute", "cmd/attr.go"), ("printAllComments", "cmd/comment.go"), ("showSimulationIds / showComments", "cmd/list.go")],
  "the real program is run as a subprocess on databases written by the real library, for every content and update sequence of the bound; the printed text is parsed and compared with a model")
P("C03", "Plots show each value at its position, for any row order",
  "The contour plot draws the value of the selected field of every node at the x and y position of that node (x to the right, y upwards), whatever the order of the rows in the csv file; if no field is given the first is shown. The line plot draws one curve, with a matching legend entry, for each requested field (all fields if none is given) through exactly the values of the nodes on the requested line. Neither picture depends on the other columns of the file, whatever they are called, or on spaces after the commas.",
  ["inputs", "configurations"], "all row permutations of small domains, every node, every line along every axis",
  "there are no tests of the command line program",
  ["cmd/contour.go", "cmd/lineplot.go"], [("NewHeatMapData / fillImage", "cmd/contour.go"), ("lineData", "cmd/lineplot.go")],
  "heat map data is checked for every permutation of the rows, pictures written by the real program are decoded (which pixels change when one value changes; curves of vector graphics) for every node and line of the bound")
