from common import P
P("D01", "Stored simulation data is found again unchanged",
  "Whatever interleaving of registering simulations, saving fields, attributes, comments and monitors, and closing and reopening the database takes place, every value that was written is found again unchanged, at the node (position) and time step it was written for and attributed to the simulation that wrote it; nothing of one simulation is visible in, or changed by, another. Loading a stored time step, or the last one, gives back exactly the stored fields, including NaN and infinite values.",
  ["histories", "inputs", "configurations"], "all operation sequences up to the depth bound for several simulations in one database, all domain shapes of the list",
  "tests store one simulation once and count rows",
  ["pf/database.go"], [("SaveFields / Load / LoadLast / SetAttr / SetTextAttr / Comment / SaveMonitor", "pf/database.go")],
  "all operation sequences of the bound are executed on a real SQLite file and the content of every table and every load is compared with a model after each operation")
P("D02", "Failing or interrupted storage is never silent and never corrupts",
  "When a statement of the database fails, or the process dies between two statements, the calls that had completed stay durable, the interrupted call leaves either all or nothing of each field it was writing, the stored rows only refer to registered simulations, and the database can be opened and used afterwards. A call whose work could not be done reports it (error or panic); loading reports errors instead of returning partial fields.",
  ["faults", "crash points", "histories"], "a fault (error, crash) at every statement, commit and row of every history of the bound",
  "tests never make a statement fail",
  ["pf/database.go"], [("writeFields / Load / init", "pf/database.go")],
  "a wrapped SQLite driver injects an error or kills the process at every single driver call of each history in turn; the database is then inspected by an independent reader and reused",
  level="fault_enumeration", technique="exhaustive fault and crash point enumeration on the real code with a wrapped database driver")
P("D03", "One database holds one domain; mismatching data is refused",
  "A database only accepts fields that live on the domain its positions table describes. Fields or simulations with another domain (other shape, other number of nodes, 2D instead of 3D or the reverse) are refused, before or after reopening, and the refused call leaves nothing behind; matching data is always accepted.",
  ["configurations", "histories"], "all pairs of domain shapes of the list, fresh and reopened databases",
  "tests use one domain",
  ["pf/database.go"], [("SaveFields / positions check", "pf/database.go")],
  "all ordered pairs of domains are tried on a real SQLite file")
