SPECIFICATION Spec
CONSTANTS Versions = {20, 30, 31, 32}
          Bases = {"sparse", "rich", "clash", "ref", "refsib"}
          EmitDocs = TRUE
          WithEdits = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS EditSane MoveSane
