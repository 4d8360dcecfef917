SPECIFICATION Spec
CONSTANTS Versions = {30, 31, 32}
          Bases = {"sparse", "rich", "clash"}
          EmitDocs = TRUE
          WithEdits = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS EditSane MoveSane
