SPECIFICATION HSpec
CONSTANTS Versions = {30, 31, 32}
          Bases = {"sparse", "rich"}
          EmitDocs = TRUE
          WithEdits = FALSE
          Steps = 4
CHECK_DEADLOCK FALSE
PROPERTIES LooksKeep EditsFelt
