SPECIFICATION BSpec
CONSTANTS Versions = {20, 30, 31, 32}
          Bases = {"sparse", "rich"}
          EmitDocs = TRUE
          WithEdits = FALSE
CHECK_DEADLOCK FALSE
