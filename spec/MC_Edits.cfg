SPECIFICATION Spec
CONSTANTS OUTTYPES <- cOUT INTYPES <- cIN DEFAULTS <- cDEF DESCS <- cDESC KINDS <- cKIND OPNAMES <- cOPS NEWLOCS <- cLOCS REASONS <- cREASON APPVALS <- cVALS DEPTH <- cDEPTH
VIEW Version
INVARIANTS ReportsAreRight Case
CHECK_DEADLOCK FALSE
