SPECIFICATION WSpec
CONSTANTS MInit <- P03Init
          MStep <- P03Step
VIEW View
CHECK_DEADLOCK FALSE
