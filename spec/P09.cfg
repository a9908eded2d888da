SPECIFICATION WSpec
CONSTANTS MInit <- P09Init
          MStep <- P09Step
VIEW View
CHECK_DEADLOCK FALSE
