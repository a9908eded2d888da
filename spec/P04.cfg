SPECIFICATION WSpec
CONSTANTS MInit <- P04Init
          MStep <- P04Step
VIEW View
CHECK_DEADLOCK FALSE
