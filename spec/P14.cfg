SPECIFICATION WSpec
CONSTANTS MInit <- P14Init
          MStep <- P14Step
VIEW View
CHECK_DEADLOCK FALSE
