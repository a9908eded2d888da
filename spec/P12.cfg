SPECIFICATION WSpec
CONSTANTS MInit <- P12Init
          MStep <- P12Step
VIEW View
CHECK_DEADLOCK FALSE
