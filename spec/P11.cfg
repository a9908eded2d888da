SPECIFICATION WSpec
CONSTANTS MInit <- P11Init
          MStep <- P11Step
VIEW View
CHECK_DEADLOCK FALSE
