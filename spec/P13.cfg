SPECIFICATION WSpec
CONSTANTS MInit <- P13Init
          MStep <- P13Step
VIEW View
CHECK_DEADLOCK FALSE
