SPECIFICATION WSpec
CONSTANTS MInit <- P10Init
          MStep <- P10Step
VIEW View
CHECK_DEADLOCK FALSE
