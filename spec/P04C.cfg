SPECIFICATION WSpec
CONSTANTS MInit <- P04Init
          MStep <- P04StepC
VIEW View
CHECK_DEADLOCK FALSE
