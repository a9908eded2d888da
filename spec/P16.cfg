SPECIFICATION WSpec
CONSTANTS MInit <- P16Init
          MStep <- P16Step
VIEW View
CHECK_DEADLOCK FALSE
