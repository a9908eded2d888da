SPECIFICATION WSpec
CONSTANTS MInit <- P04Init
          MStep <- P05Step
VIEW View
CHECK_DEADLOCK FALSE
