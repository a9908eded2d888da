SPECIFICATION WSpec
CONSTANTS MInit <- P01Init
          MStep <- P01Step
VIEW View
CHECK_DEADLOCK FALSE
