SPECIFICATION WSpec
CONSTANTS MInit <- P02Init
          MStep <- P02Step
VIEW View
CHECK_DEADLOCK FALSE
