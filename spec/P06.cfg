SPECIFICATION WSpec
CONSTANTS MInit <- P06Init
          MStep <- P06Step
VIEW View
CHECK_DEADLOCK FALSE
