SPECIFICATION WSpec
CONSTANTS MInit <- P08Init
          MStep <- P08Step
VIEW View
CHECK_DEADLOCK FALSE
