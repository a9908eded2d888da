SPECIFICATION WSpec
CONSTANTS MInit <- P15Init
          MStep <- P15Step
VIEW View
CHECK_DEADLOCK FALSE
