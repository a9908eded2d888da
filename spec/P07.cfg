SPECIFICATION WSpec
CONSTANTS MInit <- P07Init
          MStep <- P07Step
VIEW View
CHECK_DEADLOCK FALSE
