SPECIFICATION Spec
CONSTANTS Mode = "disk"
          NR = 2
          NF = 1
          NV = 2
          Depth = 0
          Gen = FALSE
INVARIANTS FindRight HideUndone LaterAdds LevelsRight
CHECK_DEADLOCK FALSE
