SPECIFICATION Spec
CONSTANTS Mode = "disk"
          NR = 2
          NF = 2
          NV = 2
          Depth = 14
          Gen = TRUE
INVARIANTS FindRight HideUndone LaterAdds LevelsRight Emit
CHECK_DEADLOCK FALSE
