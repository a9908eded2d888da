SPECIFICATION Spec
CONSTANTS Mode = "graph"
          NR = 1
          NF = 3
          NV = 1
          Depth = 0
          Gen = FALSE
INVARIANTS FindRight HideUndone LaterAdds LevelsRight
CHECK_DEADLOCK FALSE
