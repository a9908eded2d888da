SPECIFICATION Spec
CONSTANTS NH = 2
          Depth = 5
          Gen = FALSE
VIEW View
INVARIANTS WF InOrder CutHasRun LiveKept
PROPERTIES Locality
CHECK_DEADLOCK FALSE
