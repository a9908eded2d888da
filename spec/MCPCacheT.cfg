SPECIFICATION Spec
CONSTANTS NH = 3
          Depth = 8
          Gen = FALSE
VIEW View
INVARIANTS WF InOrder CutHasRun LiveKept
PROPERTIES Locality
CHECK_DEADLOCK FALSE
