SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxSteps = 2
          Plain = TRUE
          Wide = FALSE
INVARIANTS Good Show
PROPERTIES AttrReach Undone SetShows NodeReach
