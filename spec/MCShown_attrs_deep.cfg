SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxSteps = 2
          Plain = FALSE
          Wide = TRUE
INVARIANTS Good Show
PROPERTIES AttrReach Undone SetShows NodeReach
