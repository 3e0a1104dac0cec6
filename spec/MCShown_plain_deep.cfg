SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxSteps = 3
          Plain = TRUE
          Wide = TRUE
INVARIANTS Good Show
PROPERTIES AttrReach Undone SetShows NodeReach
