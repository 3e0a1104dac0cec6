SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxSteps = 2
          Plain = FALSE
          Wide = FALSE
INVARIANTS Good Show
PROPERTIES AttrReach Undone SetShows NodeReach
