SPECIFICATION Spec
INVARIANTS RoundTrip Show
PROPERTY Stable
CHECK_DEADLOCK FALSE
