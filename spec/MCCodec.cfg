SPECIFICATION Spec
CONSTANTS Deep = FALSE
          Emit = TRUE
INVARIANTS RoundTrip Bounded Stable PrefixClosed Vectors
CHECK_DEADLOCK FALSE
