SPECIFICATION Spec
INVARIANTS NeverWhenNoColor OnlyTerminals ForcedWhenAsked Available
PROPERTIES ClosingEnds
CHECK_DEADLOCK FALSE
