CONSTANTS Problems = {1, 2, 3, 4, 5, 8}
 MaxRestarts = 1
 MaxLearn = 2
 Strict = TRUE
 Off = {}
SPECIFICATION Spec
PROPERTY Ends
INVARIANTS TrailOk ReasonsOk ConstraintsOk LearnedImplied ReasonsImplied SatRight UnsatRight
