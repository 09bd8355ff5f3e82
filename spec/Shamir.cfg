SPECIFICATION Spec
CONSTANTS P = 5
 MaxN = 4
 MaxNodes = 5
INVARIANT ShareOk Hidden GraphOk
