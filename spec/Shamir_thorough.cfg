SPECIFICATION Spec
CONSTANTS P = 7
 MaxN = 4
 MaxNodes = 6
INVARIANT ShareOk Hidden GraphOk
