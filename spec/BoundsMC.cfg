SPECIFICATION Spec
CONSTANTS Span <- SpanMC
 Imps = {1, 2}
 InitW = {1, 2, 3, 4}
 Populate = TRUE
INVARIANTS Bounds Fit
CHECK_DEADLOCK FALSE
