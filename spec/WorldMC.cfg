SPECIFICATION Spec
CONSTANTS Scans = 3
 Obs = 1
 Far = 2
INVARIANTS SumOfAll Guess EveryScanOnce EachOnce ToldTheTruth
PROPERTIES AllTold QualityOfItsMove
CHECK_DEADLOCK FALSE
