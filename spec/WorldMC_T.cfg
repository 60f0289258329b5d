SPECIFICATION Spec
CONSTANTS Scans = 3
 Obs = 2
 Far = 1
INVARIANTS SumOfAll Guess EveryScanOnce EachOnce ToldTheTruth
PROPERTIES AllTold QualityOfItsMove
CHECK_DEADLOCK FALSE
