SPECIFICATION Spec
CONSTANTS Nx = 2
 Ny = 1
 Nt = 1
 Guesses = {0, 7}
 Runs = 2
INVARIANTS Once OnGrid Complete
CHECK_DEADLOCK FALSE
