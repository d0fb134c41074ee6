SPECIFICATION Spec
CONSTANTS MaxCoef = 1
 Ks = {1, 2}
 Ms = {1, 2}
 Clamps = {0}
INVARIANTS InRange NoNaN PermNoNaN Product SingleRef PoisonRefused PoisonLocal Unequal OnlyThese PermShape NotStuck
PROPERTY Terminates
CHECK_DEADLOCK FALSE
