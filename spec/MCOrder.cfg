CONSTANTS
  Leaves <- BoundLeaves
  MaxSeq = 2
INIT Init
NEXT Next
INVARIANTS Antisymmetric Consistent Transitive IsCanonicalOrder Emit
CHECK_DEADLOCK FALSE
