INIT Init
NEXT Next
CONSTANT Ns = {4, 5, 6, 7, 8, 9, 10, 11}
INVARIANTS Counts Share
