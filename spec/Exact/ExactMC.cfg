SPECIFICATION Spec
INVARIANTS Field Rounding Cpx Residues Words
CHECK_DEADLOCK FALSE
