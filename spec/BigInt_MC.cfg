SPECIFICATION Spec
INVARIANTS WellFormed AddOk SubOk MulOk CmpOk LawsOk
CHECK_DEADLOCK FALSE
