SPECIFICATION Spec
CONSTANTS
  Reg = {"a", "b"}
  MaxLen = 4
INVARIANTS TypeOK FullMeansAll InclusionExclusion SubsetAntisymmetric
PROPERTIES RefusalIsSilent OneRegisterAtATime
VIEW View
