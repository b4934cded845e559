SPECIFICATION Spec
CONSTANTS
  N = 2
  K = 3
  Score <- S3
  HiB = TRUE
  NElite = 1
  MaxGen = 2
  Bug = "none"
INVARIANTS C01_Best C02_Elites C02_NeverWorse C03_Accounting C06_Protocol C24_Provenance
CHECK_DEADLOCK FALSE
