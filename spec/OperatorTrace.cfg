SPECIFICATION Spec
CONSTANTS
  Tol = "1e-7"
  SymTol = "1e-7"
