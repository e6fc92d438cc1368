SPECIFICATION Spec
CONSTANTS
  Ignored = {"size"}
  MaxFaults = 2
INVARIANT Contract
