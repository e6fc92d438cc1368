SPECIFICATION Spec
CONSTANTS
  Ignored = {"size"}
  MaxFaults = 8
INVARIANT Contract
