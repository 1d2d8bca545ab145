SPECIFICATION Spec
CONSTANTS
  Size = 3
  MaxOps = 3
INVARIANTS InRange SplitReads SeeksAdd FailedSeeksDoNotMove ExactIsRead Emit
