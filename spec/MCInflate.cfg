SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS EmitBytes Verdict Trailing Truncated Capacity
