SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANTS FinalNewline Indented LineEnds Comments Doubled BlankLines Commas BraceSpace Broken Idempotent Included
CHECK_DEADLOCK FALSE
