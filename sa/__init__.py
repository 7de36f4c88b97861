"""Static analyses for IDSIA/brainstorm.  Pure stdlib; reads /repo's source only."""
