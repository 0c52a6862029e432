"""symx: symbolic execution of real Python source (AST instrumentation + z3)."""
