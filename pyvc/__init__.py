"""pyvc - a deductive verifier for (mechanically instrumented) real Python code.

See /verif/DESIGN.md.  The program text executed here is the text of /repo/src, read on every
run; rewrite.py states exactly what the instrumentation changes."""
