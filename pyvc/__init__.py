"""pyvc: a small contract-based deductive verifier for the Python code in /repo."""
