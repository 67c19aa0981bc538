"""pyvc: a deductive verifier (verification-condition generator) for the
subset of Python that ndg_xacml uses.  See DESIGN.md."""
