SPECIFICATION Spec
INVARIANTS IdentityLaw Laws
CHECK_DEADLOCK FALSE
