SPECIFICATION Spec
CONSTANTS
  N = 3
  Span = 2
INVARIANTS CertificateExact MeanKept UniformIdentity
CHECK_DEADLOCK FALSE
