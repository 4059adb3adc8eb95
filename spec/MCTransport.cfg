SPECIFICATION Spec
CONSTANTS
  N = 2
  Span = 3
INVARIANTS CertificateExact MeanKept UniformIdentity
CHECK_DEADLOCK FALSE
