CONSTANTS Mistake = "none" MaxHist = 2
SPECIFICATION Spec
INVARIANTS ImportsSucceed TorchPartsNeedTorch ExportsFit CitationFits Bounded
PROPERTY NoEndlessImport
CHECK_DEADLOCK FALSE
