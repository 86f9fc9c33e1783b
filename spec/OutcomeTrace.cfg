CONSTANTS MaxOut = 0  MaxErr = 0  Ns = {1}
  Ok <- OutcomeOk
  Want <- OutcomeWant
INIT TInit
NEXT TNext
