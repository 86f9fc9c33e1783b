CONSTANTS
  Ok <- FOk
  Want <- FWant
INIT TLInit
NEXT TLNext
