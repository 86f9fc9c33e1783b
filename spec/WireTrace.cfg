CONSTANTS
  Ok <- WireOk
  Want <- WireWant
INIT TLInit
NEXT TLNext
