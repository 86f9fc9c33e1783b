CONSTANTS
  Ok <- XOk
  Want <- XWant
INIT TLInit
NEXT TLNext
