CONSTANTS
  Ok <- EOk
  Want <- EWant
INIT TLInit
NEXT TLNext
