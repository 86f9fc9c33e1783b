CONSTANTS
  Ok <- ZOk
  Want <- ZWant
INIT TLInit
NEXT TLNext
