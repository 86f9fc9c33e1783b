CONSTANTS
  Ok <- StOk
  Want <- StWant
INIT TLInit
NEXT TLNext
