CONSTANTS
  Ok <- EncOk
  Want <- EncWant
INIT TLInit
NEXT TLNext
