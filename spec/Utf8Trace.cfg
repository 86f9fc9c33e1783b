CONSTANTS
  Ok <- UOk
  Want <- UWant
INIT TLInit
NEXT TLNext
