CONSTANTS
  Ok <- GpsOk
  Want <- GpsWant
INIT TLInit
NEXT TLNext
