CONSTANTS
  Ok <- DOk
  Want <- DWant
INIT TLInit
NEXT TLNext
