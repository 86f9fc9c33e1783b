CONSTANTS
  Ok <- LOk
  Want <- LWant
INIT TLInit
NEXT TLNext
