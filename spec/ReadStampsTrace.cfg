CONSTANTS Ok <- NOk Want <- NWant
INIT TLInit
NEXT TLNext
