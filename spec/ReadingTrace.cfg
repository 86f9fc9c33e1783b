CONSTANTS Ok <- ROk Want <- RWant
INIT TLInit
NEXT TLNext
