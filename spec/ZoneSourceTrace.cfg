CONSTANTS Ok <- SOk Want <- SWant
INIT TLInit
NEXT TLNext
