CONSTANTS Ok <- POk Want <- PWant
INIT TLInit
NEXT TLNext
