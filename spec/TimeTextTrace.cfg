CONSTANTS Ok <- TOk
          Want <- TWant
INIT TLInit
NEXT TLNext
