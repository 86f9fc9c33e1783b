CONSTANTS Ok <- COk
          Want <- CWant
INIT TLInit
NEXT TLNext
