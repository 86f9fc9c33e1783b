CONSTANTS Ok <- AOk
          Want <- AWant
INIT TLInit
NEXT TLNext
