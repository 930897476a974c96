SPECIFICATION Spec
CONSTANTS K = 3 Room = 3 Offset = "moved" Loop = "once" Eof = "error" OnError = "state"
INVARIANTS Delivered Written Reported
PROPERTY Terminates
