SPECIFICATION Spec
CONSTANTS K = 0 Room = 1 Offset = "moved" Loop = "all" Eof = "error" OnError = "state"
INVARIANTS Delivered Written Reported
PROPERTY Terminates
