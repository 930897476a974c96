SPECIFICATION Spec
CONSTANTS K = 6 Room = 4 Offset = "moved" Loop = "all" Eof = "error" OnError = "state"
INVARIANTS Delivered Written Reported
PROPERTY Terminates
