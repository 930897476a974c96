SPECIFICATION Spec
CONSTANTS K = 4 Room = 3 Offset = "moved" Loop = "all" Eof = "error" OnError = "state"
INVARIANTS Delivered Written Reported
PROPERTY Terminates
