SPECIFICATION Spec
CONSTANTS K = 3 Room = 3 Offset = "moved" Loop = "all" Eof = "retry" OnError = "state"
INVARIANTS Delivered Written Reported
PROPERTY Terminates
