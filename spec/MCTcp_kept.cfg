SPECIFICATION Spec
CONSTANTS K = 3 Room = 3 Offset = "kept" Loop = "all" Eof = "error" OnError = "state"
INVARIANTS Delivered Written Reported
PROPERTY Terminates
