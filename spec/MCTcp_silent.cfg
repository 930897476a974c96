SPECIFICATION Spec
CONSTANTS K = 3 Room = 3 Offset = "moved" Loop = "all" Eof = "error" OnError = "silent"
INVARIANTS Delivered Written Reported
PROPERTY Terminates
