SPECIFICATION Spec
CONSTANTS N = 2 E = 2 S = 3 Ops = 3 Count = "bytes" Size = "full"
INVARIANTS InOrder Owed Told AllTaken
