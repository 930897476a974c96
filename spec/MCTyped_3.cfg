SPECIFICATION Spec
CONSTANTS N = 3 E = 1 S = 2 Ops = 2 Count = "bytes" Size = "full"
INVARIANTS InOrder Owed Told AllTaken
