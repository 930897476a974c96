SPECIFICATION Spec
CONSTANTS N = 2 E = 1 S = 3 Ops = 2 Count = "bytes" Size = "single"
INVARIANTS InOrder Owed Told AllTaken
