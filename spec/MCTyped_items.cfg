SPECIFICATION Spec
CONSTANTS N = 2 E = 2 S = 3 Ops = 2 Count = "items" Size = "full"
INVARIANTS InOrder Owed Told AllTaken
