SPECIFICATION Spec
CONSTANTS N = 2 E = 1 S = 2 Ops = 2 Count = "once" Size = "full"
INVARIANTS InOrder Owed Told AllTaken
