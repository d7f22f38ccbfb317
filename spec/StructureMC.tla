---------------------------- MODULE StructureMC ----------------------------
EXTENDS Structure
SmallNames == {"a", "b"}
SmallB == {"p"}
SmallD == {"x", "y"}
FullNames == {"a", "b", "c", "d", "s"}
FullB == {"p", "q", "r"}
FullD == {"x", "y", "z", "w"}
T2 == {"data", "other"}
K2 == {"a", "kid"}
=============================================================================
