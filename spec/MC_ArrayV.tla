------------------------------ MODULE MC_ArrayV ------------------------------
EXTENDS MC_Array
SrcAll == {-2, 0, 2, 4, 6}
SrcOut == {-3, 8}
SrcOne == {-2}
=============================================================================
