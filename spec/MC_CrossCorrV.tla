--------------------------- MODULE MC_CrossCorrV ---------------------------
EXTENDS MC_CrossCorr
ValsDef == {0, 1, -2}
=============================================================================
