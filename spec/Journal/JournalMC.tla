----------------------------- MODULE JournalMC -----------------------------
EXTENDS Journal
=============================================================================
