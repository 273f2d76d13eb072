------------------------------ MODULE TraceFront ------------------------------
EXTENDS Front, TraceCore
=============================================================================
