------------------------------ MODULE TraceTool ------------------------------
EXTENDS Tool, TraceCore
=============================================================================
