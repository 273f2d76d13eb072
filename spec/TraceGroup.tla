---------------------------- MODULE TraceGroup ------------------------------
EXTENDS Group, TraceCore
=============================================================================
