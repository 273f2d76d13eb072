---------------------------- MODULE TraceRelease ----------------------------
EXTENDS Release, TraceCore
=============================================================================
