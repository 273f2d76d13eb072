----------------------------- MODULE TraceAdmin -----------------------------
EXTENDS Admin, TraceCore
=============================================================================
