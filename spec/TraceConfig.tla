----------------------------- MODULE TraceConfig ----------------------------
EXTENDS Config, TraceCore
=============================================================================
