----------------------------- MODULE TraceLookup ----------------------------
EXTENDS Lookup, TraceCore
=============================================================================
