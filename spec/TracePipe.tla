------------------------------ MODULE TracePipe ------------------------------
EXTENDS Pipe, TraceCore
=============================================================================
