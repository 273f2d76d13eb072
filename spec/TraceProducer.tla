--------------------------- MODULE TraceProducer ----------------------------
EXTENDS Producer, TraceCore
=============================================================================
