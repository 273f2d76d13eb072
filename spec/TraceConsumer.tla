--------------------------- MODULE TraceConsumer ----------------------------
EXTENDS Consumer, TraceCore
=============================================================================
