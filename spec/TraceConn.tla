----------------------------- MODULE TraceConn ------------------------------
EXTENDS Conn, TraceCore
=============================================================================
