------------------------------ MODULE TraceIO -------------------------------
\* The traces in a file, one JSON object per line (read by java/TraceIO.java):
\* JSON objects become records, arrays sequences, decimal strings numbers.
ReadTraces(file) == CHOOSE s : TRUE
\* x is a record with field f (defined for every value x)
HasField(x, f) == f \in DOMAIN x
\* a new number; on the side, one line of JSON is written to the file:
\* operation o was performed in the state with number parent (-1: o is a heading)
Emit(file, parent, o) == CHOOSE n : n # parent
=============================================================================
