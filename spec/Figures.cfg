INIT Init
NEXT FNext
INVARIANT Report
