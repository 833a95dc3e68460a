SPECIFICATION TraceSpec
INVARIANT Optimal
ALIAS Where
