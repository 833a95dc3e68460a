SPECIFICATION TraceSpec
ALIAS Where
