SPECIFICATION TraceSpec
INVARIANT Partition
ALIAS Where
