"""One module per property: ID, LEVEL, CASES, RULE, ASSUMPTIONS, PROBES and
case(src, ctx)."""
