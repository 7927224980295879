"""pyvc: a contract verifier for the Python subset used by mt_metadata.

core        path exploration, obligations, symbolic values
instrument  mechanical, import-time instrumentation of /repo's own source
npmodel     trusted models of the numpy / math primitives
rt          contracts evaluated on the un-instrumented code (bounded stand-ins,
            witness search, counter-model replay)
"""
