TECH = {"*": "TLA+ specification checked exhaustively with TLC; traces recorded from the code validated against it with TLC"}
NOTE = {"*": "Exhaustive for the specification within the constants given in the evidence; the code is judged on the recorded "
             "executions (seeded random scenarios), each decided clause by clause by TLC. Trusts TLC and the drivers' projection."}
NA = {}
