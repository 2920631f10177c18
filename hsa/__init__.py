'''hsa - hylaa static analysis: a value-graph abstract interpreter over the Python AST and the rules built on it.'''
