from specs.families import obligations

OBLIGATIONS = obligations("C13")
