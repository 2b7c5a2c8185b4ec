from specs import spaces, elements
from specs.families import obligations

OBLIGATIONS = obligations("C14") + spaces.OBLIGATIONS + elements.obligations("C14")
