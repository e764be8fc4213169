from checks import ops

LEVEL = "translation_validation"
BOUNDS = "the resizing matrix of checks/ops.py: single operators on tensors of a few elements per axis; all inputs and all traceable parameters symbolic"
cases = ops.resizing
