"""C04 Python arithmetic."""
import core, ops
from core import Sub

OPS = ("add", "sub", "addsub")
SUBS = [
    Sub("op-fn", ops.op_case(OPS), ops.run_fn, 18000, 600000),
    Sub("op-class", ops.op_case(OPS), ops.run_class, 12000, 400000),
]
RULE = ("a case is one (operation, operand formats, result format, modes, operands, layout); non-trivial when the final resize loses "
        "bits or overflows for at least one element, or (without result format) the exact result is not zero")

if __name__ == "__main__":
    raise SystemExit(core.main("C04", SUBS, RULE, ["Python 3.12, numpy 2.3 float64"]))
