from . import common, defs

NAMES = tuple("DB,XB,GD43,GD53".split(","))
CASES = {"quick": 3500, "thorough": 16000}
CHUNK = 10
RULE = defs.RULE
ASSUMPTIONS = defs.ASSUMPTIONS
REQUIRED = {"inc_verdicts": 500, "batch_verdicts": 500, "bulk_verdicts": 8, **{"final_" + n: 50 for n in NAMES}}


def run_case(ctx, case):
    defs.case(ctx, case, NAMES)


def example():
    return common.example_stream()
