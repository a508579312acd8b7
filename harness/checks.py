"""Dispatch of the property checks."""

import os
import sys
import traceback

import common


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    try:
        if prop in ("C01", "C02", "C03", "C04"):
            import math_cases

            return math_cases.check(prop, tier)
        if prop in ("C10", "C11", "C12", "C14", "C15", "C16", "C17", "C22"):
            import space_cases

            return space_cases.check(prop, tier)
        if prop in ("C06", "C07", "C08", "C09"):
            import model_cases

            return model_cases.check(prop, tier)
        if prop in ("C13", "C18", "C19"):
            import relation_cases

            return relation_cases.check(prop, tier)
        if prop == "C05":
            import heap_cases

            return heap_cases.check(prop, tier)
        if prop == "C20":
            import history_cases

            return history_cases.check(prop, tier)
        if prop == "C21":
            import state_cases

            return state_cases.check(prop, tier)
        if prop in ("C23", "C25"):
            import lab_cases

            return lab_cases.check(prop, tier)
        if prop == "C24":
            import sim_cases

            return sim_cases.check(prop, tier)
        if prop == "C27":
            import fit_cases

            return fit_cases.check(prop, tier)
        if prop == "C26":
            import opt_cases

            return opt_cases.check(prop, tier)
        if prop == "C28":
            import plot_cases

            return plot_cases.check(prop, tier)
        print("unknown property", prop)
        return 2
    except common.MachineryError as e:
        print("MACHINERY: %s" % e)
        return 3
    except Exception as e:
        text = traceback.format_exc()
        print(text, file=sys.stderr)
        last = traceback.extract_tb(e.__traceback__)[-1].filename
        odd = isinstance(e, (AttributeError, TypeError, ValueError, IndexError)) and last.endswith(("_cases.py", "energies.py"))
        if os.path.join(common.REPO, "src", "hyperelastic") + os.sep in text or odd:
            # a call of the library which is not allowed to fail has raised outside of a recorded call, or an object
            # of the library lacks the content (x, parameters, stretch..) which every caller reads
            c = common.Check(prop, tier)
            c.violation("unexpected exception", text.strip().splitlines()[-1], trace=text)
            return c.finish()
        return 4
