import importlib, os, shutil, sys, traceback
from . import common as C

CHECKS = {
    "R01": ("c_regex", "run"),
    "R02": ("c_uni", "run"),
    "R03": ("c_match", "run"), "R04": ("c_match", "run"), "R05": ("c_match", "run"),
    "R06": ("c_anchor", "run"),
    "R07": ("c_hist", "run"), "R08": ("c_hist", "run"), "R09": ("c_hist", "run"), "R11": ("c_hist", "run"),
    "R14": ("c_dent", "run"),
    "R15": ("c_lexer", "run"),
    "R20": ("c_pat", "run"), "R22": ("c_eng", "run"), "R23": ("c_bison", "run"), "R21": ("c_fuzzy", "run"), "R19": ("c_syn", "run"), "R16": ("c_obj", "run"), "R17": ("c_obj", "run"),
    "R18": ("c_sets", "run"),
    "R10": ("c_lazy", "run"),
    "R12": ("c_input", "run"), "R13": ("c_input", "run"),
}


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod, fn = CHECKS[prop]
    try:
        m = importlib.import_module("vlib." + mod)
        rc = getattr(m, fn)(prop, tier).finish()
    except C.CheckError as e:
        print("CHECK-ERROR:", e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    if not os.environ.get("VERIF_KEEP"):
        for d in os.listdir(C.BUILD):
            if d.startswith("run-%s-" % prop):
                shutil.rmtree(os.path.join(C.BUILD, d), ignore_errors=True)
    sys.exit(rc)


main()
