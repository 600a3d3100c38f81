"""dp_driver.py STUBS SCRIPT OUT ARG...  runs data_processing.py with stand-ins for its libraries
and writes the tables that an interactive user would have as JSON to OUT."""
import json
import math
import sys
import traceback

stubs, script, out = sys.argv[1:4]
sys.path.insert(0, stubs)
sys.argv = [script] + sys.argv[4:]
import pandas


def table(df):
    clean = lambda v: None if v is None or (isinstance(v, float) and math.isnan(v)) else v
    return {"index": list(df._index), "columns": {str(c): [clean(x) for x in v] for c, v in df._cols.items()}}


res = {}
try:
    g = {"__name__": "__main__", "__file__": script}
    exec(compile(open(script).read(), script, "exec"), g)
    res["ret"] = table(g["ret_frame"])
    res["rel"] = table(g["rel_results"])
    for name in ("ret_frame", "rel_results"):
        res["summary_" + name] = [table(t) for t in g["get_summary_table"](g[name])]
    g["printDFToFile"](g["ret_frame"], out + ".csv")
    res["csv"] = open(out + ".csv").read()
    res["csv_expected"] = g["ret_frame"].to_csv(index=False)
except pandas.StubGap as e:
    res["gap"] = str(e)
except BaseException as e:
    res["error"] = traceback.format_exc()
with open(out, "w") as f:
    json.dump(res, f)
