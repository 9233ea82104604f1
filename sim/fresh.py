"""A freshly started interpreter: decodes the requests, or reads the stored reports, given on standard input
(used by C02 and C25)."""
import base64
import json
import os
import pickle
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True

if __name__ == "__main__":
    job = json.load(sys.stdin)
    from sim import boot, history, observe

    try:
        boot.bootstrap(job["import_us"])
    except Exception as e:
        json.dump("import: %s: %s" % (type(e).__name__, e), sys.stdout)
        sys.exit(0)
    if "stored" in job:
        try:
            from sim.props.c25 import look

            out = [look(rep) for rep in pickle.loads(base64.b64decode(job["stored"]))]
        except Exception as e:
            out = "%s: %s" % (type(e).__name__, e)
    else:
        out = [observe.digest(history.outcome(q)) for q in job["requests"]]
    sys.stdout.write(json.dumps(out))
