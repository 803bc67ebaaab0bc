"""Runs tasks of one property module; JSON lines on stdin and (a copy of) stdout."""
import faulthandler
import importlib
import json
import os
import sys
import traceback


def main():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    faulthandler.enable()
    os.environ.pop("LD_PRELOAD", None)  # not for the processes started from here
    prop = sys.argv[1]
    try:
        mod = importlib.import_module(f"mc.props.{prop.lower()}")
    except Exception:
        out.write(json.dumps({"import_error": traceback.format_exc()}) + "\n")
        out.flush()
        return
    out.write(json.dumps({"ready": True}) + "\n")
    out.flush()
    for line in sys.stdin:
        req = json.loads(line)
        try:
            if req["op"] == "tasks":
                r = {"tasks": mod.tasks(req["tier"])}
            elif req["op"] == "meta":
                r = {"meta": mod.META}
            elif req["op"] == "run":
                try:
                    r = mod.run(req["task"])
                except Exception:
                    # Only public calls are made, with arguments that the tree
                    # accepts: an unexpected exception is a failure of the call.
                    tb = traceback.format_exc()[-1800:]
                    r = {"violations": [{"case": None, "msg": tb,
                                         "key": "exception: " + tb[-300:]}]}
            else:
                r = {"msgs": mod.replay(req["case"])}
        except Exception:
            r = {"error": traceback.format_exc()[-3000:]}
        out.write(json.dumps(r) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
