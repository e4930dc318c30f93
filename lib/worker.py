import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import harness

if __name__ == "__main__":
    import resource as _r
    try:
        _r.setrlimit(_r.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:
        pass
    a = json.loads(sys.argv[1])
    if a["mode"] == "shard":
        harness.run_shard(a["prop"], a["part"], a["shard"], a["n"], a["seed"], a["out"], a["budget"])
        os._exit(0)
    elif a["mode"] == "replay":
        with open(a["file"]) as f:
            d = json.load(f)
        harness.run_replay(a["prop"], d["part"], d["case"])
