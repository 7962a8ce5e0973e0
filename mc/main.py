"""A worker: explores one shard of the cases of one property (Jython 2.7)."""
import json
import os
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

real_sleep = time.sleep


def beat(explorer, path, done):
    last = None
    while not done.isSet():
        name, prefix = explorer.current
        now = (explorer.progress, name, list(prefix))
        if now != last:
            last = now
            with open(path + ".beat.tmp", "w") as f:
                f.write("%d\n%s\n%s" % (now[0], name, json.dumps(now[2])))
            os.rename(path + ".beat.tmp", path + ".beat")
        real_sleep(1.0)


def main(prop, tier, shard, shards, out, replay=None):
    result = {"error": "the worker died"}
    done = threading.Event()
    try:
        import seams
        seams.install(os.environ.get("VERIF_SEED", "1"))
        import core
        explorer = core.Explorer()
        explorer.current = ("(importing)", [])
        thread = threading.Thread(target=beat, args=(explorer, out, done))
        thread.setDaemon(True)
        thread.start()
        module = __import__("p_" + prop.lower())
        cases = module.cases(tier)
        if replay:
            with open(replay) as f:
                wanted = json.load(f)
            case = [c for c in cases if c.name == wanted["case"]][0]
            explorer.run_one(case, wanted["choices"])
        else:
            times = {}
            for number, (case, prefix) in enumerate(core.expand(cases)):
                if number % shards != shard:
                    continue
                started, before = seams.real_time(), explorer.executions
                explorer.explore(case, prefix)
                entry = times.setdefault(case.name, [0, 0.0])
                entry[0] += explorer.executions - before
                entry[1] += seams.real_time() - started
            for name in times if os.environ.get("VERIF_PROFILE") else ():
                print "PROFILE %3d %8d %7.2f s %s" % (
                    shard, times[name][0], times[name][1], name)
        result = {
            "violations": explorer.violations,
            "states": list(explorer.states), "outcomes": list(explorer.outcomes),
            "transitions": explorer.transitions,
            "executions": explorer.executions, "cases": sorted(explorer.numbers),
            "validated": explorer.executions - len(explorer.violations),
            "samples": explorer.samples, "extra": explorer.extra,
            "bounds": explorer.bounds,
            "assumptions": getattr(module, "ASSUMPTIONS", [])}
        for violation in explorer.violations:
            violation["tier"] = tier
    except:
        result = {"error": traceback.format_exc() or str(sys.exc_info()[:2])}
    finally:
        done.set()
        with open(out + ".tmp", "w") as f:
            json.dump(result, f, encoding="latin-1")
        os.rename(out + ".tmp", out)
        sys.stdout.flush()
        os._exit(0)


main(sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5],
     sys.argv[6] if len(sys.argv) > 6 else None)
