#!/usr/bin/env python3
"""Driver of the model checker.

    check.py ID [quick|thorough]      explore property ID on the code in /repo
    check.py --replay FILE            run the one execution recorded in FILE again
    check.py --all [quick|thorough]   every property, one after another

The exploration itself runs under Jython (the code is Python 2); this driver
starts the workers (one per shard), watches that they make progress, merges
what they report, writes evidence/<ID>.json and turns it into an exit status.
Exit 0: the property held on everything explored.  Exit 1: it did not, and
there is a line VIOLATION property=<ID> replay=<path>.  Exit 2: the check
itself failed.
"""
import glob
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
JAR = "/usr/share/java/jython.jar"
STALL = float(os.environ.get("VERIF_STALL", "240"))
# Checks are given 900 s; a worker that is still at it after this much is
# reported as not having finished.
LIMITS = {"quick": 840.0, "thorough": 6 * 3600.0}


def clean_caches():
    """Remove what an earlier state of the code may have left behind."""
    for path in glob.glob(os.path.join(REPO, "twisted", "plugins", "dropin.cache")):
        os.remove(path)
    for top in (REPO,):
        for folder, dirs, files in os.walk(top):
            if ".git" in dirs:
                dirs.remove(".git")
            for name in files:
                if name.endswith("$py.class"):
                    os.remove(os.path.join(folder, name))


def environment():
    env = dict(os.environ)
    for name in ("JAVA_HOME", "CLASSPATH", "JAVA_TOOL_OPTIONS", "_JAVA_OPTIONS",
                 "PYTHONPATH", "PYTHONHOME", "PYTHONSTARTUP"):
        env.pop(name, None)
    env.update(LANG="C.UTF-8", LC_ALL="C.UTF-8",
               JYTHONPATH="/opt/jy/compat:%s:/opt/jy/lib" % REPO,
               PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=REPO)
    return env


def command(prop, tier, shard, shards, out, replay=None):
    flags = ["-Xmx2500m", "-Xss8m"]
    if tier == "quick" and not replay:
        flags += ["-XX:TieredStopAtLevel=1", "-XX:+UseSerialGC"]
    else:
        flags += ["-XX:+UseSerialGC"]
    return (["java"] + flags +
            ["-Dpython.home=/usr/share/jython", "-Dpython.executable=/usr/bin/jython",
             "-Dpython.cachedir.skip=true", "-jar", JAR,
             os.path.join(HERE, "mc", "main.py"), prop, tier,
             str(shard), str(shards), out] + ([replay] if replay else []))


class Worker(object):

    def __init__(self, prop, tier, shard, shards, folder, replay=None):
        self.shard = shard
        self.out = os.path.join(folder, "shard%d" % shard)
        self.log = open(self.out + ".log", "w+b")
        cwd = os.path.join(folder, "cwd%d" % shard)
        os.mkdir(cwd)
        self.process = subprocess.Popen(
            command(prop, tier, shard, shards, self.out, replay),
            cwd=cwd, env=environment(), stdin=subprocess.DEVNULL,
            stdout=self.log, stderr=subprocess.STDOUT, start_new_session=True)
        self.beat = None
        self.changed = time.time()
        self.stalled = None

    def poll(self):
        status = self.process.poll()
        if status is not None:
            return True
        try:
            with open(self.out + ".beat") as f:
                beat = f.read()
        except IOError:
            beat = None
        now = time.time()
        if beat != self.beat:
            self.beat, self.changed = beat, now
        return False

    def kill(self):
        try:
            os.killpg(self.process.pid, signal.SIGKILL)
        except OSError:
            pass
        self.process.wait()

    def result(self):
        try:
            with open(self.out) as f:
                return json.load(f)
        except (IOError, ValueError):
            return None

    def tail(self):
        self.log.flush()
        with open(self.out + ".log", "rb") as f:
            return f.read()[-6000:].decode("utf-8", "replace")


def shards_for(prop, tier):
    with open(os.path.join(HERE, "mc", "shards.json")) as f:
        table = json.load(f)
    quick, thorough = table.get(prop, table["default"])
    wanted = quick if tier == "quick" else thorough
    return max(1, min(wanted, os.cpu_count() or 1))


def load_known(prop):
    path = os.path.join(HERE, "known_findings.json")
    with open(path) as f:
        entries = json.load(f)["findings"]
    return dict((e["signature"], e["what"]) for e in entries
                if e["property"] == prop)


def save_replay(prop, violation):
    folder = os.path.join(HERE, "replays")
    if not os.path.isdir(folder):
        os.mkdir(folder)
    number = 0
    while True:
        path = os.path.join(folder, "%s-%d.json" % (prop, number))
        if not os.path.exists(path):
            break
        number += 1
    with open(path, "w") as f:
        json.dump(dict(violation, property=prop), f, indent=1, sort_keys=True)
        f.write("\n")
    return path


def diverse(samples, limit):
    """At most so many samples, of as many cases as possible."""
    seen = {}
    for sample in samples:
        seen.setdefault(sample["case"], []).append(sample)
    result = []
    for rank in (-1, 0):
        for case in sorted(seen):
            if len(seen[case]) > -rank and seen[case][rank] not in result:
                result.append(seen[case][rank])
    return result[:limit]


def run(prop, tier):
    started = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    known = load_known(prop)
    clean_caches()
    for path in glob.glob(os.path.join(HERE, "replays", "%s-*.json" % prop)):
        os.remove(path)
    shards = shards_for(prop, tier)
    folder = tempfile.mkdtemp(prefix="mc-%s-" % prop)
    workers = []
    violations = []
    broken = []
    try:
        workers = [Worker(prop, tier, n, shards, folder) for n in range(shards)]
        running = list(workers)
        while running:
            time.sleep(0.1)
            now = time.time()
            for worker in list(running):
                if worker.poll():
                    running.remove(worker)
                    continue
                if (now - worker.changed > STALL or
                        now - started > LIMITS[tier]):
                    worker.kill()
                    running.remove(worker)
                    worker.stalled = worker.beat or "(before its first case)"
        results = []
        for worker in workers:
            result = worker.result()
            if worker.stalled is not None:
                beat = worker.stalled.split("\n")
                if len(beat) > 1 and now - worker.changed > STALL:
                    violations.append(dict(
                        signature="hang", case=beat[1],
                        choices=json.loads(beat[2]) if len(beat) > 2 else [],
                        message="no progress for %d s: an execution of case "
                                "%s does not terminate" % (STALL, beat[1])))
                else:
                    broken.append("shard %d did not finish: %s" %
                                  (worker.shard, worker.stalled))
            elif result is None or result.get("error"):
                broken.append("shard %d: %s\n%s" % (
                    worker.shard, (result or {}).get("error", "no result"),
                    worker.tail()))
            else:
                results.append(result)
            if os.environ.get("VERIF_PROFILE"):
                sys.stderr.write(worker.tail())
    finally:
        for worker in workers:
            if worker.process.poll() is None:
                worker.kill()
            worker.log.close()
        clean_caches()
        shutil.rmtree(folder, ignore_errors=True)

    seen_known = {}
    for result in results:
        for violation in result["violations"]:
            if violation["signature"] in known:
                seen_known[violation["signature"]] = violation
            else:
                violations.append(violation)

    coverage = {"states": 0, "transitions": 0, "samples": [],
                "traces_validated_against_impl": 0,
                "executions": 0, "cases": 0, "shards": shards}
    states, outcomes, names = set(), set(), set()
    bounds = {}
    for result in results:
        states.update(result["states"])
        outcomes.update(result["outcomes"])
        names.update(result["cases"])
        for name in ("transitions", "executions"):
            coverage[name] += result[name]
        coverage["traces_validated_against_impl"] += result["validated"]
        coverage["samples"].extend(result["samples"])
        bounds.update(result["bounds"])
        for name, value in result["extra"].items():
            coverage[name] = coverage.get(name, 0) + value
    coverage["states"] = len(states)
    coverage["cases"] = len(names)
    coverage["distinct_outcomes"] = len(outcomes)
    coverage["samples"] = diverse(coverage["samples"], 16)
    coverage["bounds"] = bounds
    coverage["exhaustive"] = not broken and not violations
    assumptions = results[0]["assumptions"] if results else []
    evidence = {
        "property": prop, "tier": tier, "seed": seed,
        "level": "model_checking", "coverage": coverage,
        "assumptions": assumptions,
        "wall_s": round(time.time() - started, 2),
        "violations": len(violations)}
    if not os.path.isdir(os.path.join(HERE, "evidence")):
        os.mkdir(os.path.join(HERE, "evidence"))
    path = os.path.join(HERE, "evidence", "%s.json" % prop)
    with open(path, "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write("\n")

    for signature in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s [%s]" %
              (prop, known[signature], signature))
    reported = set()
    for violation in violations:
        if violation["signature"] in reported:
            continue
        reported.add(violation["signature"])
        if len(reported) > 5:
            break
        replay = save_replay(prop, violation)
        print("case %s choices %s\n%s" % (
            violation["case"], violation["choices"], violation["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
    print("%s %s: %d states, %d transitions, %d executions of %d cases, "
          "%d distinct outcomes, %.1f s" % (
              prop, tier, coverage["states"], coverage["transitions"],
              coverage["executions"], coverage["cases"],
              coverage["distinct_outcomes"], evidence["wall_s"]))
    sys.stdout.flush()
    if violations:
        return 1
    if broken:
        for text in broken:
            sys.stderr.write("ERROR of the check %s: %s\n" % (prop, text))
        return 2
    return 0


def replay(path):
    with open(path) as f:
        violation = json.load(f)
    prop = violation["property"]
    clean_caches()
    folder = tempfile.mkdtemp(prefix="mc-replay-")
    try:
        worker = Worker(prop, violation.get("tier", "quick"), 0, 1, folder,
                        os.path.abspath(path))
        while not worker.poll():
            time.sleep(0.1)
            if time.time() - worker.changed > STALL:
                worker.kill()
                print("case %s does not terminate" % violation["case"])
                return 1
        result = worker.result()
        if result is None or result.get("error"):
            sys.stderr.write(worker.tail())
            return 2
        for violation in result["violations"]:
            print("case %s choices %s\n%s" % (
                violation["case"], violation["choices"], violation["message"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        if result["violations"]:
            return 1
        print("%s: the recorded execution does not violate the property" % prop)
        return 0
    finally:
        clean_caches()
        shutil.rmtree(folder, ignore_errors=True)


def self_test():
    """The explorer visits what it should, and finds what is to be found."""
    folder = tempfile.mkdtemp(prefix="mc-self-")
    executions, outcomes, violations = 0, set(), []
    try:
        for shard in range(2):
            worker = Worker("self", "quick", shard, 2, folder)
            while not worker.poll():
                time.sleep(0.1)
            result = worker.result()
            if result is None or result.get("error"):
                sys.stderr.write(worker.tail())
                return 2
            executions += result["executions"]
            outcomes.update(result["outcomes"])
            violations += result["violations"]
    finally:
        clean_caches()
        shutil.rmtree(folder, ignore_errors=True)
    # 24 products, 22 small subsets, 6 interleavings of which 4 lose.
    if (executions, len(outcomes), bool(violations)) != (52, 46, True):
        sys.stderr.write("self-test: %d executions, %d outcomes, %r\n" % (
            executions, len(outcomes), violations))
        return 2
    print("self-test passed")
    return 0


def main(args):
    if args[:1] == ["--self-test"]:
        return self_test()
    if args[:1] == ["--replay"]:
        return replay(args[1])
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    if args[0] == "--all":
        worst = 0
        for path in sorted(glob.glob(os.path.join(HERE, "mc", "p_c*.py"))):
            prop = os.path.basename(path)[2:-3].upper()
            worst = max(worst, run(prop, tier))
        return worst
    return run(args[0], tier)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
