"""Common machinery: run TLC, replay in parallel, report violations, write evidence."""
import hashlib
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FINAT_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
THOROUGH = TIER == "thorough"


class MachineryError(Exception):
    """The check itself failed (TLC broke, spec law false): not a verdict on the code."""


class Hang(Exception):
    pass


def _alarm(signum, frame):
    raise Hang("no answer within the per-case time limit")


def finat_frame(tb):
    """Does a traceback pass through the code under test?"""
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(os.path.join(REPO, "finat")):
            return True
    return False


def brief(exc):
    return "%s: %s" % (type(exc).__name__, str(exc)[:300])


class Outcome:
    """What one replayed case produced (picklable)."""
    def __init__(self):
        self.fails = []      # (key, message, replay)
        self.counts = {}
        self.samples = []
        self.cls = set()     # non-trivial case signatures

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def fail(self, key, msg, **replay):
        if len(self.fails) < 40:
            self.fails.append((key, msg, replay))

    def case(self, sig):
        self.cls.add(sig if isinstance(sig, str) else json.dumps(sig, sort_keys=True, default=str))


def _worker(args):
    fn, item, limit = args
    out = Outcome()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        fn(item, out)
    except Hang as e:
        out.fail("hang", "hang: %s" % e, item=_short(item))
    except MachineryError:
        raise
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        # the unchanged tree raises nothing here: an error in gem, UFL, FIAT, numpy or in reading the answer comes from
        # what the code under test gave them; only slips of the harness itself are its own
        own = traceback.extract_tb(e.__traceback__)[-1].filename.startswith(VERIF) and isinstance(
            e, (AttributeError, NameError, ImportError, SyntaxError))
        if finat_frame(e.__traceback__) or not own and not isinstance(e, (OSError, MemoryError)):
            out.fail("raised:" + type(e).__name__, "code under test raised " + brief(e),
                     item=_short(item), traceback=traceback.format_exc()[-3000:])
        else:
            raise MachineryError("harness error on %s\n%s" % (_short(item), traceback.format_exc()))
    finally:
        signal.alarm(0)
    return out


def _short(item):
    try:
        s = json.dumps(item, default=str)
    except Exception:
        s = repr(item)
    return s if len(s) < 2000 else s[:2000] + "..."


class Ctx:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.rng = random.Random(SEED * 1000003 + int(prop[1:]))
        self.fails = []
        self.counts = {}
        self.samples = []
        self.cls = set()
        self.states = 0
        self.transitions = 0
        self.notes = {}
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.assumptions = ["FIAT, gem and UFL (the installed environment) are correct",
                            "floating point comparison with tolerance 1e-8 relative"]

    # ---- TLC
    def tlc(self, module, cfg=None, env=None, simulate=None, depth=None, workers=None, timeout=700, seed=None,
            coverage=False, expect_ok=True):
        work = tempfile.mkdtemp(dir=self.tmp)
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, f), work)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx8g", "-Xss64m", "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE",
               "-metadir", os.path.join(work, "states"),
               "-config", (cfg or module) + ".cfg", "-workers", str(workers or 4)]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 20),
                    "-seed", str(seed if seed is not None else SEED)]
        if coverage:
            cmd += ["-coverage", "1"]
        cmd += [module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timed out on %s" % module)
        out = p.stdout
        recs = []
        for line in out.splitlines():
            if line.startswith('"@@'):
                recs.append(json.loads(json.loads(line)[2:]))
        m = re.findall(r"([\d,]+) states generated(?:[^\n]*?), ([\d,]+) distinct states found", out)
        if m:
            self.transitions += int(m[-1][0].replace(",", ""))
            self.states += int(m[-1][1].replace(",", ""))
        else:
            m = re.findall(r"([\d,]+) states (?:checked|generated)", out)
            if m:
                n = int(m[-1].replace(",", ""))
                self.transitions += n
                self.states += n
        ok = p.returncode == 0
        if expect_ok and not ok:
            log = "\n".join(l for l in out.splitlines() if not l.startswith('"@@'))
            raise MachineryError("TLC failed on %s (exit %d)\n%s" % (module, p.returncode, log[-4000:]))
        shutil.rmtree(work, ignore_errors=True)
        return recs, out, ok

    def jsonfile(self, name, obj):
        path = os.path.join(self.tmp, name)
        with open(path, "w") as f:
            json.dump(obj, f)
        return path

    # ---- replay
    def pmap(self, fn, items, procs=8, limit=300):
        items = list(items)
        if not items:
            return
        if procs == 1 or len(items) == 1:
            outs = [_worker((fn, i, limit)) for i in items]
        else:
            with mp.get_context("fork").Pool(min(procs, len(items))) as pool:
                outs = pool.map(_worker, [(fn, i, limit) for i in items], chunksize=max(1, min(8, len(items) // 32)))
        for o in outs:
            self.absorb(o)

    def absorb(self, o):
        self.fails += o.fails
        self.cls |= o.cls
        for k, v in o.counts.items():
            self.counts[k] = self.counts.get(k, 0) + v
        for s in o.samples:
            if len(self.samples) < 6:
                self.samples.append(s)

    def direct(self, fn, item=None, limit=600):
        self.absorb(_worker((fn, item, limit)))

    # ---- verdict
    def known(self):
        path = os.path.join(VERIF, "known_findings.json")
        if not os.path.exists(path):
            return []
        with open(path) as f:
            return [k for k in json.load(f)["findings"] if k["property"] == self.prop]

    def finish(self, bounds=None):
        known = self.known()
        unlisted, hit = [], {}
        for key, msg, replay in self.fails:
            for k in known:
                if key == k["key"]:
                    hit[k["key"]] = k
                    break
            else:
                unlisted.append((key, msg, replay))
        for k in known:
            # listed findings are reported by the check that looked at them
            if k["key"] in hit:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.counts.get("traces", 0),
               "evaluations": self.counts.get("evaluations", 0),
               "distinct_nontrivial": len(self.cls),
               "rule": self.notes.get("rule", "distinct (program, query) signatures replayed into the implementation"),
               "samples": self.samples or ["(none)"],
               "counts": self.counts}
        if bounds:
            cov["bounds"] = bounds
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(unlisted)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.tmp, ignore_errors=True)
        print("%s: states=%d traces=%d evaluations=%d distinct=%d wall=%.1fs" % (
            self.prop, self.states, cov["traces_validated_against_impl"], cov["evaluations"], len(self.cls),
            ev["wall_s"]))
        if unlisted:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            seen = set()
            first = None
            for i, (key, msg, replay) in enumerate(unlisted):
                if key in seen:
                    continue
                seen.add(key)
                if len(seen) > 10:
                    break
                path = os.path.join(d, "%s-%s.json" % (self.prop, hashlib.sha1(key.encode()).hexdigest()[:10]))
                with open(path, "w") as f:
                    json.dump({"property": self.prop, "key": key, "what": msg, "replay": replay, "seed": SEED,
                               "tier": TIER}, f, indent=1, default=str)
                first = first or path
                print("  failed: [%s] %s" % (key, msg[:400]))
            print("VIOLATION property=%s replay=%s" % (self.prop, first))
            return 1
        # vacuity guard: a check that explored nothing has no verdict
        if cov["traces_validated_against_impl"] == 0 or len(self.cls) == 0:
            print("machinery: nothing was explored")
            return 2
        return 0
