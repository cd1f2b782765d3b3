#!/usr/bin/env python3
"""Decide one property: model-check its specification, drive the real code,
and validate everything the code did against the specification with TLC.

  check.py PROP            the check (VERIF_SEED, VERIF_TIER)
  check.py replay PROP F   execute the inputs recorded in F again and judge them
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
from props import PROPS  # noqa: E402

SPEC = os.path.join(ROOT, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCHUNK = 8


class Infra(Exception):
    pass


def sh(cmd, timeout, env=None, cwd=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd,
                       start_new_session=True)
    return p.returncode, p.stdout.decode("utf-8", "replace")


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.cfg = PROPS[prop]
        self.work = tempfile.mkdtemp(prefix="zv-%s-" % prop)
        self.t0 = time.time()
        self.states = self.transitions = self.sessions = self.events = 0
        self.mc = []
        self.samples = []

    # ---- building -------------------------------------------------------
    def build(self):
        for d in ("harness", "stubs"):
            shutil.copytree(os.path.join(ROOT, d), os.path.join(self.work, d))
        env = dict(os.environ, GOPROXY="off", GOFLAGS="-mod=mod", GOTOOLCHAIN="local", GONOSUMDB="*", GONOSUMCHECK="1",
                   CGO_ENABLED=os.environ.get("CGO_ENABLED", "0"))
        drv = self.cfg["driver"]
        self.bin = os.path.join(self.work, "drv")
        cmd = ["go", "build"]
        if self.cfg.get("race"):
            env["CGO_ENABLED"] = "1"
            cmd.append("-race")
        rc, out = sh(cmd + ["-o", self.bin, "./cmd/" + drv], 600, env, os.path.join(self.work, "harness"))
        if rc:
            raise Infra("building the driver from /repo failed:\n" + out[-4000:])

    # ---- TLC ------------------------------------------------------------
    def tlc(self, module, cfgtext, workers, timeout, extra=(), env=None, heap="3g", xss="32m"):
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        cfg = os.path.join(d, "m.cfg")
        with open(cfg, "w") as f:
            f.write(cfgtext)
        cmd = ["java", "-Djava.io.tmpdir=" + d, "-Xmx" + heap, "-Xss" + xss, "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-cp", CP,
               "tlc2.TLC", "-metadir", os.path.join(d, "md"), "-noGenerateSpecTE", "-workers", str(workers),
               "-config", cfg] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        rc, out = sh(cmd, timeout, dict(os.environ, **(env or {})), d)
        shutil.rmtree(d, ignore_errors=True)
        return rc, out

    def cfgtext(self, name, over):
        with open(os.path.join(SPEC, name + ".cfg")) as f:
            t = f.read()
        for k, v in over.items():
            t, n = re.subn(r"(?<![A-Za-z])%s = (\{[^}]*\}|\S+)" % k, lambda m: "%s = %s" % (k, v), t)
            if n == 0:
                raise Infra("no constant %s in %s" % (k, name))
        return t

    def model_check(self):
        jobs = []
        for m in self.cfg.get("mc", ()):
            over = dict(m.get("quick", {}))
            if self.tier == "thorough":
                over = dict(m.get("thorough", {}))
            jobs.append((m, over))
        for m, over in jobs:
            t = time.time()
            rc, out = self.tlc(m["module"], self.cfgtext(m.get("cfg", m["module"]), over), 8,
                               m.get("timeout", 500), heap="12g", xss=m.get("xss", "32m"))
            g = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
            if m.get("fails"):
                # without what the guarantee rests on, the model must not have it
                if "Invariant %s is violated" % m["fails"] not in out:
                    raise Infra("the model %s holds %s even so:\n%s" % (m["module"], m["fails"], out[-2000:]))
                self.mc.append({"model": m["module"], "config": over, "violated_as_expected": m["fails"]})
                continue
            if rc or not g or g.group(3) != "0":
                raise Infra("the model %s does not satisfy its own properties (this is no statement about the code):\n%s"
                            % (m["module"], out[-3000:]))
            self.transitions += int(g.group(1))
            self.states += int(g.group(2))
            self.mc.append({"model": m["module"], "config": over, "states": int(g.group(2)),
                            "transitions": int(g.group(1)), "wall_s": round(time.time() - t, 1)})

    def behaviours(self):
        """behaviours of the specification, to be replayed into the code"""
        for n, b in enumerate(self.cfg.get("beh", ())):
            num, depth = b["num"][0 if self.tier == "quick" else 1], b["depth"]
            extra = ["-simulate", "num=%d" % num, "-seed", str(self.seed), "-depth", str(depth)]
            if b.get("exhaustive"):
                extra = []
            over = b.get("over", {})
            if self.tier == "thorough":
                over = dict(over, **b.get("thorough", {}))
            rc, out = self.tlc(b["module"], self.cfgtext(b["cfg"], over), 1, 500, extra, heap="6g")
            lines = set()
            f = os.path.join(self.work, "beh%d.ndjson" % n)
            with open(f, "w") as w:
                for m in re.finditer(r'^<<"BEH", ("(?:[^"\\]|\\.)*")>>$', out, re.M):
                    s = json.loads(m.group(1))
                    if s not in lines:
                        lines.add(s)
                        w.write(s + "\n")
            if not lines:
                raise Infra("no behaviours from %s:\n%s" % (b["module"], out[-2000:]))
            g = re.search(r"number of states generated: (\d+)", out) or re.search(r"(\d+) states generated,", out)
            self.transitions += int(g.group(1)) if g else 0
            self.mc.append({"behaviours_from": b["module"], "distinct": len(lines)})
            self.drive(["beh", b["kind"], f, os.path.join(self.work, "b%d" % n), str(NCHUNK)])
            yield os.path.join(self.work, "b%d" % n)

    # ---- the driver -----------------------------------------------------
    def drive(self, args, timeout=None):
        env = dict(os.environ, ZV_WORK=self.work)
        if self.cfg.get("race"):
            env["ZV_RACE"] = "1"
            env["GORACE"] = "halt_on_error=0 exitcode=0 log_path=%s/race" % self.work
        try:
            rc, out = sh([self.bin] + args, timeout or self.cfg.get("timeout", 600), env, self.work)
        except subprocess.TimeoutExpired:
            raise Infra("the driver did not finish")
        if rc:
            raise Infra("driver failed (%d):\n%s" % (rc, out[-4000:]))
        return out

    # ---- validation -----------------------------------------------------
    def validate_file(self, path):
        with open(path) as f:
            lines = f.read().splitlines()
        if not lines:
            return [], 0, 0
        sess = [json.loads(x)["s"] for x in lines]
        rej, start, gen, dis = set(), 1, 0, 0
        for attempt in range(12):
            rc, out = self.tlc(self.cfg["trace"], self.cfgtext(self.cfg.get("tracecfg", self.cfg["trace"]), {}), 1, 850,
                               env={"TRACE": path, "START": str(start)}, xss=self.cfg.get("xss", "32m"))
            rej |= {int(m) for m in re.findall(r'<<"REJECT", (\d+)', out)}
            g = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
            if not rc and g and int(g.group(2)) >= len(lines) + 2 - start and g.group(3) == "0":
                gen, dis = gen + int(g.group(1)), dis + int(g.group(2))
                break
            # an event of a form the specification has no meaning for: it does not accept it
            k = max([out.find("Error:"), 0])
            at = re.findall(r"^(?:/\\ )?l = (\d+)$", out, re.M)
            if "The behavior up to this point is" not in out or not at or not start <= int(at[-1]) <= len(lines) \
                    or "OutOfMemory" in out or "StackOverflow" in out or "ndDeserialize" in out:
                raise Infra("trace validation of %s did not complete:\n%s" % (path, out[k:k + 2500]))
            at = int(at[-1])
            rej.add(at)
            print("note: no meaning for event %d (%s): %s" % (at, lines[at - 1][:200], " ".join(out[k:k + 600].split())))
            while start <= at or (start <= len(lines) and sess[start - 1] == sess[at - 1]):
                start += 1
            if start > len(lines):
                break
        rej = sorted(rej)
        bad = []
        for r in rej:
            e = json.loads(lines[r - 1])
            bad.append((e["s"], r - 1))
        res = {}
        for s, i in bad:
            res.setdefault(s, []).append(i)
        groups = []
        for s, idx in res.items():
            evs = [x for x in lines if json.loads(x)["s"] == s] if len(res) < 50 or True else []
            groups.append((s, evs, lines[idx[0]]))
            if len(groups) >= 20:
                break
        return groups, len(lines), (gen, dis)

    def validate(self, prefix, count=True):
        files = [f for f in ("%s.%d.ndjson" % (prefix, i) for i in range(NCHUNK)) if os.path.exists(f)]
        groups = []
        with ThreadPoolExecutor(NCHUNK) as ex:
            for path, (bad, n, st) in zip(files, ex.map(self.validate_file, files)):
                groups += bad
                if count and n:
                    self.events += n
                    self.transitions += st[0]
                    self.states += st[1]
                    seen = set()
                    with open(path) as f:
                        for k, line in enumerate(f):
                            s = line.find('"s":')
                            seen.add(line[s + 4:line.find(",", s)])
                            if k in (0, n // 2) and len(self.samples) < 4 and len(line) < 6000:
                                self.samples.append(json.loads(line))
                    self.sessions += len(seen)
        return groups

    def confirm(self, groups):
        """Execute rejected sessions again; keep those the specification still rejects."""
        left, out = list(groups), []
        for attempt in range(self.cfg.get("retries", 2)):
            if not left:
                break
            f = os.path.join(self.work, "again%d.ndjson" % attempt)
            n = 0
            back = {}
            with open(f, "w") as w:
                for g in left:
                    n += 1
                    back[n] = g
                    for x in g[1]:
                        e = json.loads(x)
                        e["s"] = n
                        w.write(json.dumps(e) + "\n")
            p = os.path.join(self.work, "again%d" % attempt)
            self.drive(["exec", f, p, str(NCHUNK)])
            got = {s: (s, evs, bad) for s, evs, bad in self.validate(p, False)}
            for s, g in back.items():
                if s in got:
                    out.append(got[s])
                    left.remove(g)
        return out, left

    # ---- all of it ------------------------------------------------------
    def run(self):
        self.build()
        self.model_check()
        prefix = os.path.join(self.work, "t")
        self.drive(["gen", self.prop, str(self.seed), self.tier, prefix, str(NCHUNK)])
        bad = self.validate(prefix)
        for p in self.behaviours():
            bad += self.validate(p)
        bad, unrepeated = self.confirm(bad)
        known = load_known(self.prop)
        viol = []
        for s, evs, first in bad:
            sig = signature(first)
            if sig in known:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, known[sig]))
            else:
                viol.append((evs, first, sig))
        for s, evs, first in unrepeated:
            print("note: an event the specification rejected did not recur when executed again: %s" % first[:300])
        replay = None
        rdir = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if f.startswith(self.prop + "-"):
                os.unlink(os.path.join(rdir, f))
        for n, (evs, first, sig) in enumerate(viol[:5]):
            replay = os.path.join(rdir, "%s-%d.ndjson" % (self.prop, n))
            with open(replay, "w") as f:
                f.write("\n".join(evs) + "\n")
            print("rejected by the specification (sig %s): %s" % (sig, first[:1500]))
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
        self.evidence(len(viol))
        return 1 if viol else 0

    def evidence(self, nviol):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.sessions, "events_validated": self.events,
                "models": self.mc, "trace_specification": self.cfg["trace"],
                "samples": self.samples or [{"none": True}],
            },
            "assumptions": self.cfg.get("assumptions", []),
            "wall_s": round(time.time() - self.t0, 1), "violations": nviol,
        }
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d model and trace states, %d sessions, %d events validated, %d violations, %.1f s"
              % (self.prop, self.tier, self.states, self.sessions, self.events, nviol, time.time() - self.t0))


OUTPUTS = {"r", "r2", "panic", "s", "bn", "tn", "o", "got", "snap", "n", "pre", "nn", "cb", "ct", "hsv", "hsl", "bv", "bl",
           "cv", "cv2", "si", "sa", "i_", "res", "bs", "attr"}


def signature(line):
    """identifies the input of an event, leaving out what the code answered"""
    e = {k: v for k, v in json.loads(line).items() if k not in OUTPUTS}
    return hashlib.sha1(json.dumps(e, sort_keys=True).encode()).hexdigest()[:16]


def load_known(prop):
    known = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3)
    return known


def main():
    a = sys.argv[1:]
    if a and a[0] == "replay":
        c = Check(a[1], "quick", 1)
        try:
            c.build()
            p = os.path.join(c.work, "r")
            c.drive(["exec", os.path.abspath(a[2]), p, str(NCHUNK)])
            bad = c.validate(p)
            for s, evs, first in bad:
                print("REJECTED", first[:3000])
            return 1 if bad else 0
        finally:
            shutil.rmtree(c.work, ignore_errors=True)
    c = Check(a[0], os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1") or 1))
    try:
        return c.run()
    except Infra as e:
        print("ERROR (no verdict): %s" % e)
        return 3
    except subprocess.TimeoutExpired as e:
        print("ERROR (no verdict): timed out: %s" % (e.cmd[:3],))
        return 3
    finally:
        if os.environ.get("ZV_KEEP"):
            print("work:", c.work)
        else:
            shutil.rmtree(c.work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
