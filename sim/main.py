"""Seeded search over simulated runs of one property, replay and evidence."""

import argparse
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import signal
import sys
import time
from collections import OrderedDict

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LETHAL = (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS,
          signal.SIGILL)
RUN_TIMEOUT = 90.


class HarnessError(Exception):
    pass


def rng_for(prop, seed, index):
    h = hashlib.blake2b(('%s/%d/%d' % (prop, seed, index)).encode(),
                        digest_size=8).digest()
    return random.Random(int.from_bytes(h, 'big'))


class Refs(object):
    """Outcomes of operations run alone, each in a pristine fork."""

    def __init__(self, world, run, prepare=None):
        self.world, self.run = world, run
        self.prepare = prepare
        self.cache = OrderedDict()
        self.cost = 0
        self.made = 0

    def get(self, op):
        k = self.run.op_key(op)
        if k in self.cache:
            self.cache.move_to_end(k)
            return self.cache[k]
        def make():
            if self.prepare:
                self.prepare(op)
            return self.run.make_ref(op)
        r = self.world.forked(make, RUN_TIMEOUT)
        if r[0] == 'timeout':
            r = self.world.forked(make, 3*RUN_TIMEOUT)
        self.made += 1
        if r[0] != 'ok':
            # alone, the operation kills the process or never ends
            r = (r[0], {"dead": r})
            if r[1]["dead"][0] == 'error':
                raise HarnessError('reference for %s: %s'
                                   % (k, r[1]["dead"][1]))
        r = r[1]
        self.cache[k] = r
        self.cost += len(r.get("trace") or ())+1000
        while self.cost > 3e7:
            _, old = self.cache.popitem(last=False)
            self.cost -= len(old.get("trace") or ())+1000
        return r


class Search(object):

    def __init__(self, mod, seed, tier, world, run):
        self.mod, self.seed, self.tier = mod, seed, tier
        self.world, self.run = world, run
        self.refs = Refs(world, run, getattr(mod, 'prepare', None)) \
            if run else None

    def plan(self, index):
        p = self.mod.plan(rng_for(self.mod.ID, self.seed, index), index,
                          self.tier)
        p["prop"] = self.mod.ID
        p["seed"] = self.seed
        p["index"] = index
        return json.loads(json.dumps(p))

    def execute(self, plan, timeout=RUN_TIMEOUT):
        """Run a plan in a fork; returns the result dictionary."""
        refs = {}
        for op in self.mod.ops_of(plan):
            r = self.refs.get(op)
            if "dead" in r:
                return dead(r["dead"], 'operation alone: %s' %
                            self.run.op_key(op))
            refs[self.run.op_key(op)] = r
        r = self.world.forked(lambda: self.mod.execute(plan, refs), timeout)
        if r[0] == 'timeout':
            r = self.world.forked(lambda: self.mod.execute(plan, refs),
                                  3*timeout)
        if r[0] == 'ok':
            return r[1]
        if r[0] == 'error':
            raise HarnessError('plan %s: %s' % (json.dumps(plan), r[1]))
        return dead(r, 'run')


def dead(r, what):
    if r[0] == 'signal' and r[1] not in LETHAL:
        raise HarnessError('%s ended by signal %d' % (what, r[1]))
    if r[0] == 'aborted':
        kind, d = r[1:]
    elif r[0] == 'signal':
        kind = 'process_death'
        d = 'process killed by %s' % signal.Signals(r[1]).name
    else:
        kind, d = 'hang', 'no completion within %g s' % r[1]
    return {"viol": [{"kind": kind, "detail": {"what": d, "where": what}}],
            "log": ['VIOLATION %s %s' % (kind, d)], "hash": kind, "steps": 0,
            "events": 0, "switches": 0, "inter": None, "faults": {},
            "probes": {}, "states": [], "info": {}}


# ---- known findings -----------------------------------------------------

def known_findings(prop):
    """Lines 'finding: property=<id> match=<json> <text>'."""
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                if line.startswith('finding: property=%s ' % prop):
                    rest = line.split('match=', 1)[1]
                    m, end = json.JSONDecoder().raw_decode(rest)
                    out.append((m, rest[end:].strip()))
    return out


def is_known(viol, known):
    for m, text in known:
        if m["kind"] == viol["kind"] and all(
                viol["detail"].get(k) == v
                for k, v in m.get("detail", {}).items()):
            return text
    return None


# ---- workers ------------------------------------------------------------

def worker(search, w, n_workers, n_runs, deadline, out, start=0):
    os.setpgid(0, 0) if False else None
    for i in range(start+w, start+n_runs, n_workers):
        if time.monotonic() > deadline:
            break
        try:
            plan = search.plan(i)
            r = search.execute(plan)
            r = dict(r, index=i, nops=len(search.mod.ops_of(plan)))
            if not r["viol"]:
                r.pop("log")
            msg = ('run', r)
        except HarnessError as e:
            msg = ('harness', 'index %d: %s' % (i, e))
        except BaseException:
            import traceback
            msg = ('harness', 'index %d: %s' % (i, traceback.format_exc()))
        data = pickle.dumps(msg, protocol=4)
        os.write(out, len(data).to_bytes(8, 'big'))
        n = 0
        while n < len(data):
            n += os.write(out, data[n:n+65536])


def run_pool(search, n_workers, n_runs, deadline, on_msg, start=0):
    """Fork the workers; on_msg(msg) returns True to stop early."""
    procs = {}
    for w in range(n_workers):
        r, o = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                worker(search, w, n_workers, n_runs, deadline, o, start)
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(o)
        procs[r] = [pid, b'']
    stop = False
    while procs and not stop:
        ready, _, _ = select.select(list(procs), [], [], 5.)
        for r in ready:
            b = os.read(r, 1 << 20)
            if not b:
                os.close(r)
                os.waitpid(procs.pop(r)[0], 0)
                continue
            procs[r][1] += b
            while True:
                buf = procs[r][1]
                if len(buf) < 8:
                    break
                n = int.from_bytes(buf[:8], 'big')
                if len(buf) < 8+n:
                    break
                procs[r][1] = buf[8+n:]
                stop = on_msg(pickle.loads(buf[8:8+n])) or stop
    for r in list(procs):
        try:
            os.kill(procs[r][0], signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.close(r)
        os.waitpid(procs[r][0], 0)


# ---- minimisation -------------------------------------------------------

def size(plan):
    return len(json.dumps(plan))


def minimise(search, plan, kind, seconds, known):
    """Greedy reduction of a failing plan that keeps the violation kind."""
    end = time.monotonic()+seconds
    tried = set()
    runs = 0
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for cand in search.mod.shrink(plan):
            key = json.dumps(cand, sort_keys=True)
            if key in tried:
                continue
            tried.add(key)
            if time.monotonic() > end:
                break
            runs += 1
            try:
                r = search.execute(json.loads(key), 30.)
            except Exception:
                continue
            if any(v["kind"] == kind and not is_known(v, known)
                   for v in r["viol"]):
                plan = json.loads(key)
                progress = True
                break
    return plan, runs


def fresh_replay(path, prop):
    """Replay in a new process started from scratch."""
    import subprocess
    env = dict(os.environ)
    env['SIM_QUIET_REPLAY'] = '1'
    r = subprocess.run([sys.executable, '-m', 'sim.main', prop, '--replay',
                        path], env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    return r.returncode, r.stdout.decode(errors='replace')


# ---- commands -----------------------------------------------------------

def replay(search, path, quiet):
    with open(path) as f:
        rec = json.load(f)
    r = search.execute(rec["plan"])
    kinds = [v["kind"] for v in r["viol"]]
    same = r["hash"] == rec["log_hash"]
    if not quiet:
        for line in r["log"]:
            print('  '+line)
    print('replay: violations %s, event log %s (%s)' % (
        kinds, r["hash"], 'identical' if same else
        'differs from the recorded '+rec["log_hash"]))
    if rec["violation"]["kind"] in kinds:
        for v in r["viol"]:
            print('  %s: %s' % (v["kind"], json.dumps(v["detail"])))
        print('VIOLATION property=%s replay=%s' % (search.mod.ID, path))
        return 1
    return 0


def report(search, index, res, known, budget_s):
    """Minimise, confirm and write the replay file; returns its path."""
    plan = search.plan(index)
    v = [x for x in res["viol"] if not is_known(x, known)][0]
    kind = v["kind"]
    first, runs = minimise(search, plan, kind, budget_s, known)
    final = None
    for cand in (first, plan):
        hashes = []
        for _ in range(3):
            r = search.execute(cand)
            vs = [x for x in r["viol"] if x["kind"] == kind]
            if vs:
                hashes.append(r["hash"])
                final = final or (cand, r, vs[0])
        if len(hashes) == 3:
            break
    if final is None:
        return None, 'violation %s at index %d did not happen again: %s' % (
            kind, index, json.dumps(v))
    cand, r, v = final
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-s%d-i%d.json' % (search.mod.ID, search.seed,
                                                index))
    rec = {"property": search.mod.ID, "seed": search.seed, "index": index,
           "violation": v, "plan": cand, "log_hash": r["hash"],
           "log": r["log"], "original_plan_bytes": size(plan),
           "minimised_plan_bytes": size(cand), "minimiser_runs": runs,
           "repeats_identical": len(set(hashes)) == 1 and len(hashes) == 3}
    with open(path, 'w') as f:
        json.dump(rec, f, indent=1)
    return path, v


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--seconds', type=float)
    ap.add_argument('--workers', type=int, default=min(
        8, os.cpu_count() or 1))
    ap.add_argument('--index', type=int)
    ap.add_argument('--start', type=int, default=0)
    ap.add_argument('--hashes')
    ap.add_argument('--keep-going', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args(argv)
    t0 = time.monotonic()
    mod = importlib.import_module('sim.props.'+a.id.lower())
    from . import run as runmod
    from . import world
    world.load(package=getattr(mod, 'PACKAGE', True))
    search = Search(mod, a.seed, a.tier, world, runmod)
    loaded = time.monotonic()-t0
    if a.replay:
        return replay(search, a.replay,
                      bool(os.environ.get('SIM_QUIET_REPLAY')))
    if a.index is not None:
        plan = search.plan(a.index)
        print(json.dumps(plan, indent=1))
        r = search.execute(plan)
        for line in r["log"]:
            print('  '+line)
        print({k: r[k] for k in r if k != 'log'})
        return 1 if r["viol"] else 0

    n_runs, seconds = mod.TIERS['thorough' if a.tier == 'thorough'
                                else 'quick']
    n_runs = a.runs or n_runs
    seconds = a.seconds or seconds
    known = known_findings(a.id)
    agg = {"runs": 0, "steps": 0, "events": 0, "switches": 0, "ops": 0,
           "faults": {}, "probes": {}, "inter": set(), "states": set(),
           "hashes": {}, "info": {}, "samples": [], "nontrivial": set()}
    bad = []
    harness = []
    seen_known = {}

    def on_msg(msg):
        if msg[0] == 'harness':
            harness.append(msg[1])
            return len(harness) > 5
        r = msg[1]
        agg["runs"] += 1
        for k in ("steps", "events", "switches"):
            agg[k] += r[k]
        agg["ops"] += r["nops"]
        for k in ("faults", "probes"):
            for x, n in r[k].items():
                agg[k][x] = agg[k].get(x, 0)+n
        for x, n in r["info"].items():
            if isinstance(n, (int, float)):
                agg["info"][x] = agg["info"].get(x, 0)+n
        if r["inter"]:
            agg["inter"].add(r["inter"])
        agg["states"].update(r["states"])
        agg["hashes"][r["index"]] = r["hash"]
        if r["faults"] or r["switches"] or r["info"].get("nontrivial"):
            agg["nontrivial"].add(r["hash"])
        new = []
        for v in r["viol"]:
            text = is_known(v, known)
            if text:
                seen_known[text] = seen_known.get(text, 0)+1
            else:
                new.append(v)
        if new:
            bad.append(r)
            if a.keep_going:
                print('index %d: %s' % (r["index"], json.dumps(new[0])))
            return not a.keep_going
        return False

    run_pool(search, a.workers, n_runs, time.monotonic()+seconds, on_msg,
             a.start)
    searched = time.monotonic()-t0-loaded

    rc = 0
    if bad and not a.keep_going:
        bad.sort(key=lambda r: r["index"])
        path, v = report(search, bad[0]["index"], bad[0], known, 60.)
        if path is None:
            harness.append(v)
        else:
            print('seed %d index %d: %s' % (a.seed, bad[0]["index"],
                                            json.dumps(v)))
            frc, ftext = fresh_replay(path, a.id)
            print('fresh process: %s' % ftext.strip().splitlines()[0]
                  if ftext.strip() else 'fresh process: no output')
            print('VIOLATION property=%s replay=%s' % (a.id, path))
            rc = 1
    elif bad:
        rc = 1

    # determinism: a sample of the runs is executed again, in this process
    again = differ = 0
    if rc == 0:
        pick = sorted(agg["hashes"])
        step = max(1, len(pick)//6)
        end = time.monotonic()+15
        for i in pick[::step][:6]:
            if time.monotonic() > end:
                break
            try:
                r = search.execute(search.plan(i))
            except HarnessError as e:
                harness.append(str(e))
                continue
            again += 1
            if r["hash"] != agg["hashes"][i]:
                differ += 1
                harness.append('index %d is not repeatable: %s vs %s' % (
                    i, r["hash"], agg["hashes"][i]))
    if a.hashes:
        with open(a.hashes, 'w') as f:
            for i in sorted(agg["hashes"]):
                f.write('%d %s\n' % (i, agg["hashes"][i]))

    for text in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s' % (a.id, text))

    samples = []
    for i in sorted(agg["hashes"])[:2]:
        p = search.plan(i)
        samples.append({"plan": p, "log_hash": agg["hashes"][i]})
    cov = {
        "evaluations": agg["runs"],
        "distinct_nontrivial": len(agg["nontrivial"]),
        "rule": mod.RULE + ' A run counts as non-trivial if a fault fired '
        'or a switch happened in it (or it is marked so by the rule above), '
        'distinct by the hash of its complete event log.',
        "samples": samples,
        "seeds": '(VERIF_SEED=%d) x run index %d..%d' % (
            a.seed, a.start, max(agg["hashes"] or [0])),
        "runs_per_hour": int(agg["runs"]/max(searched, 1e-9)*3600),
        "operations_issued": agg["ops"],
        "simulated_time": {
            "logical_steps": agg["steps"],
            "package_line_events": agg["events"],
            "note": "the package has no clock or timer: simulated time is "
            "the logical clock of the kernel (events logged) and the "
            "executed lines of the package, each a potential preemption or "
            "crash point"},
        "faults_injected": dict(sorted(agg["faults"].items())),
        "probes": dict(sorted(agg["probes"].items())),
        "context_switches": agg["switches"],
        "distinct_interleavings": len(agg["inter"]),
        "distinct_states": len(agg["states"]),
        "state_measure": getattr(mod, 'STATES', 'none'),
        "counters": dict(sorted(agg["info"].items())),
        "determinism_check": {"reexecuted": again, "differing": differ},
        "real_components": getattr(mod, 'REAL', REAL),
        "stub_components": getattr(mod, 'STUB', STUB),
        "extensions": os.environ.get('SIM_EXT', ''),
        "harness_errors": len(harness),
        "setup_s": round(loaded, 2), "search_s": round(searched, 2)}
    ev = {"property": a.id, "tier": 'thorough' if a.tier == 'thorough'
          else 'quick', "seed": a.seed, "level": "exploration",
          "coverage": cov, "assumptions": getattr(mod, 'ASSUME', []),
          "wall_s": round(time.monotonic()-t0, 2),
          "violations": len(bad)}
    if not a.no_evidence:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', a.id+'.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print('%s: %d runs, %d operations, %d distinct non-trivial, faults %s, '
          '%d interleavings, %d states, %.1f s (%d runs/h)' % (
              a.id, agg["runs"], agg["ops"], len(agg["nontrivial"]),
              sum(agg["faults"].values()), len(agg["inter"]),
              len(agg["states"]), time.monotonic()-t0,
              cov["runs_per_hour"]))
    for h in harness[:3]:
        sys.stderr.write('HARNESS: %s ... %s\n' % (h[:150], h[-700:]))
    if rc == 0 and harness:
        rc = 3
    if rc == 0 and agg["runs"] == 0:
        rc = 3
    return rc


REAL = ["all of pydsm, Python and compiled (copied from /repo's working "
        "tree)", "NumPy, SciPy, CVXOPT, CVXPY, PICOS, matplotlib"]
STUB = ["thread scheduler (baton passing kernel)", "locks and sleeps created "
        "by the package, if any", "fault points: line events, solver and "
        "callback seams"]

if __name__ == '__main__':
    sys.exit(main())
