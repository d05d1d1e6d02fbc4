"""Parent process: distributes seeds, collects verdicts, writes evidence."""
import argparse
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

from sim import boot
from sim import core

VERIF = boot.VERIF


def _env(scratch):
  env = dict(os.environ)
  env.update(boot.ENV)
  env['VERIF_SCRATCH'] = scratch
  env['HOME'] = scratch
  env['TMPDIR'] = scratch
  if 'VERIF_HASHSEED' in os.environ:
    env['PYTHONHASHSEED'] = os.environ['VERIF_HASHSEED']
  return env


class Worker:
  """Reads the message stream of one worker process (or forked shard)."""

  def __init__(self, spec, scratch, fd=None):
    self.spec = spec
    self.lines = []
    self.last_start = None
    self.open = False
    self.done = False
    self.pid = None
    self.first_violation_at = None
    self.proc = None
    if fd is None:
      self.proc = subprocess.Popen(
          [sys.executable, '-B', '-m', 'sim.worker', json.dumps(spec)],
          cwd=VERIF, env=_env(scratch), stdout=subprocess.PIPE,
          stdin=subprocess.DEVNULL, text=True,
      )
      self.stream = self.proc.stdout
    else:
      self.stream = os.fdopen(fd, 'r')
    self.thread = threading.Thread(target=self._read, daemon=True)
    self.last_activity = time.time()
    self.thread.start()

  def _read(self):
    for line in self.stream:
      try:
        m = json.loads(line)
      except ValueError:
        continue
      self.last_activity = time.time()
      if m['kind'] == 'pid':
        self.pid = m['pid']
      elif m['kind'] == 'start':
        self.last_start, self.open = m['index'], True
      elif m['kind'] == 'run':
        self.open = False
      elif m['kind'] == 'done' or m['kind'] == 'load_failed':
        self.done = True
      if m['kind'] == 'violation':
        self.first_violation_at = time.time()
      self.lines.append(m)

  def running(self):
    return self.thread.is_alive()

  def kill(self):
    if self.proc is not None:
      if self.proc.poll() is None:
        self.proc.kill()
      self.proc.wait()
    elif self.pid and self.running():
      try:
        os.kill(self.pid, signal.SIGKILL)
      except ProcessLookupError:
        pass
    self.thread.join(timeout=5)


def start_shards(spec, shards, scratch):
  """Starts the zygote process and one reader per shard."""
  readers, fds, desc = [], [], []
  for i, indices in enumerate(shards):
    r, w = os.pipe()
    os.set_inheritable(w, True)
    fds.append((r, w))
    desc.append(dict(fd=w, indices=indices,
                     errlog=os.path.join(scratch, f'w{i}.err')))
  zspec = dict(spec, shards=desc, errlog=os.path.join(scratch, 'zygote.err'))
  # The spec can be long; hand it over in a file.
  zf = os.path.join(scratch, 'zygote.json')
  with open(zf, 'w') as f:
    json.dump(zspec, f)
  proc = subprocess.Popen(
      [sys.executable, '-B', '-m', 'sim.worker', '@' + zf],
      cwd=VERIF, env=_env(scratch), stdout=subprocess.PIPE,
      stdin=subprocess.DEVNULL, text=True, pass_fds=[w for _, w in fds],
  )
  for (r, w), d in zip(fds, desc):
    os.close(w)
    readers.append(Worker(dict(spec, errlog=d['errlog']), scratch, fd=r))
  zyg = []

  def read():
    for line in proc.stdout:
      try:
        zyg.append(json.loads(line))
      except ValueError:
        pass

  t = threading.Thread(target=read, daemon=True)
  t.start()
  return proc, readers, zyg


def run_plans_fresh(prop, plans, tier, scratch, proto_dir, timeout=180,
                    trace=False):
  """Executes plans in order in one fresh process. Returns (results, died)."""
  pf = tempfile.NamedTemporaryFile(
      'w', suffix='.json', dir=scratch, delete=False
  )
  json.dump(plans, pf)
  pf.close()
  spec = dict(
      mode='plans', property=prop, plans_file=pf.name, tier=tier,
      proto_dir=proto_dir, errlog=os.path.join(scratch, 'fresh.err'),
      trace=trace,
  )
  w = Worker(spec, scratch)
  t0 = time.time()
  while w.proc.poll() is None and time.time() - t0 < timeout:
    time.sleep(0.05)
  hung = w.proc.poll() is None
  w.kill()
  runs = [m for m in w.lines if m['kind'] == 'run']
  died = None
  if not w.done:
    died = 'hung' if hung else f'died rc={w.proc.returncode}'
  for m in w.lines:
    if m['kind'] == 'load_failed':
      died = 'load_failed: ' + m['tb']
  return runs, died


def load_known(prop):
  """Known findings: {signature: what}."""
  out = {}
  p = os.path.join(VERIF, 'KNOWN_FINDINGS.jsonl')
  if os.path.exists(p):
    for line in open(p):
      line = line.strip()
      if not line or line.startswith('#') or line.startswith('fixed:'):
        continue
      d = json.loads(line)
      if d['property'] == prop and d.get('status', 'open') == 'open':
        out[d['signature']] = d['what']
  return out


def main(argv):
  ap = argparse.ArgumentParser()
  ap.add_argument('property', nargs='?')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--seed', type=int,
                  default=int(os.environ.get('VERIF_SEED', '1')))
  ap.add_argument('--runs', type=int)
  ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 2))
  ap.add_argument('--replay')
  ap.add_argument('--show', type=int, help='print the plan and trace of a run')
  ap.add_argument('--cap', type=float)
  ap.add_argument('--selftest', action='store_true')
  args = ap.parse_args(argv)
  if args.tier not in ('quick', 'thorough'):
    args.tier = 'quick'

  scratch = tempfile.mkdtemp(prefix='verif_')
  try:
    proto_out = os.path.join(scratch, 'proto')
    os.mkdir(proto_out)
    try:
      proto_dir = boot.build_protos(proto_out)
    except (subprocess.CalledProcessError, OSError) as e:
      print('ERROR: could not compile the .proto files:',
            getattr(e, 'stderr', b'') or e)
      return 2
    if args.selftest:
      return selftest()
    if args.replay:
      return replay(args, scratch, proto_dir)
    return explore(args, scratch, proto_dir)
  finally:
    shutil.rmtree(scratch, ignore_errors=True)


def selftest():
  """Setup: every check loads and generates plans reproducibly."""
  from sim import worker as worker_mod
  names = sorted(
      n[:3].upper() for n in os.listdir(os.path.join(VERIF, 'sim', 'checks'))
      if re.match(r'c\d\d_.*\.py$', n))
  for n in names:
    check = worker_mod.load_check(n)
    for tier in ('quick', 'thorough'):
      a, b = (core.make_plan(check, 1, 0, tier) for _ in range(2))
      if a != b:
        print(f'{n}: plan generation is not a function of the seed')
        return 2
  print('selftest:', len(names), 'checks ready:', ' '.join(names))
  return 0


def replay(args, scratch, proto_dir):
  d = json.load(open(args.replay))
  prop = d['property']
  runs, died = run_plans_fresh(
      prop, d['plans'], d.get('tier', 'quick'), scratch, proto_dir, trace=True,
      timeout=600,
  )
  if len(runs) < len(d['plans']):
    print(f'the process {died} while executing plan {len(runs)}')
    if d['signature'].startswith('process-'):
      print(f'VIOLATION property={prop} replay={args.replay}')
      return 1
    print(open(os.path.join(scratch, 'fresh.err')).read()[-3000:])
    return 2
  r = runs[-1]
  print('plan:', json.dumps(d['plans'][-1], indent=1)[:6000])
  print('trace:')
  for i, e in enumerate(r.get('trace', [])):
    print(f'  {i:4d}', json.dumps(e)[:400])
  print('digest:', r['digest'], 'recorded:', d.get('digest'))
  if r['violation']:
    same = r['violation'][0] == d['signature']
    print('violation:', r['violation'][0], '' if same else
          f'(recorded signature was {d["signature"]})')
    print(r['violation'][1])
    print('exact reproduction:', same and r['digest'] == d.get('digest'))
    print(f'VIOLATION property={prop} replay={args.replay}')
    return 1
  if r['error']:
    print('harness error:', r['error'])
    return 2
  print('no violation: the property holds on this plan')
  return 0


def explore(args, scratch, proto_dir):
  from sim import worker as worker_mod
  prop = args.property
  sys.path.insert(0, VERIF)
  check = worker_mod.load_check(prop)
  tier = args.tier
  total = args.runs or (
      check.quick_runs if tier == 'quick' else check.thorough_runs
  )
  indices = list(range(total))
  if args.show is not None:
    plan = core.make_plan(check, args.seed, args.show, tier)
    runs, died = run_plans_fresh(prop, [plan], tier, scratch, proto_dir,
                                 trace=True)
    print(json.dumps(plan)[:8000])
    for r in runs:
      for e in r.pop('trace', []):
        print('  ', json.dumps(e)[:300])
      print(json.dumps(r)[:6000])
    print(died)
    if died:
      print(open(os.path.join(scratch, 'fresh.err')).read()[-5000:])
    return 0
  known = load_known(prop)
  nw = max(1, min(args.workers, (total + 3) // 4))
  cap = args.cap or (
      getattr(check, 'quick_cap', 240) if tier == 'quick' else 3600)
  hard = cap + 150
  t0 = time.time()
  base = dict(
      mode='seeds', property=prop, seed=args.seed, tier=tier, cap_s=cap,
      proto_dir=proto_dir, known=sorted(known), min_budget_s=20.0,
      recheck_every=getattr(check, 'recheck_every', 16),
  )
  zygote, workers, zyg = start_shards(
      base, [indices[i::nw] for i in range(nw)], scratch)
  stall = check.run_timeout * 2 + 60
  stalled = []
  first_v = None
  while any(w.running() for w in workers):
    time.sleep(0.05)
    now = time.time()
    for w in workers:
      if w.first_violation_at and first_v is None:
        first_v = now
      if w.running() and now - w.last_activity > stall:
        stalled.append(w)
        w.kill()
    if first_v and now - first_v > 8:
      # Others may still be minimising their own finding; ours suffices.
      for w in workers:
        w.kill()
      break
    if now - t0 > hard:
      for w in workers:
        w.kill()
      break
  for w in workers:
    w.thread.join(timeout=5)
  if zygote.poll() is None:
    try:
      zygote.wait(timeout=10)
    except subprocess.TimeoutExpired:
      zygote.kill()
      zygote.wait()
  wall = time.time() - t0

  runs, violations, errors, capped = [], [], [], False
  determinism_bad = []
  for m in zyg:
    if m['kind'] == 'load_failed':
      errors.append((-1, 'import failed:\n' + m['tb']))
  for w in workers:
    for m in w.lines:
      if m['kind'] == 'run':
        runs.append(m)
        if m['error']:
          errors.append((m['index'], m['error']))
        if m.get('recheck') and m['recheck'][0] != m['recheck'][1]:
          determinism_bad.append(m['index'])
      elif m['kind'] == 'violation':
        violations.append(m)
      elif m['kind'] == 'capped':
        capped = True
    if not w.done and not first_v:
      idx = w.last_start
      if idx is not None and w.open and not any(
          v['sig'] == 'process-died' for v in violations):
        # The process died or hung inside a run.
        plan = core.make_plan(check, args.seed, idx, tier)
        _, died = run_plans_fresh(prop, [plan], tier, scratch, proto_dir,
                                  timeout=check.run_timeout + 60)
        if died:
          violations.append(dict(
              index=idx, plan=plan, original=plan, sig='process-died',
              msg=f'the process {died} while executing this plan',
              history=[], tries=0, reproduced=True))
        else:
          errors.append((idx, 'worker died (not reproducible): '
                         + _tail(w.spec['errlog'])))
      elif not errors and not violations:
        errors.append((-1, 'worker ended early: ' + _tail(w.spec['errlog'])
                       + _tail(os.path.join(scratch, 'zygote.err'))))
  runs.sort(key=lambda m: m['index'])

  # Same seeds in a fresh process with another hash seed: same histories?
  cross = dict(runs=0, mismatches=[])
  ncross = getattr(check, 'cross_process', 4 if tier == 'thorough' else 0)
  sample = [r for r in runs if not r['violation'] and not r['error']][:ncross]
  if sample and not violations:
    plans = [core.make_plan(check, args.seed, r['index'], tier)
             for r in sample]
    os.environ['VERIF_HASHSEED'] = '4242'
    fresh, _ = run_plans_fresh(
        prop, plans, tier, scratch, proto_dir,
        timeout=120 + check.run_timeout * len(plans))
    del os.environ['VERIF_HASHSEED']
    for r, f, p in zip(sample, fresh, plans):
      cross['runs'] += 1
      if f['digest'] != r['digest']:
        cross['mismatches'].append(r['index'])
        if getattr(check, 'cross_process_violates', False):
          violations.append(dict(
              index=r['index'], plan=None, original=None,
              sig='cross-process',
              msg=f'run {r["index"]} gives another history in a fresh process '
              'with another hash seed', history=[], tries=0, reproduced=True,
              plans=[p]))

  for sig, msg in check.finalize([r for r in runs if not r['error']]):
    violations.append(dict(index=10**9, plan=None, original=None, sig=sig,
                           msg=msg, history=[], tries=0, reproduced=True))

  # Known findings: reported, never alarms.
  seen_known = {}
  for r in runs:
    if r['violation'] and r['violation'][0] in known:
      seen_known.setdefault(r['violation'][0], r['index'])
  for sig in sorted(known):
    print(f'KNOWN-FINDING: property={prop} {known[sig]}'
          + ('' if sig in seen_known else ' (not reached in this run)'))

  rc = 0
  reported = None
  if violations:
    violations.sort(key=lambda v: v['index'])
    for v in violations:
      rep = confirm(v, check, prop, args, tier, scratch, proto_dir)
      if rep is not None:
        reported = (v, rep)
        break
      errors.append((v['index'], 'violation did not reproduce: '
                     + v['sig'] + ': ' + v['msg'][:1500]))
  write_evidence(check, prop, args, tier, runs, wall, capped,
                 determinism_bad, reported, known, seen_known, errors, cross)
  n_ok = sum(1 for r in runs if not r['error'])
  print(f'{prop} tier={tier} seed={args.seed} runs={n_ok} wall={wall:.1f}s '
        f'errors={len(errors)} determinism_mismatches={len(determinism_bad)}')
  if reported:
    v, rep = reported
    print(f'violation [{v["sig"]}] at run index {v["index"]}: '
          f'{v["msg"][:3000]}')
    print(f'VIOLATION property={prop} replay={rep}')
    return 1
  if errors:
    for i, e in errors[:3]:
      print(f'ERROR in run {i}:\n{e}')
    return 2
  if n_ok == 0:
    print('ERROR: no run completed')
    return 2
  return rc


def _tail(p):
  try:
    return open(p, errors='replace').read()[-3000:]
  except OSError:
    return ''


def _write_replay(prop, args, tier, v, plans, digest_):
  d = os.path.join(VERIF, 'evidence', 'replays')
  os.makedirs(d, exist_ok=True)
  name = re.sub(r'[^A-Za-z0-9]+', '-', v['sig'])[:60]
  p = os.path.join(d, f'{prop}-seed{args.seed}-{v["index"]}-{name}.json')
  with open(p, 'w') as f:
    json.dump(dict(
        property=prop, signature=v['sig'], message=v['msg'], tier=tier,
        base_seed=args.seed, index=v['index'], digest=digest_,
        minimisation_tries=v.get('tries'), plans=plans,
        how_to_replay=f'./check.py --replay {os.path.relpath(p, VERIF)}',
    ), f, indent=1)
  return os.path.relpath(p, VERIF)


def confirm(v, check, prop, args, tier, scratch, proto_dir):
  """Reproduces a violation in a fresh process; writes the replay file."""
  if v['plan'] is None:
    return _write_replay(prop, args, tier, v, v.get('plans', []), None)
  if v['sig'].startswith('process-'):
    return _write_replay(prop, args, tier, v, [v['plan']], None)

  def fails(plans):
    runs, _ = run_plans_fresh(
        prop, plans, tier, scratch, proto_dir,
        timeout=min(300, 60 + (check.run_timeout + 5) * max(1, len(plans))))
    if len(runs) < len(plans):
      return None
    r = runs[-1]
    if r['violation'] and r['violation'][0] == v['sig']:
      return r
    return None

  for plan in (v['plan'], v['original']):
    r = fails([plan])
    if r:
      v['msg'] = r['violation'][1]
      return _write_replay(prop, args, tier, v, [plan], r['digest'])
  # State leaked from earlier runs of the same process?  Then the history of
  # that process is part of the failing schedule.
  hist = [core.make_plan(check, args.seed, i, tier) for i in v['history']]
  if not hist:
    return None
  r = fails(hist + [v['original']])
  if not r:
    return None
  t0 = time.time()
  # Shortest suffix first, then drop single plans.
  k = 1
  best = hist
  while k < len(hist) and time.time() - t0 < 120:
    if fails(hist[-k:] + [v['original']]):
      best = hist[-k:]
      break
    k *= 2
  i = 0
  while i < len(best) and len(best) > 1 and time.time() - t0 < 180:
    cand = best[:i] + best[i + 1:]
    if fails(cand + [v['original']]):
      best = cand
    else:
      i += 1
  r = fails(best + [v['original']]) or r
  return _write_replay(prop, args, tier, v, best + [v['original']],
                       r['digest'])


def write_evidence(check, prop, args, tier, runs, wall, capped,
                   determinism_bad, reported, known, seen_known, errors, cross):
  faults, counts = {}, {}
  states = set()
  sim = 0.0
  events = 0
  digests = set()
  rechecked = 0
  for r in runs:
    for k, n in r['faults'].items():
      faults[k] = faults.get(k, 0) + n
    for k, n in r['counts'].items():
      counts[k] = counts.get(k, 0) + n
    states.update(r['states'])
    sim += r['sim_seconds']
    events += r['events']
    if r['nontrivial']:
      digests.add(r['digest'])
    rechecked += 1 if r.get('recheck') else 0
  samples = []
  for r in runs[:40]:
    if 'plan' in r and len(samples) < 2:
      p = dict(r['plan'])
      samples.append(dict(
          index=r['index'], seed=p.pop('seed', None), plan=_clip(p),
          digest=r['digest'], events=r['events'], faults=r['faults'],
          violation=r['violation']))
  n = len(runs)
  cov = dict(
      evaluations=n,
      distinct_nontrivial=len(digests),
      rule=(check.nontrivial_rule or
            'each case is a plan generated from one seed; non-trivial if at '
            'least one fault fired or one scheduling choice was made')
      + ' Distinct = distinct digest of the recorded event history.',
      samples=samples,
      simulated_runs=n,
      seeds_per_hour=round(n / wall * 3600) if wall else 0,
      simulated_seconds=round(sim, 3),
      events_recorded=events,
      faults_fired=dict(sorted(faults.items())),
      fault_kinds_never_fired=[
          k for k in check.fault_kinds if k not in faults],
      counts=dict(sorted(counts.items())),
      distinct_states=len(states),
      state_measure=check.state_measure,
      real_components=check.real,
      stubbed_components=check.stubs,
      determinism_rechecks=rechecked,
      determinism_mismatches=len(determinism_bad),
      cross_process_rechecks=cross['runs'],
      cross_process_mismatches=len(cross['mismatches']),
      stopped_by_time_cap=capped,
      harness_errors=len(errors),
      known_findings_reached=sorted(seen_known),
  )
  ev = dict(
      property=prop, tier=tier, seed=args.seed, level=check_level(check),
      coverage=cov, assumptions=check.assumptions, wall_s=round(wall, 2),
      violations=1 if reported else 0,
  )
  d = os.path.join(VERIF, 'evidence')
  os.makedirs(d, exist_ok=True)
  with open(os.path.join(d, f'{prop}.json'), 'w') as f:
    json.dump(ev, f, indent=1)


def check_level(check):
  return getattr(check, 'level', 'exploration')


def _clip(x, n=40):
  if isinstance(x, list) and len(x) > n:
    return [_clip(y) for y in x[:n]] + [f'... {len(x) - n} more']
  if isinstance(x, list):
    return [_clip(y) for y in x]
  if isinstance(x, dict):
    return {k: _clip(v) for k, v in x.items()}
  return x
