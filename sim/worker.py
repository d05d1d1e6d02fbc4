"""A worker process: executes plan indices, writes one JSON line per run."""
import importlib
import json
import os
import sys
import traceback


def load_check(prop):
  import glob
  here = os.path.dirname(os.path.abspath(__file__))
  for f in sorted(glob.glob(os.path.join(here, 'checks', 'c*.py'))):
    name = os.path.basename(f)[:-3]
    if name.split('_')[0].upper() == prop:
      return importlib.import_module('sim.checks.' + name).CHECK
  raise SystemExit(f'no check for {prop}')


def main():
  arg = sys.argv[1]
  spec = json.load(open(arg[1:])) if arg[0] == '@' else json.loads(arg)
  sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
  from sim import boot
  out = os.fdopen(os.dup(1), 'w', buffering=1)
  # Anything the code under test prints must not corrupt the result stream.
  devnull = os.open(os.devnull, os.O_WRONLY)
  os.dup2(devnull, 1)
  errlog = os.open(spec['errlog'], os.O_WRONLY | os.O_CREAT | os.O_APPEND)
  os.dup2(errlog, 2)
  boot.setup(spec['proto_dir'])
  from sim import core
  import warnings
  warnings.simplefilter('ignore')
  from absl import logging as absl_logging
  absl_logging.set_verbosity(absl_logging.FATAL)
  import logging
  logging.disable(logging.CRITICAL)

  def emit(**k):
    out.write(json.dumps(k) + '\n')
    out.flush()

  check = load_check(spec['property'])
  try:
    check.load()
  except Exception as e:  # pylint: disable=broad-except
    emit(kind='load_failed', tb=traceback.format_exc()[-4000:],
         repo=core._through_repo(e), name=type(e).__name__)
    return
  emit(kind='ready')
  tier = spec['tier']

  if spec['mode'] == 'plans':
    # Execute given plans in order; report the outcome of each.
    for i, plan in enumerate(spec['plans'] if 'plans' in spec else json.load(
        open(spec['plans_file']))):
      emit(kind='start', index=i)
      r = core.run_plan(check, plan, keep_trace=spec.get('trace', False))
      emit(kind='run', index=i, **r)
    emit(kind='done')
    return

  # Fork one child per shard: the (single-threaded) import is paid once.
  pids = []
  for shard in spec['shards']:
    pid = os.fork()
    if pid == 0:
      try:
        out = os.fdopen(shard['fd'], 'w', buffering=1)
        errlog = os.open(shard['errlog'],
                         os.O_WRONLY | os.O_CREAT | os.O_APPEND)
        os.dup2(errlog, 2)
        run_shard(check, core, spec, shard['indices'], out)
        out.flush()
      except BaseException:  # pylint: disable=broad-except
        os.write(2, traceback.format_exc().encode())
        os._exit(3)
      os._exit(0)
    os.close(shard['fd'])
    pids.append(pid)
  for pid in pids:
    os.waitpid(pid, 0)


def run_shard(check, core, spec, indices, out):
  from sim import boot

  def emit(**k):
    out.write(json.dumps(k) + '\n')
    out.flush()

  emit(kind='pid', pid=os.getpid())
  tier = spec['tier']
  t0 = boot.real_perf()
  history = []
  for index in indices:
    if boot.real_perf() - t0 > spec['cap_s']:
      emit(kind='capped', index=index)
      break
    emit(kind='start', index=index)
    plan = core.make_plan(check, spec['seed'], index, tier)
    r = core.run_plan(check, plan)
    if (index % spec['recheck_every'] == 0 and not r['error']
        and not r['violation']):
      r2 = core.run_plan(check, plan)
      r['recheck'] = [r['digest'], r2['digest']]
    if index < 2:
      r['plan'] = plan
    emit(kind='run', index=index, **r)
    history.append(index)
    if r['violation'] and r['violation'][0] not in spec['known']:
      small, tries, ok = core.minimise(
          check, plan, r['violation'][0], budget_s=spec['min_budget_s']
      )
      emit(kind='violation', index=index, plan=small, original=plan,
           sig=r['violation'][0], msg=r['violation'][1], tries=tries,
           reproduced=ok, history=history[:-1])
      break
  emit(kind='done')


if __name__ == '__main__':
  main()
