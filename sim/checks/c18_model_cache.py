"""C18: an interrupted download is never taken for a model."""
import os

from sim import core
from sim import disk
from sim import savedmodels
from sim import web
from sim import world

NET = ('refused', 'http', 'garbage', 'cut', 'short', 'reset')
AGENTS = 3
ALIGNERS = 2


class C18(core.Check):
  id = 'C18'
  quick_runs = 120
  thorough_runs = 6000
  run_timeout = 120
  nontrivial_rule = (
      'a history of loads of trained models (agents and the atom detector '
      'over the web, aligners from archives), some interrupted by network '
      'faults, disk faults or the death of the process, some meeting another '
      'process that loads at the same moment; non-trivial if a fault fired.')
  state_measure = 'distinct (what is loaded, fault, already cached) tuples'
  real = ['_TfAgentCreator', 'AtomDetector.from_url', 'ImageAligner.from_path',
          'TfEvalAgent', 'urllib', 'zipfile', 'TensorFlow SavedModel loading']
  stubs = ['the web (simulated connections below urllib)',
           'the models (tiny SavedModels that answer with their version)',
           'install locations (redirected to a scratch folder)']
  fault_kinds = tuple('net_' + n for n in NET) + (
      'disk_full', 'io_error', 'crash', 'bad_archive', 'other_process')

  def load(self):
    self.m = world.mods()
    from etils import epath
    from putting_dune import alignment
    from putting_dune import atom_detector
    from putting_dune.experiments import registry
    self.epath, self.al, self.ad, self.reg = (
        epath, alignment, atom_detector, registry)
    self.file = registry.__file__
    self.resource_path = epath.resource_path
    self.web = None

  def cleanup(self):
    self.reg.__file__ = self.file
    self.epath.resource_path = self.resource_path
    if self.web is not None:
      self.web.remove()
      self.web = None
    disk.cleanup()

  def generate(self, rnd, tier):
    ops = []
    for _ in range(rnd.choice([2, 3, 4, 6] if tier == 'quick'
                              else [3, 5, 8, 14])):
      site = rnd.choice(['agent', 'agent', 'detector', 'aligner', 'aligner'])
      op = {'site': site, 'which': rnd.randrange(
          {'agent': AGENTS, 'detector': 1, 'aligner': ALIGNERS}[site]),
            'fault': None, 'k': rnd.randrange(1, 14), 'cut': rnd.random()}
      if rnd.random() < 0.65:
        op['fault'] = rnd.choice(
            ['crash', 'crash', 'crash', 'io_error', 'disk_full']
            + (['bad_archive'] if site == 'aligner' else
               ['net', 'net', 'other_process'] + ['other_process'] * (
                   site == 'agent')))
      if op['fault'] == 'net':
        op['net'] = rnd.choice(NET)
      if op['fault'] == 'disk_full':
        op['quota'] = rnd.choice([0, 64, 1500])
      if op['fault'] == 'other_process':
        op['other'] = rnd.randrange(AGENTS)
      if site == 'aligner':
        op['version'] = rnd.randrange(100, 102)
        op['reload'] = rnd.random() < 0.4
      ops.append(op)
    return {'ops': ops}

  def execute(self, plan, ctx):
    d = ctx.scratch()
    self.d = d
    for x in ('pkg', 'exp', 'zips'):
      os.mkdir(os.path.join(d, x))
    for k in range(ALIGNERS):
      os.mkdir(os.path.join(d, f'work{k}'))
    self.reg.__file__ = os.path.join(d, 'exp', 'registry.py')
    self.epath.resource_path = lambda *a: self.epath.Path(d) / 'pkg'
    self.web = w = web.Web()
    w.install()
    for k in range(AGENTS):
      w.pages[f'https://models.invalid/agent{k}.zip'] = savedmodels.archive(
          f'agent{k}', k + 1)
    w.pages['https://models.invalid/detector.zip'] = savedmodels.archive(
        'atom-detection-model', 50)
    for v in (100, 101):
      with open(os.path.join(d, 'zips', f'{v}.zip'), 'wb') as f:
        f.write(savedmodels.archive('image-alignment-model', v))
    self.installed = {}
    for i, op in enumerate(plan['ops']):
      self.one(ctx, i, op)
    # Once the faults are over everything can be loaded.
    for site, n in (('agent', AGENTS), ('detector', 1), ('aligner', ALIGNERS)):
      for k in range(n):
        self.one(ctx, 'final', {'site': site, 'which': k, 'fault': None,
                                'version': 100, 'reload': False})
    ctx.nontrivial = bool(ctx.faults)
    ctx.log('installed', sorted((str(k), sorted(map(str, v)))
                                for k, v in self.installed.items()))

  def fetch(self, op, archive=None):
    """Loads a model through the real code. Returns its version."""
    site, k = op['site'], op['which']
    if site == 'agent':
      a = self.reg._TfAgentCreator(
          model_name=f'agent{k}',
          download_url=f'https://models.invalid/agent{k}.zip')(None, None)
      return savedmodels.version_of(a._model)
    if site == 'detector':
      det = self.ad.AtomDetector.from_url('https://models.invalid/detector.zip')
      self.inside(det.model_path)
      return savedmodels.version_of(det.model)
    path = archive or os.path.join(self.d, 'zips', f'{op["version"]}.zip')
    al = self.al.ImageAligner.from_path(
        self.epath.Path(path), workdir=os.path.join(self.d, f'work{k}'),
        reload=op['reload'])
    self.inside(al.model_path)
    return savedmodels.version_of(al.model)

  def inside(self, p):
    if not str(p).startswith(self.d):
      raise core.HarnessError(f'model cache outside the scratch folder: {p}')

  def one(self, ctx, i, op):
    w = self.web
    key = (op['site'], op['which'])
    had = self.installed.get(key, {None})
    want = {'agent': op['which'] + 1, 'detector': 50}.get(
        op['site'], op.get('version'))
    reload = op['site'] == 'aligner' and op['reload']
    w.fault = w.on_read = w.fired = None
    w.cut = op.get('cut', 0.5)
    fault = op['fault']
    archive, fired, got, err = None, None, None, None
    what = f'load {i} ({op["site"]} {op["which"]}, fault {fault})'
    if fault == 'net':
      w.fault = op['net']
    elif fault == 'bad_archive':
      archive = os.path.join(self.d, 'zips', 'bad.zip')
      with open(os.path.join(self.d, 'zips', f'{op["version"]}.zip'),
                'rb') as f:
        data = f.read()
      data = bytearray(data[:int(len(data) * op['cut'])] if op['k'] % 2 else
                       data)
      if not op['k'] % 2:
        data[int(len(data) * op['cut'] * 0.8)] ^= 0x10
      with open(archive, 'wb') as f:
        f.write(bytes(data))
    elif fault == 'other_process':

      def other(n):
        if n == 1 + op['k'] % 2:
          w.on_read = None
          b = {'site': 'agent', 'which': op['other'], 'fault': None}
          try:
            v = self.fetch(b)
          except Exception as e:  # pylint: disable=broad-except
            ctx.violate('concurrent', f'{what}: another process loading agent '
                        f'{op["other"]} meanwhile failed: {e!r}')
          ctx.check(v == op['other'] + 1, 'wrong-model', f'{what}: the other '
                    f'process got version {v}')
          self.installed[('agent', op['other'])] = {v}
          ctx.fault('other_process')

      w.on_read = other
    try:
      with core.quiet():
        if fault in ('crash', 'io_error'):
          f = disk.Faults(self.d, fail_at=op['k'], crash=fault == 'crash')
          try:
            with f:
              got = self.fetch(op, archive)
          finally:
            fired = f.fired
        elif fault == 'disk_full':
          with disk.quota(op['quota']):
            got = self.fetch(op, archive)
        else:
          got = self.fetch(op, archive)
    except (Exception, disk.Crash) as e:  # pylint: disable=broad-except
      if isinstance(e, (core.Violation, core.HarnessError)):
        raise
      err = e
    if fault == 'net':
      fired = w.fired
    elif fault in ('disk_full', 'bad_archive'):
      fired = err is not None
    if fired:
      ctx.fault('net_' + op['net'] if fault == 'net' else fault)
    ctx.state(op['site'], op.get('net') or fault or '', had != {None})
    if err is not None:
      ctx.check(bool(fired), 'cannot-load', f'{what} failed without a fault of '
                f'its own, after {len(w.requests)} downloads: {err!r}')
      # What was installed, what would have been, or nothing: never less
      # than a whole model.
      if reload or None in had:
        self.installed[key] = had | {want, None}
      return
    allowed = {want} if reload else {
        v if v is not None else want for v in had}
    ctx.check(got in allowed, 'wrong-model', f'{what} answered with version '
              f'{got}, expected {sorted(allowed)}')
    self.installed[key] = {got}

  def shrink(self, plan):
    for i, op in enumerate(plan['ops']):
      if op['fault']:
        ops = list(plan['ops'])
        ops[i] = dict(op, fault=None)
        yield dict(plan, ops=ops)


CHECK = C18()
