"""C15: the record store loses nothing silently."""
import os

import numpy as np

from sim import core
from sim import disk


class C15(core.Check):
  id = 'C15'
  quick_runs = 400
  thorough_runs = 12000
  nontrivial_rule = (
      'a seeded history of writes, overwrites, interleaved reads, failing '
      'sources, full disks and damage at rest over a few record files; '
      'non-trivial if a fault fired.')
  state_measure = ('distinct (fault, number of records capped at 6, where the '
                   'damage falls, outcome) tuples')
  real = ['io.read_records', 'io.write_records', 'TensorFlow record reader and '
          'writer', 'ProtoModel.from_proto_string', 'real files']
  stubs = ['disk quota', 'damage at rest']
  fault_kinds = ('disk_full', 'torn_file', 'bit_flip', 'source_failed',
                 'reader_interleaved', 'garbage_file', 'bad_path')

  def load(self):
    from putting_dune import io as pdio
    from putting_dune import microscope_utils
    from putting_dune import geometry
    self.pdio, self.mu, self.ge = pdio, microscope_utils, geometry

  def cleanup(self):
    disk.cleanup()

  def generate(self, rnd, tier):
    ops = []
    for _ in range(rnd.randrange(3, 14)):
      f = rnd.randrange(3)
      r = rnd.random()
      if r < 0.35:
        ops.append({'op': 'write', 'f': f, 'n': rnd.choice([0, 1, 2, 5, 17]),
                    'size': rnd.choice([0, 1, 30, 300, 20000]),
                    's': rnd.randrange(10**6), 'model': rnd.random() < 0.4,
                    'lazy': rnd.random() < 0.4,
                    'path': rnd.choice(['str', 'epath'])})
      elif r < 0.45:
        ops.append({'op': 'full', 'f': f, 'n': rnd.choice([1, 3, 9]),
                    'size': rnd.choice([10, 400, 30000]),
                    's': rnd.randrange(10**6), 'lim': rnd.choice(
                        [0, 1, 11, 12, 100, 1000, 40000])})
      elif r < 0.52:
        ops.append({'op': 'source', 'f': f, 'n': rnd.choice([1, 4]),
                    'size': 50, 's': rnd.randrange(10**6),
                    'at': rnd.randrange(4)})
      elif r < 0.70:
        ops.append({'op': 'read', 'f': f})
      elif r < 0.80:
        ops.append({'op': 'reads', 'fs': [rnd.randrange(3) for _ in range(2)],
                    'sched': [rnd.randrange(2) for _ in range(24)]})
      elif r < 0.88:
        ops.append({'op': 'tear', 'f': f, 'frac': rnd.random(),
                    'boundary': rnd.random() < 0.3})
      elif r < 0.95:
        ops.append({'op': 'flip', 'f': f, 'frac': rnd.random()})
      elif r < 0.98:
        ops.append({'op': 'ext', 'ext': rnd.choice(
            ['.txt', '', '.TFRECORDS', '.tfrecord', '.tfrecords.tmp'])})
      else:
        ops.append({'op': rnd.choice(['missing', 'isdir'])})
    ops.append({'op': 'read', 'f': 0})
    return {'ops': ops}

  def records(self, op):
    r = np.random.default_rng(op['s'])
    out = []
    for i in range(op['n']):
      if op.get('model'):
        out.append(self.mu.BeamControl(
            self.ge.Point(float(np.float32(r.uniform(-9, 9))), float(i)),
            __import__('datetime').timedelta(seconds=i / 4)))
      else:
        k = int(r.integers(0, op['size'] + 1))
        out.append(bytes(r.integers(0, 256, size=k, dtype=np.uint8)))
    return out

  def enc(self, records):
    return [x if isinstance(x, bytes) else x.to_proto().SerializeToString()
            for x in records]

  def execute(self, plan, ctx):
    d = ctx.scratch()
    paths = [os.path.join(d, f'f{i}.tfrecords') for i in range(3)]
    # Per file: None (absent) or dict(recs, damage)
    st = [None, None, None]

    def read_all(path, typ=None):
      got = []
      try:
        for x in self.pdio.read_records(path, typ):
          got.append(x)
      except Exception as e:  # pylint: disable=broad-except
        return got, e
      return got, None

    def verify(i, got, err, what):
      s = st[i]
      if s is None:
        ctx.check(err is not None, 'missing-file-read',
                  f'{what}: reading a file that does not exist gave '
                  f'{len(got)} records')
        return
      want = s['recs']
      ctx.check(got == want[:len(got)], 'foreign-records',
                f'{what}: records read were never written, or not in this '
                f'order (damage: {s["damage"]})')
      if s['damage'] is None:
        ctx.check(err is None, 'intact-file-fails',
                  f'{what}: reading an intact file failed: {err}')
        ctx.check(len(got) == len(want), 'records-lost',
                  f'{what}: {len(got)} of {len(want)} records came back')
      elif s['damage'] == 'boundary':
        ctx.check(err is None and len(got) == s['keep'], 'boundary',
                  f'{what}: {len(got)} of {s["keep"]} whole records, {err}')
      else:
        ctx.check(err is not None, 'damage-hidden',
                  f'{what}: the file is damaged ({s["damage"]}) and reading it '
                  f'returned {len(got)} of {len(want)} records without error')
        ctx.check(len(got) >= s['keep'], 'prefix-lost',
                  f'{what}: {len(got)} records before the damage, '
                  f'{s["keep"]} are intact')

    def bounds(recs):
      b = [0]
      for x in recs:
        b.append(b[-1] + 16 + len(x))
      return b

    for op in plan['ops']:
      k = op['op']
      if k == 'write':
        recs = self.records(op)
        src = (x for x in recs) if op['lazy'] else recs
        p = paths[op['f']]
        if op['path'] == 'epath':
          from etils import epath
          p = epath.Path(p)
        ctx.must('write_records', self.pdio.write_records, p, src)
        if op['model']:
          back = list(self.pdio.read_records(p, self.mu.BeamControl))
          ctx.check(len(back) == len(recs) and all(
              (b.position.x, b.position.y, b.dwell_time, b.voltage_kv)
              == (a.position.x, a.position.y, a.dwell_time, a.voltage_kv)
              for a, b in zip(recs, back)), 'models',
              'records read back as models differ')
        st[op['f']] = dict(recs=self.enc(recs), damage=None, keep=0)
      elif k == 'full':
        recs = self.records(op)
        need = sum(16 + len(x) for x in recs)
        try:
          with disk.quota(op['lim']):
            self.pdio.write_records(paths[op['f']], recs)
          failed = False
        except Exception:  # pylint: disable=broad-except
          failed = True
        if need > op['lim']:
          ctx.fault('disk_full')
          ctx.check(failed, 'write-loss-hidden',
                    f'{need} bytes were written to a disk with room for '
                    f'{op["lim"]} without any error')
          have = os.path.getsize(paths[op['f']])
          b = bounds(recs)
          keep = max(i for i in range(len(b)) if b[i] <= have)
          st[op['f']] = dict(
              recs=self.enc(recs), keep=keep,
              damage=cut_kind(have - b[keep], 'full disk'))
        else:
          ctx.check(not failed, 'spurious-write-error',
                    'a write that fits failed')
          st[op['f']] = dict(recs=self.enc(recs), damage=None, keep=0)
        ctx.state('full', min(len(recs), 6), failed)
      elif k == 'source':
        recs = self.records(op)
        at = min(op['at'], len(recs))
        ctx.fault('source_failed')

        def gen():
          for i, x in enumerate(recs):
            if i == at:
              raise core.InjectedFault('source')
            yield x
          raise core.InjectedFault('source')

        try:
          self.pdio.write_records(paths[op['f']], gen())
        except core.InjectedFault:
          pass
        else:
          ctx.violate('source-failure-hidden', 'the failure of the record '
                      'source disappeared')
        got, err = read_all(paths[op['f']])
        ctx.check(err is None and got == self.enc(recs[:at])[:len(got)],
                  'source-failure-file', 'the file written before the source '
                  'failed holds something else than its records')
        st[op['f']] = dict(recs=got, damage=None, keep=0)
      elif k == 'read':
        got, err = read_all(paths[op['f']])
        verify(op['f'], got, err, f'file {op["f"]}')
        ctx.log('read', got, err is None)
        s = st[op['f']]
        ctx.state(s and s['damage'] and s['damage'][:4], min(len(got), 6),
                  err is None)
      elif k == 'reads':
        its = [self.pdio.read_records(paths[i]) for i in op['fs']]
        got, err, done = [[], []], [None, None], [False, False]
        sched = op['sched'] + [0, 1] * 40
        for w in sched:
          if done[w]:
            continue
          try:
            got[w].append(next(its[w]))
          except StopIteration:
            done[w] = True
          except Exception as e:  # pylint: disable=broad-except
            done[w], err[w] = True, e
        ctx.fault('reader_interleaved')
        for w in (0, 1):
          verify(op['fs'][w], got[w], err[w], f'interleaved reader {w}')
      elif k in ('tear', 'flip'):
        s = st[op['f']]
        if s is None or s['damage'] or not s['recs']:
          continue
        p = paths[op['f']]
        size = os.path.getsize(p)
        b = bounds(s['recs'])
        if size != b[-1]:
          continue
        if k == 'tear':
          cut = (b[int(op['frac'] * len(b))] if op['boundary']
                 else int(op['frac'] * size))
          disk.truncate(p, cut)
          ctx.fault('torn_file')
          keep = max(i for i in range(len(b)) if b[i] <= cut)
          s.update(keep=keep, damage=cut_kind(
              cut - b[keep], f'cut at byte {cut} of {size}'))
        else:
          bit = int(op['frac'] * size * 8)
          disk.flip(p, bit)
          ctx.fault('bit_flip')
          keep = max(i for i in range(len(b)) if b[i] <= bit // 8)
          s.update(keep=keep, damage=f'bit {bit} flipped in record {keep}')
      elif k == 'ext':
        p = os.path.join(d, 'odd' + op['ext'])
        before = sorted(os.listdir(d))
        ctx.fault('bad_path')
        for fn in (lambda: list(self.pdio.read_records(p)),
                   lambda: self.pdio.write_records(p, [b'x'])):
          try:
            fn()
          except ValueError:
            pass
          else:
            ctx.violate('unknown-extension', f'{op["ext"]!r} was accepted')
        ctx.check(sorted(os.listdir(d)) == before, 'unknown-extension',
                  'a rejected write created files')
      else:
        ctx.fault('bad_path')
        p = os.path.join(d, 'dir.tfrecords' if k == 'isdir' else
                         'nowhere/x.tfrecords')
        if k == 'isdir':
          os.makedirs(p, exist_ok=True)
        try:
          self.pdio.write_records(p, [b'x'])
        except Exception:  # pylint: disable=broad-except
          pass
        else:
          ctx.violate('write-loss-hidden', f'writing to {k} path succeeded')
      ctx.log(k, op.get('f'))
    for i in range(3):
      if st[i] is not None:
        verify(i, *read_all(paths[i]), f'file {i} at the end')


def cut_kind(rest, what):
  # The record format itself takes a remainder shorter than a record header
  # (12 bytes) for the end of the file.
  return 'boundary' if rest < 12 else what


CHECK = C15()
