"""A simulated microscope session: simulator, faulty detector, live agent."""
import dataclasses
import datetime as dt

import numpy as np

from sim import core
from sim import world


class ScriptAgent:
  """Deterministic agent: records its time steps, fails when told to."""

  def __init__(self, lib, adapter, seed):
    self.seen = []
    self.fail = False
    self.adapter = adapter
    self.r = np.random.default_rng(seed)
    self.last_action = None
    del lib

  def set_mode(self, mode):
    del mode

  def step(self, time_step):
    if self.fail:
      self.fail = False
      raise core.InjectedFault('agent')
    self.seen.append(time_step)
    sp = self.adapter.action_spec
    self.last_action = world.sample_action(sp, self.r, 'uniform')
    return self.last_action


class Session:
  """Feeds an agent with observations of a simulated sample.

  The detector may lose the silicon (all atoms look like carbon), return an
  empty field, or permute the atoms; the sample itself is untouched.
  """

  def __init__(self, m, plan):
    self.m, self.plan = m, plan
    self.mat = world.make_material(m, plan['env'])
    self.sim = m.simulator.PuttingDuneSimulator(
        self.mat, image_duration=dt.timedelta(
            seconds=plan['env']['image_s']))
    self.r = np.random.default_rng(plan['rng'])
    self.obs = self.sim.reset(self.r, return_image=False)
    self.queue = 0

  def new_sample(self):
    self.obs = self.sim.reset(self.r, return_image=False)
    return self.obs

  def apply(self, controls):
    self.obs = self.sim.step_and_image(self.r, controls)
    return self.obs

  def detect(self, fault, seed):
    """What the detector reports for the current field of view."""
    o = self.obs
    mu = self.m.microscope_utils
    pos = np.array(o.grid.atom_positions, dtype=float)
    num = np.array(o.grid.atomic_numbers)
    if fault == 'lost':
      num[:] = world.C
    elif fault == 'permute':
      p = np.random.default_rng(seed).permutation(len(num))
      pos, num = pos[p], num[p]
    img = None
    if fault == 'image':
      img = np.random.default_rng(seed).random((4, 6, 1)).astype(np.float32)
    return dataclasses.replace(
        o, grid=mu.AtomicGrid(pos, num), image=img,
        label_image=None if img is None else img[..., 0] > 0.5)


def gen_session(rnd, tier, kinds=('rel', 'rel', 'rel_mat', 'direct', 'delta')):
  env = world.gen_env(rnd, image_p=0.0, rates=('simple', 'const'),
                      adapters=kinds)
  if rnd.random() < 0.6:
    env['goal_range'] = [1.0, rnd.choice([1.6, 3.0, 8.0])]
    env['rates'] = rnd.choice([
        {'kind': 'const', 'rates': [1.0, 1.0, 1.0]}, env['rates']])
  ops = []
  for _ in range(rnd.randrange(4, 40 if tier == 'quick' else 120)):
    r = rnd.random()
    f = rnd.choice(['ok'] * 6 + ['lost', 'lost', 'permute', 'image'])
    if r < 0.10:
      ops.append({'op': 'reset', 'fault': rnd.choice(['ok', 'ok', 'lost']),
                  'new': rnd.random() < 0.5})
    elif r < 0.15:
      ops.append({'op': 'agent_crash'})
    elif r < 0.20:
      ops.append({'op': 'noop_step', 'fault': f, 'seed': rnd.randrange(99)})
    else:
      ops.append({'op': 'step', 'fault': f, 'seed': rnd.randrange(99)})
  return {'env': env, 'rng': rnd.randrange(2**31),
          'agent_seed': rnd.randrange(2**31),
          'agent': rnd.choice(['script', 'script', 'registry']), 'ops': ops}


def build_agent(m, plan, modules):
  """The real MicroscopeAgent; its inner agent is scripted or real."""
  lib, microscope_agent, experiments, registry = modules
  holder = {}

  def get_adapters():
    return experiments.AdaptersAndGoal(
        action_adapter=world.make_adapter(m, plan['env']['adapter']),
        feature_constructor=world.make_features(m, plan['env']['features']),
        goal=world.make_goal(m, plan['env']))

  def get_agent(rng, ag):
    if plan['agent'] == 'registry':
      real = registry.create_microscope_experiment(
          'relative_random').get_agent(rng, ag)

      class Rec(lib.Agent):
        seen = []
        fail = False
        last_action = None

        def step(self, ts):
          if self.fail:
            self.fail = False
            raise core.InjectedFault('agent')
          self.seen.append(ts)
          self.last_action = real.step(ts)
          return self.last_action

        def set_mode(self, mode):
          real.set_mode(mode)

      holder['agent'] = Rec()
      holder['agent'].seen = []
    else:
      holder['agent'] = ScriptAgent(lib, ag.action_adapter, plan['agent_seed'])
    return holder['agent']

  exp = experiments.MicroscopeExperiment(
      get_agent=get_agent, get_adapters_and_goal=get_adapters)
  agent = microscope_agent.MicroscopeAgent(
      np.random.default_rng(plan['agent_seed']), exp)
  return agent, holder['agent']


def load(check):
  check.m = world.mods()
  from putting_dune import io as pdio
  from putting_dune import microscope_agent
  from putting_dune.agents import agent_lib
  from putting_dune.experiments import experiments
  from putting_dune.experiments import registry
  check.pdio = pdio
  check.microscope_agent = microscope_agent
  check.modules = (agent_lib, microscope_agent, experiments, registry)
