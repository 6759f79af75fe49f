"""Properties decided in World A: one simulated process running slash_run with scripted user code and faults."""
import os
import random

import core
import gen_a
import harness
import oracles_a
import worlda
from harness import Prop, digest

REAL_A = ['slash.frontend.slash_run / slash.app / slash.core.* / slash.runner / slash.loader / slash.hooks / gossip / logbook / dessert (real code)',
          'suite files written to and imported from a real scratch directory']
STUB_A = ['clock (time, datetime), threads/locks, signals, process ids, uuid, temp names: simulated',
          'user code (tests, fixtures, cleanups, hook handlers): generated, interprets a scripted fault plan']

TEST_HEADS = ('t', 'b', 'a', 'f', 'c', 'ft', 'y', 'fs', 'fe')
HOOKS = ['session_start', 'after_session_start', 'tests_loaded', 'test_start', 'test_end', 'before_test_cleanups', 'test_success',
         'test_error', 'test_failure', 'test_skip', 'session_end', 'before_session_cleanup', 'test_avoided', 'after_session_end',
         'before_session_start', 'session_interrupt', 'test_interrupt', 'result_summary']


class PropA(Prop):
    real, stub = REAL_A, STUB_A
    profile = {}
    oracles = ()
    quick = (6000, 40)
    thorough = (400000, 800)

    def gen(self, rng, index):
        p = self.profile(rng) if callable(self.profile) else self.profile
        scn = gen_a.gen_suite(rng, p)
        gen_a.gen_ops(rng, scn, p)
        return scn

    def shrink(self, scn):
        return gen_a.shrink(scn)

    def execute(self, scn, chooser, root):
        return worlda.execute(scn, chooser, root)

    def judge(self, out):
        h = oracles_a.Hist(out)
        v = []
        for o in self.oracles:
            v.extend(o(h))
        return v

    def run(self, scn, chooser, root):
        out = self.execute(scn, chooser, root)
        sim = out.sim
        violations = self.judge(out)
        if out.outcome in ('deadlock', 'steps'):
            violations.append({'cls': 'no-progress', 'msg': 'the run cannot end: ' + out.outcome})
        hist = sim.history
        return {'violations': violations, 'digest': digest((hist, out.dump, out.exit_code)),
                'history_tail': [repr(x)[:300] for x in hist[-300:]],
                'stats': {'faults': dict(sim.fault_counts), 'probes': dict(sim.probes), 'simtime': sim.now - core.EPOCH,
                          'steps': sim.steps, 'sched': sim.sched_hash, 'hist': len(hist),
                          'nontrivial': self.nontrivial(out)}}

    def nontrivial(self, out):
        return bool(out.sim.fault_counts)

    def warmup(self, scratch):
        """one run in a throw-away child is not enough (it warms nothing): run the import-heavy paths here, then drop state"""


class S11(PropA):
    id = 'S11'
    rule = ('a run counts when at least two cleanups were registered and at least one fault (exception, failure, skip) fired; distinct = '
            'distinct digest of the complete event history and final results')
    profile = dict(cleanups=(2, 9), faults=(0, 4), hooks=HOOKS, p_success=0.1, sysexits=0,
                   nofault=('h:error_added', 'h:before_session_start', 'h:session_start', 'h:after_session_start', 'h:tests_loaded'))
    oracles = (oracles_a.oracle_s11,)

    def nontrivial(self, out):
        return bool(out.sim.fault_counts) and sum(1 for e in out.sim.history if e[0] == 'reg') >= 2


class S12(PropA):
    id = 'S12'
    profile = dict(cleanups=(2, 7), faults=(0, 2), interrupts=(0, 2), hooks=HOOKS, p_critical=0.5, p_success=0.25, max_hooks=4)
    oracles = (oracles_a.oracle_s12,)
    rule = 'a run counts when an interruption fired or a success-only cleanup was registered, with at least two cleanups registered'

    def nontrivial(self, out):
        return sum(1 for e in out.sim.history if e[0] == 'reg') >= 2 and any(
            (e[0] == 'fault' and e[4] == 'interrupt') or (e[0] == 'reg' and e[3] == 'success') for e in out.sim.history)


class S15(PropA):
    id = 'S15'
    profile = dict(cleanups=(0, 3), faults=(0, 4), interrupts=(0, 1), hooks=HOOKS, max_hooks=4, p_skipped=0.15, p_req=0.1)
    oracles = (oracles_a.oracle_s15,)
    rule = 'a run counts when at least one fault or interruption fired'


class S16(PropA):
    id = 'S16'
    profile = dict(cleanups=(0, 5), fixtures=(1, 3), faults=(1, 6), interrupts=(0, 1), fxops=(0, 3), hooks=HOOKS, max_hooks=3, errs=gen_a.ERR + ['NoRepr'],
                   fault_kinds=['raise'] * 6 + ['skip'] * 2 + ['add'] * 3 + ['handled', 'nested_handled', 'swallowed', 'caught', 'reraise'])
    oracles = (oracles_a.oracle_s16,)
    rule = 'a run counts when at least one fault fired'


def op_add_skip(rng, o):
    return o.new(prefix='d', op='add', what='skip')


def op_add_error(rng, o):
    return o.new(prefix='d', op='add', what='error')


class S17(PropA):
    id = 'S17'
    profile = dict(extra=(0, 2), extra_heads=('h',), extra_ops=(op_add_skip, op_add_skip, op_add_error), cleanups=(0, 3), faults=(0, 2), interrupts=(0, 1), hooks=HOOKS + ['app_quit'], max_hooks=3, sysexits=(0, 1), hook_skips=1)
    oracles = (oracles_a.oracle_s17,)
    rule = 'a run counts when at least one fault, interruption or exit request fired'


class S18(PropA):
    id = 'S18'
    profile = dict(cleanups=(0, 3), faults=(0, 3), interrupts=(0, 1), hooks=HOOKS, max_hooks=2, p_stop=0.4, p_skipped=0.12, p_req=0.08,
                   p_param=0.3, p_repeat=0.1, fault_kinds=['raise'] * 6 + ['skip'] * 2 + ['add'] * 2 + ['handled', 'caught', 'fatal', 'fatal'])
    oracles = (oracles_a.oracle_s18,)
    rule = 'a run counts when at least one fault or interruption fired'


class S13(PropA):
    id = 'S13'
    profile = dict(fixtures=(1, 4), tests=(2, 5), cleanups=(0, 2), fxops=(0, 4), faults=(0, 4), interrupts=(0, 0), hooks=('test_start', 'before_test_cleanups'),
                   max_hooks=1, p_usefx=0.9, p_fxparam=0.4, p_dep=0.7, p_autouse=0.15, p_alias=0.1, p_tparam=0.05, p_stop=0.05,
                   fault_heads=('t', 'b', 'a', 'f', 'ft', 'y', 'c', 'f', 'ft', 'y', 'fs', 'fe', 'h'))
    oracles = (oracles_a.oracle_s13,)
    rule = 'a run counts when at least two fixture set-ups took place and a fault fired or a fixture was set up more than once'

    def nontrivial(self, out):
        names = [e[1] for e in out.sim.history if e[0] == 'fxbegin']
        return len(names) >= 2 and (bool(out.sim.fault_counts) or len(set(names)) < len(names))


class S14(S13):
    id = 'S14'
    profile = dict(S13.profile, p_bases=0.6)
    oracles = (oracles_a.oracle_s14,)


PROPS = {c.id: c for c in (S11, S12, S13, S14, S15, S16, S17, S18)}
