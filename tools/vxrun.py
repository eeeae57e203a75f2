#!/usr/bin/env python3
"""Assembles a Verus crate from templates and /repo's current source, runs Verus on it and classifies the result."""
import os, re, sys, json, subprocess, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vx

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TPL = os.path.join(VERIF, 'verus')

HEAD = '''#![feature(allocator_api, const_destruct)]
#![allow(unused, dead_code, non_snake_case)]
#![verifier::allow(undeclared_external_trait)]
extern crate alloc;
use vstd::prelude::*;
'''

def deps(u):
    for l in open(os.path.join(TPL, u + '.rs')):
        m = re.match(r'\s*//@deps\s+(.*)$', l)
        if m: return m.group(1).split()
    return []

def closure(units):
    out = []
    def go(u):
        if u in out: return
        for d in deps(u): go(d)
        out.append(u)
    go('prelude')
    for u in units: go(u)
    return out

def assemble(repo, units, path, force=()):
    lines = HEAD.split('\n')
    fns = []; lost = []; errors = []; mods = {}; items = []
    for u in closure(units):
        g = vx.generate(repo, os.path.join(TPL, u + '.rs'), None, dict(force))
        lines.append(f'pub mod {u} {{'); lines.append('use vstd::prelude::*;' + ('' if u == 'prelude' else ' use crate::prelude::*;'))
        lines.append('verus!{')
        off = len(lines)
        a = off + 1
        lines += g['text']
        mods[u] = (a, len(lines))
        lines.append('} }')
        for f in g['fns']:
            f['gen'] = (f['gen'][0] + off, f['gen'][1] + off); f['unit'] = u; fns.append(f)
        for x in g['lost']: x['unit'] = u; lost.append(x)
        for x in g['errors']: errors.append((u, x))
        items += g['items']
    lines.append('fn main() {}')
    open(path, 'w').write('\n'.join(lines))
    return dict(fns=fns, lost=lost, errors=errors, mods=mods, items=items, lines=lines)

PROOF_MSGS = ('postcondition not satisfied', 'precondition not satisfied', 'possible arithmetic underflow/overflow',
              'assertion failed', 'invariant not satisfied', 'possible division by zero', 'decreases not satisfied',
              'possible bit shift', 'requires not satisfied', 'cannot show', 'loop invariant', 'recommendation not met',
              'unreachable', 'could not prove', 'loop ensures', 'type invariant', 'index out of bounds', 'constructed value may fail')

def run(repo, units, verify, workdir, rlimit=60, timeout=600, threads=6, seed=None, force=()):
    """verify: modules whose obligations are discharged. Returns a result dict."""
    os.makedirs(workdir, exist_ok=True)
    path = os.path.join(workdir, 'vx.rs')
    force = dict(force)
    t0 = time.time()
    for attempt in range(12):
        a = assemble(repo, units, path, force)
        cmd = ['verus', path, '--crate-name', 'vx', '--error-format=json', '--output-json', '--time-expanded', '--multiple-errors', '4', '--rlimit', str(rlimit), '--num-threads', str(threads), '--no-report-long-running']
        for m in verify: cmd += ['--verify-module', m]
        if seed is not None: cmd += ['--smt-option', f'smt.random_seed={seed}', '--smt-option', f'sat.random_seed={seed}']
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=workdir)
        except subprocess.TimeoutExpired:
            return dict(status='timeout', asm=a, cmd=cmd, failures=[], functions=[], wall=time.time() - t0, force=force)
        diags = []
        for l in p.stderr.split('\n'):
            if l.startswith('{'):
                try: diags.append(json.loads(l))
                except ValueError: pass
        errs = [d for d in diags if d.get('level') == 'error' and d.get('spans')]
        try: out = json.loads(p.stdout[p.stdout.index('{'):])
        except ValueError: out = {}
        vr = out.get('verification-results', {})
        fb = []
        for m in (out.get('times-ms') or {}).get('smt', {}).get('smt-run-module-times', []):
            fb += m.get('function-breakdown', [])
        proof = [d for d in errs if any(k in d['message'] for k in PROOF_MSGS) or 'Resource limit' in d['message']]
        hard = [d for d in errs if d not in proof]
        if 'verified' in vr and not vr.get('encountered-vir-error') and not hard:
            return dict(status='ok' if vr.get('errors') == 0 and not vr.get('encountered-error') and p.returncode == 0 else 'failed', asm=a, cmd=cmd, errs=proof, functions=fb, vr=vr,
                        wall=time.time() - t0, stderr=p.stderr, force=force)
        # compile or unsupported-feature errors: give up on the functions they are in, keep their contracts
        new = {}
        where = []
        for d in hard or [x for x in diags if x.get('level') == 'error']:
            for s in d.get('spans', []):
                if not s['file_name'].endswith('vx.rs'): continue
                for f in a['fns']:
                    if f['gen'][0] <= s['line_start'] <= f['gen'][1] and not f.get('external') and f['key'] not in force:
                        new[f['key']] = d['message'][:300]
                where.append((s['line_start'], d['message'][:200]))
        if not new:
            return dict(status='unusable', asm=a, cmd=cmd, errs=errs, functions=fb, wall=time.time() - t0, where=where, stderr=p.stderr, force=force)
        force.update(new)
    return dict(status='unusable', asm=a, cmd=cmd, errs=[], functions=[], wall=time.time() - t0, force=force, stderr='')

def locate(r, d):
    """function (extracted or template text) a diagnostic belongs to"""
    a = r['asm']
    spans = sorted(d['spans'], key=lambda s: not s['is_primary'])
    # an error inside a function body: prefer a span inside an extracted function
    best = None
    for s in d['spans']:
        if not s['file_name'].endswith('vx.rs'): continue
        for f in a['fns']:
            if f['gen'][0] <= s['line_start'] <= f['gen'][1]:
                lab = s.get('label') or ''
                # the failing call site / exit is where the fault is; the label 'failed precondition' is the callee
                score = 2 if ('failed precondition' not in lab and 'failed this postcondition' not in lab) else 1
                if best is None or score > best[0]: best = (score, f)
    if best: return best[1]
    return None

def failing(r):
    return {f['function'] for f in r['functions'] if not f.get('success', True)}

def fn_name(r, d):
    """name of the function of the assembled text a diagnostic belongs to"""
    f = locate(r, d)
    n = f['gen'][0] if f else None
    if n is None:
        ls = [s['line_start'] for s in d['spans'] if s['file_name'].endswith('vx.rs') and s.get('label') != 'failed precondition'] or [s['line_start'] for s in d['spans'] if s['file_name'].endswith('vx.rs')]
        n = max(ls) if ls else 0
    for i in range(min(n + (8 if f else 0), len(r['asm']['lines'])) - 1, -1, -1):
        m = re.search(r'\bfn (\w+)', r['asm']['lines'][i])
        if m: return m.group(1)
    return ''

def run_retry(repo, u, workdir, rlimit, timeout):
    """An obligation counts as failed only if no solver seed proves it: a proof found with any seed is a proof."""
    r = run(repo, [u], [u], workdir, rlimit=rlimit, timeout=timeout, threads=3)
    if r['status'] != 'failed': return r
    bad = failing(r); retries = []
    if not bad: return r
    for seed in (11, 42):
        r2 = run(repo, [u], [u], workdir + '-r', rlimit=rlimit, timeout=timeout, threads=3, seed=seed, force=r['force'])
        if r2['status'] not in ('ok', 'failed'): continue
        retries.append(seed)
        proved = bad - failing(r2)
        bad -= proved
        if proved:
            names = {b.split('::')[-1] for b in bad}
            r['errs'] = [d for d in r['errs'] if fn_name(r, d) in names]
        if not bad:
            r['status'] = 'ok'; r['errs'] = []; break
    r['retried_seeds'] = retries
    r['vr'] = dict(r['vr'], errors=len(bad), verified=r['vr']['verified'] + r['vr']['errors'] - len(bad))
    return r

def run_units(repo, units, workdir, rlimit=60, timeout=600):
    """Every unit in a crate of its own with the units it depends on (whose contracts are used, not re-verified)."""
    from concurrent.futures import ThreadPoolExecutor
    def one(u):
        try: r = run_retry(repo, u, os.path.join(workdir, u), rlimit, timeout)
        except Exception as x:
            r = dict(status='crash', error=repr(x), errs=[], functions=[], force={}, asm=dict(fns=[], lost=[], errors=[(u, repr(x))], items=[], lines=[]), wall=0, cmd=[])
        r['unit'] = u
        return r
    with ThreadPoolExecutor(4) as ex: return list(ex.map(one, units))

if __name__ == '__main__':
    units = sys.argv[1].split(',')
    verify = sys.argv[2].split(',') if len(sys.argv) > 2 else units
    repo = os.environ.get('VX_REPO', '/repo')
    r = run(repo, units, verify, os.environ.get('VX_WORK', '/tmp/vxw'))
    for x in r['asm']['lost']: print('LOST', x)
    for x in r['asm']['errors']: print('ERROR', x)
    for k, v in r['force'].items(): print('FORCED', k, v)
    print(r['status'], r.get('vr'), '%.1fs' % r['wall'])
    for d in r.get('errs') or []: print(d.get('rendered') or d)
    if r['status'] == 'unusable': print(r.get('where')); print(r['stderr'][:6000] if not r.get('errs') else '')
    slow = sorted(r['functions'], key=lambda f: -f['time-micros'])[:5]
    print([(f['function'], f['time-micros'] // 1000) for f in slow])
