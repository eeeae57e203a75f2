#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property on /repo's current working tree:
  1. Verus: the functions the property depends on are extracted from /repo, spliced with their contracts
     (verus/*.rs) and every obligation is discharged.                          [proved, all inputs]
  2. Kani: loop-free or fully unwound contracts over full domains, on the compiled code. [proved, full domain]
  3. Executable contracts on the compiled code, bounded: stand-in for what 1 and 2 do not reach, and
     search for an input when an obligation of 1 fails.                        [bounded]

exit 0: held on everything explored; exit 1: VIOLATION line; exit 2: nothing could be decided.
"""
import os, sys, json, time, subprocess, threading, re, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vxrun
from plan import PLAN

VERIF = vxrun.VERIF
REPO = '/repo'
BUILD = os.path.join(VERIF, 'build')
SHIMS = ('prelude', 'util', 'bincode', 'arrayvec', 'encoding_rs', 'werr')   # assumed contracts and types only: nothing to discharge

def env():
    e = dict(os.environ)
    e['CARGO_NET_OFFLINE'] = 'true'
    e.pop('RUSTFLAGS', None)
    return e

def sh(cmd, timeout, cwd=None, extra=None):
    e = env(); e.update(extra or {})
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, errors='replace', timeout=timeout, cwd=cwd, env=e, start_new_session=True)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        return 124, str(x.stdout or ''), 'timeout'

def build_harness(plan):
    """-> dict(bin, cli, error)"""
    crate = plan.get('harness', 'harness')
    tgt = os.path.join(BUILD, 'target-' + crate)
    out = {}
    def b1():
        rc, o, e = sh(['cargo', 'build', '--offline', '--locked'], 800, os.path.join(VERIF, crate), {'CARGO_TARGET_DIR': tgt})
        if rc: out['error'] = e[-4000:]
        else: out['bin'] = os.path.join(tgt, 'debug', crate)
    def b2():
        rc, o, e = sh(['cargo', 'build', '--offline', '--locked', '-p', 'xdvdfs-cli', '--target-dir', os.path.join(BUILD, 'target-cli')], 800, REPO)
        if rc: out['cli_error'] = e[-4000:]
        else: out['cli'] = os.path.join(BUILD, 'target-cli', 'debug', 'xdvdfs')
    ts = [threading.Thread(target=b1)]
    if plan.get('cli'): ts.append(threading.Thread(target=b2))
    for t in ts: t.start()
    for t in ts: t.join()
    return out

def run_harness(prop, hb, tier, seed, secs, name):
    out = os.path.join(BUILD, f'{prop}-{name}.json')
    if os.path.exists(out): os.unlink(out)
    cmd = [hb['bin'], prop, '--tier', tier, '--seed', str(seed), '--out', out, '--secs', str(secs), '--scratch', f'/tmp/xdvdfs-check-{os.getpid()}-{name}']
    if hb.get('cli'): cmd += ['--cli', hb['cli']]
    rc, o, e = sh(cmd, secs + 200)
    shutil.rmtree(f'/tmp/xdvdfs-check-{os.getpid()}-{name}', ignore_errors=True)
    try: d = json.load(open(out))
    except (OSError, ValueError): return dict(error=f'exit {rc}: {(e or o)[-2000:]}', rc=rc, cmd=cmd)
    d['rc'] = rc; d['cmd'] = cmd
    return d

def run_kani(names, tier):
    """-> list of dict(harness, status, checks, detail, time)"""
    crate = os.path.join(VERIF, 'kani')
    res = []
    for n in names:
        t0 = time.time()
        rc, o, e = sh(['cargo', 'kani', '--harness', n, '--target-dir', os.path.join(BUILD, 'target-kani')], 600, crate)
        txt = o + e
        m = re.search(r'\*\* (\d+) of (\d+) failed', txt)
        m2 = re.search(r'VERIFICATION:- (\w+)', txt)
        st = {'SUCCESSFUL': 'proved', 'FAILED': 'failed'}.get(m2.group(1) if m2 else '', 'undecided')
        fails = re.findall(r'Check \d+: (\S+)\n\s+- Status: FAILURE\n\s+- Description: "([^"]*)"\n(?:\s+- Location: (.*)\n)?', txt)
        if st == 'failed' and all('unwind' in f[1] for f in fails): st = 'undecided'
        if st == 'failed' and any('not currently supported' in f[1] or 'unsupported' in f[0] for f in fails): st = 'undecided'
        res.append(dict(harness=n, status=st, checks=int(m.group(2)) if m else 0, failed=fails[:6], seconds=round(time.time() - t0, 1), tail=txt[-3000:] if st != 'proved' else ''))
    return res

def finding_key(f):
    m = re.match(r'finding ([\w-]+): ', f['message'])
    return m.group(1) if m else None

def known_findings(prop):
    out = {}
    for l in open(os.path.join(VERIF, 'known-findings.txt')):
        m = re.match(r'known: property=(\w+) key=([\w-]+) (.*)', l)
        if m and m.group(1) == prop: out[m.group(2)] = m.group(2) + ': ' + m.group(3)
    return out

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    plan = PLAN[prop]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    evdir = os.path.join(VERIF, 'evidence'); os.makedirs(evdir, exist_ok=True)
    for f in os.listdir(evdir):
        if f.startswith(f'replay-{prop}-') or f == f'{prop}.json': os.unlink(os.path.join(evdir, f))
    R = {}
    def t_verus():
        t = time.time()
        if plan.get('units'):
            R['verus'] = vxrun.run_units(REPO, [u for u in vxrun.closure(plan['units']) if u not in SHIMS], os.path.join(BUILD, 'vx-' + prop), rlimit=plan.get('rlimit', 60))
            R['verus_wall'] = time.time() - t
    def t_harness():
        R['hb'] = hb = build_harness(plan)
        if hb.get('bin'):
            R['harness'] = run_harness(prop, hb, tier, seed, plan.get('secs', 150) if tier == 'quick' else 1500, 'main')
    def t_kani():
        if plan.get('kani'):
            R['kani'] = run_kani(plan['kani'] + (plan.get('kani_thorough', []) if tier == 'thorough' else []), tier)
    ts = [threading.Thread(target=f) for f in (t_verus, t_harness, t_kani)]
    for t in ts: t.start()
    for t in ts: t.join()
    violations = []   # (replay path, suffix)
    notes = []
    def replay(text):
        p = os.path.join(evdir, f'replay-{prop}-{len(violations)}.txt')
        open(p, 'w').write(text); return p
    hb, h = R['hb'], R.get('harness') or {}
    known = known_findings(prop)
    def split_known(h):
        kn = [f for f in h.get('failures', []) if finding_key(f) in known]
        if h.get('failures'): h['failures'] = [f for f in h['failures'] if finding_key(f) not in known]
        return kn
    for f in split_known(h): print(f'KNOWN-FINDING: property={prop} {known[finding_key(f)]}')
    for k in ('error', 'cli_error'):
        if hb.get(k): notes.append(f'{k}: the executable contracts could not be built: ' + hb[k][-600:])
    if h.get('error'): notes.append('executable contracts did not run: ' + h['error'])
    def harness_violation(h):
        fs = h.get('failures', [])
        txt = f'property {prop}: executable contract fails on the real code\n'
        for f in fs:
            txt += f'\nsuite {f["suite"]} case {f["case"]} (seed {h["seed"]}, tier {tier})\n{f["message"]}\nreplay: {" ".join(h["cmd"])} --replay {f["suite"]}:{f["case"]}\n'
        violations.append((replay(txt), ''))
    if h.get('failures'): harness_violation(h)
    for k in R.get('kani', []):
        if k['status'] == 'failed':
            violations.append((replay(f'property {prop}: Kani harness {k["harness"]} (verif/kani) fails\n' + '\n'.join(map(str, k['failed'])) + '\n\n' + k['tail']), '' if k['failed'] else ' no-failing-input-found'))
        elif k['status'] != 'proved': notes.append(f'kani {k["harness"]}: undecided: {k["tail"][-500:]}')
    # Verus
    vs = R.get('verus') or []; vfail = []; rl = []; seen = set(); hardfail = []
    for v in vs:
        u = v['unit']; vf = []
        for d in v.get('errs') or []:
            f = vxrun.locate(v, d)
            name = f['key'] if f else 'specification text of unit ' + u
            if 'Resource limit' in d['message'] or 'rlimit' in d['message']: rl.append((name, d))
            else: vf.append((name, d, f is None))
        if v['status'] in ('unusable', 'timeout', 'crash'):
            notes.append(f'verus: unit {u}: {v["status"]}: ' + str(v.get('where') or v.get('error') or '')[:600]); vf = []
        for x in v['asm']['lost']:
            if x['key'] in seen: continue
            seen.add(x['key']); notes.append(f'verus: {x["key"]}: not proved on this tree ({x["why"]})')
        for w, x in v['asm']['errors']:
            if (w, x) in seen: continue
            seen.add((w, x)); notes.append(f'verus: {w}: {x}')
        # a failing lemma while code it is stated over was lost is not held against the code
        broken = v['asm']['lost'] or v['asm']['errors']
        if v['status'] == 'failed': hardfail += [(n, d) for n, d, spec in vf if not (spec and broken)]
        vfail += [(n, d) for n, d, _ in vf]
    for n, d in rl: notes.append(f'verus: resource limit in {n}: undecided')
    if vs:
        if hardfail:
            txt = f'property {prop}: proof obligations that fail on /repo\'s current source\n'
            for n, d in hardfail:
                txt += f'\nobligation: {d["message"]} in {n}\n{d.get("rendered", "")}\n'
            # look for an input that shows it
            found = bool(violations)
            if not found and hb.get('bin'):
                for k, (s, tr) in enumerate([(seed + 1000, tier), (seed + 2000, 'thorough')]):
                    left = 780 - (time.time() - t0) if tier == 'quick' else 900
                    if left < 40: break
                    h2 = run_harness(prop, hb, tr, s, int(min(left - 20, 240)), f'search{k}')
                    split_known(h2)
                    if h2.get('failures'):
                        harness_violation(h2); found = True
                        open(violations[-1][0], 'a').write('\n' + txt); break
            if found:
                with open(violations[0][0], 'a') as f: f.write('\n' + txt)
            else:
                violations.append((replay(txt), ' no-failing-input-found'))
    # evidence
    cov = {}
    assumptions = list(plan.get('assumptions', []))
    if vs:
        failed_names = {n for n, _ in vfail + rl}
        fns = {}
        for v in vs:
            for f in v['asm']['fns']:
                if not f.get('external') and f['unit'] == v['unit'] and v['status'] in ('ok', 'failed') and f['key'] not in failed_names: fns[f['key']] = f
        text = '\n'.join('\n'.join(v['asm']['lines']) for v in vs)
        done = sum((v.get('vr') or {}).get('verified', 0) for v in vs)
        lost = {x['key']: x for v in vs for x in v['asm']['lost']}
        cov.update(obligations=done + sum((v.get('vr') or {}).get('errors', 0) for v in vs), discharged=done,
                   checker_cmd=' ; '.join(' '.join(v['cmd']) for v in vs if v.get('cmd')),
                   backend='Verus (Z3)', solver_ms=sum(f['time-micros'] for v in vs for f in v['functions']) // 1000, verus_wall_s=round(R.get('verus_wall', 0), 1),
                   units=[dict(unit=v['unit'], status=v['status'], discharged=(v.get('vr') or {}).get('verified', 0), wall_s=round(v['wall'], 1)) for v in vs],
                   functions_under_contract=[dict(fn=f['key'], line=f['lines'], sha=f['sha'], substitutions=f['subs'], dropped=sorted(set(f['dropped']))) for f in fns.values()],
                   functions_lost=list(lost.values()),
                   assumed_in_text=dict(assume=len(re.findall(r'\bassume\s*\(', text)), admit=len(re.findall(r'\badmit\s*\(', text))))
        cov['trusted_base'] = ['Verus 0.2026.09.13, its vstd and Z3', 'tools/vx.py extraction (async/.await and maybe_async removed, logging and output macros dropped, attributes/derives dropped, visibility widened, panics and assert! turned into obligations)'] + \
            sorted({'assumed contract: ' + re.sub(r'\s+', ' ', m)[:140] for m in re.findall(r'assume_specification\s*(.*?)(?:ensures|requires|;)', text, re.S)}) + \
            sorted({'assumed (external_body): ' + m for m in re.findall(r'#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:\n\s*)?(?:pub )?((?:proof |broadcast |exec )*(?:fn|struct) \w+)', text)})
    if R.get('kani') is not None:
        cov['kani'] = [dict(harness=k['harness'], status=k['status'], checks=k['checks'], seconds=k['seconds']) for k in R['kani']]
        cov['obligations'] = cov.get('obligations', 0) + sum(k['checks'] for k in R['kani'])
        cov['discharged'] = cov.get('discharged', 0) + sum(k['checks'] for k in R['kani'] if k['status'] == 'proved')
        cov.setdefault('checker_cmd', 'cargo kani'); cov.setdefault('trusted_base', [])
        cov['trusted_base'] = cov['trusted_base'] + ['Kani 0.68 / CBMC']
    if h and not h.get('error'):
        cov.update(evaluations=h['evaluations'], distinct_nontrivial=h['distinct_nontrivial'],
                   rule='bounded executable contracts on the compiled code: case number and seed determine a generated tree/image/name list/rule list/fault point; non-trivial when the case exercises the property (non-empty tree, existing target, injected fault reached ...)',
                   samples=h.get('samples') or [dict(suite=s['name'], case=0, seed=h['seed']) for s in h['suites']], bounded_suites=h['suites'], bounded_cmd=' '.join(h['cmd']))
    proved_all = bool(vs) and all(v['status'] == 'ok' and not v['asm']['lost'] and not v['asm']['errors'] for v in vs) and all(k['status'] == 'proved' for k in R.get('kani', []))
    level = plan['level']
    if level == 'proof' and not proved_all and not violations:
        level = 'exploration'   # this run: the bounded stand-in decided
    cov['proved_part'] = plan.get('proved', ''); cov['bounded_part'] = plan.get('bounded', '')
    if notes: cov['notes'] = [n[:800] for n in notes]
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions, wall_s=round(time.time() - t0, 1), violations=len(violations))
    json.dump(ev, open(os.path.join(evdir, prop + '.json'), 'w'), indent=1)
    for n in notes: print('note:', n[:400])
    if vs: print(f'verus: {", ".join(v["unit"] + " " + v["status"] for v in vs)}: {sum((v.get("vr") or {}).get("verified", 0) for v in vs)} obligations discharged, {R.get("verus_wall", 0):.1f}s')
    if h: print(f'executable contracts: {h.get("evaluations")} cases, {len(h.get("failures", []))} failing')
    for k in R.get('kani', []): print(f'kani {k["harness"]}: {k["status"]} ({k["checks"]} checks, {k["seconds"]} s)')
    for p, s in violations[:1]:
        print(f'VIOLATION property={prop} replay={p}{s}')
    if violations: return 1
    decided = proved_all or (h and not h.get('error') and h.get('evaluations'))
    print('held' if decided else 'undecided', f'{time.time() - t0:.1f}s')
    return 0 if decided else 2

if __name__ == '__main__':
    sys.exit(main())
