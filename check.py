#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property of /verif/properties.jsonl on /repo's current source:
  1. vx extracts the functions the property depends on from /repo/src and puts the contracts on them,
  2. Verus discharges every obligation (Kani those about floating point leaves and bit layouts),
  3. the same obligations with `assert(false)` at every entry must all fail (vacuity),
  4. a failed obligation is followed by a search for a failing input on the real code,
  5. what could not be brought before the verifier in this source tree is covered by that search alone
     (bounded, reported as such and never as proved).
"""
import concurrent.futures as cf, fcntl, json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import inner as inner_layout, kanilay
from config import CHECKS
REPO = '/repo'
VX = os.path.join(HERE, 'tools/vx/target/debug/vx')
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')

def sh(cmd, timeout=None, cwd=HERE, env=ENV, **kw):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, errors='replace', **kw)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        d = lambda x: x.decode(errors='replace') if isinstance(x, bytes) else (x or '')
        return 124, d(e.stdout), d(e.stderr)

def build_vx():
    rc, o, e = sh(['cargo', 'build', '--offline', '-q'], cwd=os.path.join(HERE, 'tools/vx'), timeout=600)
    if not os.path.exists(VX):
        sys.exit('cannot build vx: ' + e[-2000:])

CARRIED = {}    # function -> the locals its loops change, as the contracts know them
for _l in open(os.path.join(HERE, 'contracts/carried.txt')):
    CARRIED.setdefault(_l.rsplit(' ', 1)[0], set()).add(_l.rsplit(' ', 1)[1].strip())

class Verifier:
    """extract + verify, giving up on single functions when the front end rejects them"""
    def __init__(self, prop, specs, work):
        self.prop, self.work = prop, work
        self.specs = [os.path.join(HERE, 'contracts', s + '.vspec') for s in specs]
        self.given_up = {}      # function -> reason: anchor lost, construct not supported, rlimit
        self.opened = []        # functions whose loops are verified with what is known before them
        self.dropped = {}       # helper without a contract whose signature is not accepted either -> reason; its callers are given up with it
        self.smt_ms = 0
        self.unreachable = None # reason when nothing could be verified at all
    def extract(self, name, extra=()):
        rs, mp = os.path.join(self.work, name + '.rs'), os.path.join(self.work, name + '.json')
        cmd = [VX, '--repo', REPO, '--out', rs, '--map', mp, '--known', os.path.join(HERE, 'contracts/known_fns.txt')]
        for f in self.given_up: cmd += ['--assume', f]
        for f in self.opened: cmd += ['--open-loops', f]
        for f in self.dropped: cmd += ['--drop', f]
        rc, o, e = sh(cmd + list(extra) + self.specs, timeout=120)
        if rc != 0:
            raise RuntimeError('extraction failed: ' + (e or o)[-800:])
        return rs, [r for r in json.load(open(mp))]
    def verus(self, rs, timeout):
        rc, o, e = sh(['verus', os.path.basename(rs), '--crate-type', 'lib', '--output-json', '--time', '--error-format=json', '--rlimit', '60', '--multiple-errors', '4'],
                      cwd=self.work, timeout=timeout, env=dict(ENV, RUST_MIN_STACK='67108864'))
        diags = []
        for l in e.splitlines():
            try: d = json.loads(l)
            except ValueError: continue
            if d.get('level') == 'error': diags.append(d)
        try: res = json.loads(o[o.index('{'):])
        except ValueError: res = {}
        return rc, res, diags
    def crashing(self, keys, deadline):
        """the functions the front end stops at without saying where: bisected by giving up the first so many"""
        def bad(given):
            if time.time() > deadline: return None
            rs, _ = self.extract('crash', [x for k in given for x in ('--assume', k)])
            rc, o, e = sh(['verus', os.path.basename(rs), '--crate-type', 'lib', '--no-verify'], cwd=self.work, timeout=60, env=dict(ENV, RUST_MIN_STACK='67108864'))
            return rc != 0
        found = []
        while len(found) < 5:
            b = bad(found)
            if b is None: return []
            if not b: return found
            lo, hi = 0, len(keys)          # the first `hi` given up: accepted; the first `lo`: not
            if bad(found + keys) is not False: return []
            while hi - lo > 1:
                m = (lo + hi) // 2
                b = bad(found + keys[:m])
                if b is None: return []
                lo, hi = (m, hi) if b else (lo, m)
            found.append(keys[hi - 1])
        return []
    @staticmethod
    def owners(diag, recs):
        """functions a diagnostic points into"""
        out = []
        for s in sorted(diag.get('spans', []), key=lambda s: not s['is_primary']):
            for r in recs:
                if r['begin'] <= s['line_start'] < r['end'] and r['key'] not in out:
                    out.append(r['key'])
        return out
    @staticmethod
    def failing(errs, recs):
        fns = {r['key'] for r in recs if r['status'] in ('contracted', 'uncontracted')}
        return {next((x for x in own if x in fns), '(global)') for own, d in errs}
    def run(self, deadline):
        first = None                # the result with every loop on its own
        for attempt in range(14):
            try: rs, recs = self.extract('main')
            except RuntimeError as ex:
                self.unreachable = str(ex); return None
            lost_types = [r for r in recs if r['status'] == 'lost' and r['begin'] == 0 and r.get('calls') is None]
            if lost_types:
                self.unreachable = 'type not found: ' + ', '.join(r['key'] for r in lost_types); return None
            rc, res, diags = self.verus(rs, max(30, deadline - time.time()))
            if first is not None:
                errs = [(self.owners(d, recs), d) for d in diags if d.get('spans')]
                bad, vr = self.failing(errs, recs), res.get('verification-results')
                self.smt_ms += res.get('times-ms', {}).get('smt', {}).get('total', 0)
                if rc == 124 or vr is None or vr.get('encountered-vir-error') or not vr.get('verified') or any('rlimit' in d['message'] or 'Resource limit' in d['message'] for d in diags) or not bad < first[4]:
                    self.opened = []
                    self.extract('main')
                    rs, recs, res, errs, bad = first
                self.rs, self.recs, self.res = rs, recs, res
                return errs
            if rc == 124:
                self.unreachable = 'verifier timed out'; return None
            vr = res.get('verification-results')
            if vr is None or vr.get('encountered-vir-error') or (vr.get('verified', 0) == 0 and vr.get('errors', 0) == 0):
                # front end: give up on the functions it points at
                new = []
                fns = {r['key']: r for r in recs if r['status'] in ('contracted', 'uncontracted')}
                for d in diags:
                    hit = [k for k in self.owners(d, recs) if k in fns]
                    if hit and hit[0] not in self.given_up and hit[0] not in new:
                        new.append(hit[0]); self.given_up[hit[0]] = 'not accepted by the front end: ' + d['message'][:200]
                    elif hit and hit[0] not in new and hit[0] not in self.dropped and fns[hit[0]]['status'] == 'uncontracted':
                        new.append(hit[0]); self.dropped[hit[0]] = d['message'][:200]
                        for r in recs:      # nothing else of the same name may stand in for it
                            if r['status'] == 'contracted' and hit[0].split('::')[-1] in r.get('calls', []):
                                self.given_up.setdefault(r['key'], 'calls %s, which the front end does not accept: %s' % (hit[0], d['message'][:150]))
                if not new and not any(d.get('spans') for d in diags):
                    for k in self.crashing([r['key'] for r in recs if r['status'] == 'contracted'], deadline):
                        new.append(k); self.given_up[k] = 'the front end crashes on it'
                if not new:
                    self.unreachable = 'front end: ' + '; '.join(d['message'][:200] for d in diags[:3]); return None
                continue
            # rlimit: give up on the function
            new = []
            for d in diags:
                if 'rlimit' in d['message'] or 'Resource limit' in d['message']:
                    for k in self.owners(d, recs)[:1]:
                        if k not in self.given_up and k != '(global)':
                            new.append(k); self.given_up[k] = 'resource limit'
            if new: continue
            self.smt_ms += res.get('times-ms', {}).get('smt', {}).get('total', 0)
            errs = [(self.owners(d, recs), d) for d in diags if d.get('spans')]
            bad = self.failing(errs, recs)
            if bad and time.time() < deadline - 60:
                # once more, with the facts known before a loop kept inside it (conditions may have been moved out of it)
                first = rs, recs, res, errs, bad
                self.opened = sorted(bad)
                continue
            self.rs, self.recs, self.res = rs, recs, res
            return errs
        if first is not None:
            self.rs, self.recs, self.res = first[:3]
            return first[3]
        self.unreachable = 'too many functions rejected'
        return None
    def vacuity(self, deadline):
        """every contracted function must fail when false is asserted at its entry"""
        rs, recs = self.extract('vacuity', ['--vacuity'])
        clients, lines, cur = {}, open(rs).read().split('\n'), None
        for i, l in enumerate(lines):
            m = re.match(r'(?:pub )?fn (client_\w+)', l)
            if m: cur = m.group(1)
            elif cur and l == '{': lines[i] = '{ assert(false);'; clients[i + 1] = cur; cur = None
        open(rs, 'w').write('\n'.join(lines))
        rc, res, diags = self.verus(rs, max(60, deadline - time.time()))
        hit = set()
        for d in diags:
            for s in d.get('spans', []):
                if any('assert(false)' in t['text'] for t in s.get('text', [])):
                    hit.update([clients[s['line_start']]] if s['line_start'] in clients else self.owners(d, recs)[:1])
        want = {r['key'] for r in recs if r['status'] == 'contracted'} | set(clients.values())
        return want, want - hit

def closure(recs, roots):
    """contracted functions reachable from the roots, matched by name (an over-approximation)"""
    by_last = {}
    for r in recs:
        if 'calls' in r: by_last.setdefault(r['key'].split('::')[-1], []).append(r)
    seen, work = set(), [r for r in recs if r['key'] in roots]
    work += [r for r in recs if r['key'].endswith(('::deref', '::deref_mut'))]
    while work:
        r = work.pop()
        if r['key'] in seen: continue
        seen.add(r['key'])
        for c in r.get('calls', []): work += by_last.get(c, [])
    return seen

class Search:
    """native search for failing inputs on the real code"""
    def __init__(self, prop, work):
        self.prop, self.work, self.note = prop, work, []
        self.ready = {}
    def build(self, program):
        if program in self.ready: return self.ready[program]
        if program == 'api':
            d = os.path.join(HERE, 'native')
            rc, o, e = sh(['cargo', 'build', '--offline', '-q', '--bin', 'api'], cwd=d, timeout=600)
            exe = os.path.join(d, 'target/debug/api')
        elif program == 'cli':
            exe = self.build('api')
            d = os.path.join(HERE, 'native/target/cli')
            rc, o, e = sh(['cargo', 'build', '--offline', '--locked', '-q', '--manifest-path', os.path.join(REPO, 'Cargo.toml'), '--bin', 'adhoc_audio', '--target-dir', d], cwd=HERE, env=dict(ENV, CARGO_PROFILE_DEV_OPT_LEVEL='2'), timeout=600)
            self.tool = os.path.join(d, 'debug/adhoc_audio')
        else:
            d = os.path.join(HERE, 'build/inner')
            os.makedirs(d, exist_ok=True)
            inner_layout.layout(REPO, d)
            rc, o, e = sh(['cargo', 'build', '--offline', '-q', '--target-dir', os.path.join(HERE, 'native/target/inner')], cwd=d, timeout=600)
            exe = os.path.join(HERE, 'native/target/inner/debug/inner')
        if rc != 0:
            errs = [l for l in e.splitlines() if l.startswith('error')][:3]
            self.note.append('%s could not be built on this tree: %s' % (program, '; '.join(errs)))
            exe = None
        self.ready[program] = exe
        return exe
    def run(self, programs, secs, seed, replay):
        """(found, coverage)"""
        cov = []
        for program in programs:
            exe = self.build(program)
            if not exe: continue
            jobs = []
            for k in range(6):
                out = '%s.%s.%d' % (replay, program, k)
                if os.path.exists(out): os.unlink(out)
                jobs.append((out, subprocess.Popen(['env', 'VERIF_SHARE=%d' % (k if secs >= 30 else 9)] + (['VERIF_CLI=' + self.tool, 'VERIF_SCRATCH=' + self.work] if program == 'cli' else []) + [ 'timeout', str(int(secs) + 200), exe, self.prop, '--seed', str(seed * 1000 + k), '--secs', str(secs), '--out', out],
                                                   stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd=self.work)))
            found = None
            for out, p in jobs:
                o, _ = p.communicate()
                try: j = json.loads(o.strip().splitlines()[-1])
                except (ValueError, IndexError): j = {}
                if p.returncode == 3 and os.path.exists(out) and not found:
                    found = (out, j.get('why', ''))
                elif p.returncode not in (0, 3):
                    self.note.append('%s ended with %s' % (program, p.returncode))
                    # an abort or a hang inside the code under test
                    if p.returncode in (124, -6, 134, -11, 139) and not found:
                        with open(out, 'w') as f:
                            f.write('# the search program itself did not survive (%s)\ncase-property=%s\nsearch-seed=%d\n' % (p.returncode, self.prop, seed * 1000 + k))
                        found = (out, 'the code under test aborted or did not return')
                if j.get('evaluations'): cov.append(j)
            if found:
                shutil.copy(found[0], replay)
                with open(replay, 'a') as f: f.write('program=%s\n' % program)
                return found[1] or 'see replay', cov
        return None, cov

def kani(harnesses, work, deadline):
    """[(harness, verdict, checks, seconds, text)]; verdict ok | failed | lost"""
    d = os.path.join(HERE, 'build/kani')
    os.makedirs(d, exist_ok=True)
    skip = []
    lock = open(os.path.join(d, '.lock'), 'w')
    try:
        while True:
            try: fcntl.flock(lock, fcntl.LOCK_EX | fcntl.LOCK_NB); break
            except BlockingIOError:
                if time.time() > deadline - 60: break
                time.sleep(1)
        return kani_locked(d, harnesses, deadline, skip)
    finally: lock.close()

def kani_locked(d, harnesses, deadline, skip):
    for attempt in range(4):
        lost = kanilay.layout(REPO, d, skip)
        mods = {h: m for m, hs in ((m, re.findall(r'(?:fn (\w+)\(\)|\b(leaf_\w+) \d+;)', open(os.path.join(HERE, 'kani', m + '.rs')).read())) for m in kanilay.PLACES if os.path.exists(os.path.join(HERE, 'kani', m + '.rs'))) for h in (a or b for a, b in hs)}
        env = dict(ENV, VERIF_BUILD=d)
        rc, o, e = sh(['cargo', 'kani', '-Z', 'function-contracts', '--only-codegen'], cwd=d, env=env, timeout=600)
        if rc == 0: break
        bad = {m for m in kanilay.PLACES if re.search(r'--> \S*kani/%s\.rs' % m, e + o)} - set(skip)
        if not bad:
            return [(h, 'lost', 0, 0, 'the crate does not build under Kani: ' + '; '.join([l for l in (o + e).splitlines() if l.startswith('error')][:3])) for h in harnesses]
        skip += sorted(bad)
    gone = set(skip) | set(lost)
    def one(h):
        if mods.get(h) in gone or h not in mods: return (h, 'lost', 0, 0, 'harness does not fit this source')
        t = time.time()
        rc, o, e = sh(['cargo', 'kani', '-Z', 'function-contracts', '--harness', h, '--output-format', 'terse'],
                      cwd=d, env=env, timeout=max(60, deadline - time.time()))
        m = re.search(r'\*\* (\d+) of (\d+) failed', o)
        n = int(m.group(2)) if m else 0
        if rc == 124: return (h, 'lost', 0, time.time() - t, 'solver time limit')
        if 'VERIFICATION:- SUCCESSFUL' in o and n > 0: return (h, 'ok', n, time.time() - t, '')
        if 'VERIFICATION:- FAILED' in o:
            if h.startswith('route_'): return (h, 'lost', n, time.time() - t, 'the source no longer has the form this step of the proof relies on')
            if 'unwinding assertion' in o and re.search(r'Failed Checks: unwinding assertion', o) and len(re.findall('Failed Checks:', o)) == 1:
                return (h, 'lost', n, time.time() - t, 'unwinding bound too small for this source')
            if 'not currently supported by Kani' in o and len(re.findall('Failed Checks:', o)) == 1:
                return (h, 'lost', n, time.time() - t, 'construct not supported by Kani')
            rc2, o2, e2 = sh(['cargo', 'kani', '-Z', 'function-contracts', '--harness', h, '--output-format', 'regular', '-Z', 'concrete-playback', '--concrete-playback=print'], cwd=d, env=env, timeout=max(60, deadline - time.time()))
            return (h, 'failed', n, time.time() - t, '\n'.join(l for l in (o + '\n' + o2).splitlines() if 'Failed Checks' in l or 'kani_concrete' in l or re.match(r'\s*(//|vec!)', l))[:3000] or o[-1500:])
        return (h, 'lost', n, time.time() - t, 'no verdict: ' + (o + e)[-300:])
    with cf.ThreadPoolExecutor(4) as ex:
        r = list(ex.map(one, harnesses))
    #a run of the tool that was disturbed is repeated once, alone
    return [one(x[0]) if x[4].startswith('no verdict') and time.time() < deadline - 60 else x for x in r]

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = CHECKS[prop]
    t0 = time.time()
    limit = 820 if tier == 'quick' else 3000
    deadline = t0 + limit - 200
    work = os.path.join(HERE, 'build', prop)
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    replay = os.path.join(HERE, 'evidence', prop + '.replay.txt')
    if os.path.exists(replay): os.unlink(replay)
    build_vx()
    search = Search(prop, work)
    pool = cf.ThreadPoolExecutor(2)
    fut_kani = pool.submit(kani, cfg['kani'], work, deadline) if cfg.get('kani') else None
    v = Verifier(prop, cfg['specs'], work)
    try: errs = v.run(deadline) if cfg['specs'] else []
    except Exception as ex: errs, v.unreachable = None, 'extraction or verification stopped: %r' % ex
    if not cfg['specs']: v.rs, v.recs, v.res = None, [], {'verification-results': dict(verified=0, errors=0)}
    failed, outside, bounded = [], [], []      # obligations; functions the verifier could not decide
    verified = errors = 0
    cone = set()
    vac_total, vac_bad = set(), set()
    if errs is None:
        bounded.append(('(all)', v.unreachable))
    else:
        cone = closure(v.recs, cfg['roots'])
        vr = v.res['verification-results']
        verified, errors = vr['verified'], vr['errors']
        status = {r['key']: r for r in v.recs}
        unc = {r['key'].split('::')[-1] for r in v.recs if r['status'] == 'uncontracted'}
        missing = [r for r in v.recs if r['status'] == 'lost']
        for r in missing:
            if r['key'] in cone or r['key'] in cfg['roots'] or r['begin'] == 0 or r['begin'] == r['end']: bounded.append((r['key'], 'anchor lost: ' + r['reason']))
        for k in cfg['roots']:
            if k not in status: bounded.append((k, 'no contract by this name'))
        for k, why in v.given_up.items():
            if k in cone: bounded.append((k, why))
        und, loops = set(), {}
        for own, d in errs:
            k = own[0] if own else '(global)'
            k = next((x for x in own if x in status and status[x]['status'] in ('contracted', 'uncontracted')), k)
            if k == '(global)' : bounded.append((k, 'lemma: ' + d['message'])); continue
            if k not in cone: outside.append(k); continue
            if status[k]['status'] == 'uncontracted' or (set(status[k].get('calls', [])) & unc):
                und.add(k); continue
            new = set(status[k].get('carried', [])) - CARRIED.get(k, set())
            if new:
                loops[k] = 'a loop of it changes %s, which the contract of the loop says nothing about' % ', '.join(sorted(new)); continue
            failed.append((k, d))
        for r in v.recs:
            if r['key'] in cfg.get('serde', []) and (r['status'] == 'encoding' or r['status'] == 'type' and r['reason'] != 'derived'):
                bounded.append((r['key'], 'how it is stored is not derived: ' + r['reason']))
        bounded += sorted(loops.items())
        for k in sorted(und): bounded.append((k, 'depends on a function that has no contract'))
        if cfg['specs']:
            try:
                vac_total, vac_bad = v.vacuity(deadline)
            except Exception as ex:
                vac_bad = {'client_ (%r)' % ex}
    try: kres = fut_kani.result() if fut_kani else []
    except Exception as ex: kres = [(h, 'lost', 0, 0, repr(ex)) for h in cfg['kani']]
    for h, verdict, n, secs, text in kres:
        if verdict == 'lost': bounded.append(('kani:' + h, text))
        if verdict == 'failed': failed.append(('kani:' + h, {'message': 'harness failed', 'rendered': text}))
    nlem = 0
    for l in cfg.get('coq', []):
        rc, o, e = sh(['coqc', '-o', os.path.join(work, l + '.vo'), os.path.join(HERE, 'lemmas', l + '.v')], timeout=120)
        nlem += 1
        if rc != 0: bounded.append(('lemma ' + l, 'coqc: ' + e[-200:])); nlem -= 1
    vac_bad = {k for k in vac_bad if k in cone or k.startswith('client_')} if cone else vac_bad
    if vac_bad:
        bounded.append(('vacuity', 'contracts of ' + ', '.join(sorted(vac_bad)) + ' exclude every state'))
    # ---- search on the real code
    programs = cfg.get('native', ['api'])
    base = cfg.get('always', 0)
    secs = 0
    if failed: secs = 90 if tier == 'quick' else 400
    elif bounded: secs = 60 if tier == 'quick' else 400
    elif base: secs = base if tier == 'quick' else base * 20
    elif tier != 'quick': secs = 60
    found, cov = (None, [])
    if secs:
        found, cov = search.run(programs, secs, seed, replay)
    # ---- report
    kn = sum(r[2] for r in kres); kok = sum(r[2] for r in kres if r[1] == 'ok')
    contracted = sorted(r['key'] for r in (v.recs if errs is not None else []) if r['status'] == 'contracted' and r['key'] in cone)
    trusted = sorted(r['key'] for r in (v.recs if errs is not None else []) if r['status'] == 'trusted' and r['key'] in cone)
    gen = open(v.rs).read() if errs is not None and v.rs else ''
    scan = {w: len(re.findall(w, gen)) for w in (r'external_body', r'\bassume\(', r'\badmit\(', r'assume_specification', r'uninterp spec')}
    evid = dict(property=prop, tier=tier, seed=seed, level=cfg.get('level', 'proof'), wall_s=round(time.time() - t0, 1), violations=1 if (failed or found) else 0,
        assumptions=cfg.get('assumptions', []) + ['NOT PROVED on this tree, covered by the bounded search only: %s (%s)' % (k, why[:300]) for k, why in bounded],
        coverage=dict(obligations=verified + errors + kn + len(cfg.get('coq', [])), discharged=verified + kok + nlem,
            checker_cmd='; '.join((['verus main.rs --crate-type lib --rlimit 60  (main.rs extracted by vx from /repo/src with %s)' % ', '.join(s + '.vspec' for s in cfg['specs'])] if cfg['specs'] else []) + (['cargo kani --harness ' + ','.join(cfg['kani'])] if cfg.get('kani') else [])),
            trusted_base=cfg.get('trusted', []) + ['trusted function: ' + k for k in trusted],
            verus=dict(items=verified + errors, verified=verified, smt_ms=v.smt_ms),
            kani=[dict(harness=h, verdict=ver, checks=n, seconds=round(s, 1)) for h, ver, n, s, _ in kres],
            functions_under_contract=contracted,
            failed_obligations=[dict(function=k, message=d['message']) for k, d in failed][:20],
            failures_outside_this_property=sorted(set(outside)),
            vacuity=dict(functions_probed=len(vac_total), contradictory=sorted(vac_bad)),
            assumption_scan=scan,
            bounded=dict(functions=[dict(function=k, reason=why[:300]) for k, why in bounded], search_seconds=secs * bool(cov),
                evaluations=sum(j.get('evaluations', 0) for j in cov), distinct_nontrivial=sum(j.get('distinct_nontrivial', 0) for j in cov),
                rule='; '.join(sorted({j['rule'] for j in cov if 'rule' in j})), samples=[s for j in cov for s in j.get('samples', [])][:6], notes=search.note)))
    if cov:
        for k in ('evaluations', 'distinct_nontrivial', 'rule', 'samples'): evid['coverage'][k] = evid['coverage']['bounded'][k]
    if cfg.get('partial'): evid['assumptions'].append('NOT PROVED, covered by the bounded search only: ' + cfg['partial'])
    json.dump(evid, open(os.path.join(HERE, cfg.get('evidence', 'evidence/%s.json' % prop)), 'w'), indent=1)
    for k, why in bounded: print('bounded stand-in for %s: %s' % (k, why[:200]))
    for k, d in failed: print('failed obligation in %s: %s' % (k, d['message']))
    if found:
        with open(replay, 'a') as f:
            for k, d in failed: f.write('\n# failed obligation in %s\n%s\n' % (k, d.get('rendered', d['message'])))
        print(found[:600])
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        sys.exit(1)
    if failed:
        with open(replay, 'w') as f:
            f.write('# property %s: obligations that held on the unchanged source and fail now; no failing input found by the search (%s cases)\n' % (prop, evid['coverage']['bounded']['evaluations']))
            for k, d in failed: f.write('\n# failed obligation in %s\n%s\n' % (k, d.get('rendered', d['message'])))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay))
        sys.exit(1)
    for l in open(os.path.join(HERE, 'KNOWN_FINDINGS.txt')):
        m = re.match(r'known: property=(\S+) (.*)', l)
        if m and m.group(1) == prop: print('KNOWN-FINDING: property=%s %s' % m.groups())
    print('%s holds: %d obligations discharged%s (%.0f s)' % (prop, verified + kok + nlem, ', bounded stand-in for %d functions' % len(bounded) if bounded else '', time.time() - t0))

main()
