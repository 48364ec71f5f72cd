"""Runs the contracts of one property against /repo's current working tree and writes its evidence."""
import json, os, re, resource, shutil, subprocess, sys, threading, time
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path('/repo')
BUILD = VERIF / '.build'
HARNESS = VERIF / 'harness'

sys.path.insert(0, str(VERIF / 'vlib'))


def log(*a):
    print(*a, flush=True)


def env_for(target, flags):
    e = dict(os.environ)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TARGET_DIR'] = str(target)
    e['RUSTFLAGS'] = ' '.join(flags)
    e.pop('CARGO_ENCODED_RUSTFLAGS', None)
    e.pop('CARGO_BUILD_RUSTFLAGS', None)
    return e


def limits(mem_gb):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run(cmd, env=None, cwd=None, timeout=None, mem_gb=0):
    """-> (rc or None on time-out, stdout, stderr)"""
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         errors='replace', preexec_fn=limits(mem_gb) if mem_gb else os.setsid)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, e = p.communicate()
        return None, o, e


class Harness:
    def __init__(self, name, kind, doc):
        self.name, self.kind, self.doc = name, kind, doc


def harnesses_of(pid):
    """The harness declarations of a property's module: kind, name and the doc line before it"""
    src = (HARNESS / 'src' / (pid.lower() + '.rs'))
    if not src.exists():
        return []
    out, doc = [], ''
    for line in src.read_text().splitlines():
        m = re.match(r'\s*///\s?(.*)', line)
        if m:
            doc = (doc + ' ' + m.group(1)).strip()
            continue
        m = re.match(r'\s*(proof|bounded|native|once)\s+(\w+)\s*(\[.*\])?\s*\{', line)
        if m:
            out.append(Harness(m.group(2), m.group(1), doc))
        if line.strip():
            doc = ''
    return out


class Check:
    def __init__(self, pid, cfg, tier, seed):
        self.pid, self.cfg, self.tier, self.seed = pid, cfg, tier, seed
        self.t0 = time.time()
        self.hs = harnesses_of(pid)
        self.flags = [f'--cfg lofty_verif="{a}"' for a in cfg.get('hooks', [])] + [f'--cfg prop="{pid}"', '--cap-lints allow']
        self.replays = VERIF / 'replays' / pid
        self.violations = []      # (what, replay path, has_input)
        self.known_hit = []
        self.notes = []           # undecided parts
        self.native = {}          # harness -> json
        self.kani = {}            # harness -> dict
        self.verus = []           # unit results
        self.native_bin = None

    # ---------------------------------------------------------------- native
    def build_native(self):
        td = BUILD / 'native'
        rc, o, e = run(['cargo', 'build', '--release', '--offline', '--bin', 'native'],
                       env=env_for(td, self.flags), cwd=HARNESS, timeout=600)
        if rc != 0:
            self.notes.append('the harness crate does not build against the current /repo: ' + e[-1500:])
            return False
        self.native_bin = BUILD / ('native-' + self.pid)
        shutil.copy2(td / 'release' / 'native', self.native_bin)
        return True

    def scratch(self):
        d = BUILD / ('tmp-' + self.pid)
        d.mkdir(parents=True, exist_ok=True)
        return d

    def run_native(self, seconds, threads=4, only=None, seed=None):
        if not self.native_bin:
            return
        cmd = [str(self.native_bin), 'run', '--seed', str(self.seed if seed is None else seed), '--seconds', str(seconds),
               '--threads', str(threads)]
        if only:
            cmd += ['--only', ','.join(only)]
        rc, o, e = run(cmd, cwd=self.scratch(), timeout=seconds + 300, mem_gb=12)
        if rc == 0:
            for line in o.splitlines():
                if line.startswith('{'):
                    j = json.loads(line)
                    old = self.native.get(j['harness'])
                    if old and old['fail'] and not j['fail']:
                        continue
                    if old:
                        j['iters'] += old['iters']
                    self.native[j['harness']] = j
            return
        # the process died (abort, stack overflow, memory): find the input
        tr = self.scratch() / 'trace'
        if tr.exists():
            tr.unlink()
        rc, o, e = run(cmd + ['--trace', str(tr), '--threads', '1'], cwd=self.scratch(), timeout=seconds * 4 + 300, mem_gb=12)
        if rc == 0 or rc is None or not tr.exists():
            self.notes.append(f'the native runner ended with {rc} and the input could not be found again')
            return
        last = tr.read_text().split('\n')[-2].split()
        tr.unlink()
        rc2, _, e2 = run([str(self.native_bin), 'replay', last[0], 'seed:' + last[1]], timeout=60, mem_gb=12)
        if rc2 not in (0, 1):
            self.native[last[0]] = dict(harness=last[0], kind='?', iters=1, rejected=0, reached={},
                                        fail=dict(label='aborts: ' + e2.strip()[-300:], hex='', seed=int(last[1])))
        else:
            self.notes.append(f'the native runner ended with {rc}; replaying the last input did not')

    def replay_native(self, h, arg):
        """-> label if the obligation fails on the real code, '' if not"""
        if not self.native_bin:
            return ''
        rc, o, e = run([str(self.native_bin), 'replay', h, arg], cwd=self.scratch(), timeout=30, mem_gb=12)
        if rc == 0:
            return ''
        if rc == 1:
            m = re.search(r'violated: (.*)', o)
            return m.group(1) if m else 'violated'
        if rc is None:
            return 'does not terminate'
        return 'aborts: ' + e.strip()[-200:]

    # ---------------------------------------------------------------- kani
    def kani_cmd(self, extra):
        return ['cargo', 'kani', '--lib', '-Z', 'unstable-options', '-Z', 'stubbing', *extra]

    def run_kani(self):
        want = [h for h in self.hs if h.kind in ('proof', 'bounded')]
        if not want:
            return
        per = self.cfg.get('kani_timeout', {}).get(self.tier, 240 if self.tier == 'quick' else 900)
        total = self.cfg.get('kani_total', {}).get(self.tier, 480 if self.tier == 'quick' else 3000)
        out = self.scratch() / 'kani.json'
        if out.exists():
            out.unlink()
        td = BUILD / 'kani'
        cmd = self.kani_cmd(['-j', str(self.cfg.get('kani_jobs', 6)), '--output-format', 'terse', '--harness-timeout', f'{per}s', '--export-json', str(out)])
        t = time.time()
        rc, o, e = run(cmd, env=env_for(td, self.flags), cwd=HARNESS, timeout=total)
        self.kani_wall = time.time() - t
        (self.scratch() / 'kani.log').write_text(o + e)
        if not out.exists():
            self.notes.append(('Kani ran out of time' if rc is None else f'Kani ended with {rc} and no results') + ': ' + (e + o)[-1200:])
            self.parse_terse(o)
            return
        j = json.load(open(out))
        self.kani_json(j)
        for h in want:
            if h.name not in self.kani:
                self.kani[h.name] = dict(status='UNDECIDED', checks=0, discharged=0, failed=[], why='no result', covers=(0, 0))

    def parse_terse(self, o):
        cur = {}
        for line in o.splitlines():
            m = re.match(r'Thread (\d+): Checking harness (\S+?)\.\.\.', line)
            if m:
                cur[m.group(1)] = m.group(2).split('::')[-1]

    def kani_json(self, j):
        for r in j['verification_results']['results']:
            name = r['harness_id'].split('::')[-1]
            checks = r.get('checks') or []
            failed, undecided, ok, covers = [], [], 0, [0, 0]
            for c in checks:
                st = c['status'].upper()
                d = c.get('description', '')
                cat = (c.get('category') or c.get('property_class') or '').lower()
                if 'cover' in cat or st in ('SATISFIED', 'UNSATISFIABLE', 'COVERED', 'UNCOVERED'):
                    covers[1] += 1
                    covers[0] += st in ('SATISFIED', 'COVERED')
                    continue
                if st in ('SUCCESS', 'UNREACHABLE'):
                    ok += 1
                elif st == 'FAILURE':
                    loc = c.get('location') or {}
                    item = dict(label=d, cat=cat, where=f"{loc.get('file', '')}:{loc.get('line', '')}", fn=c.get('function', ''))
                    if 'unwind' in cat or 'unwinding assertion' in d or 'unsupported' in cat or 'not currently supported' in d or 'unsupported_construct' in str(c.get('id', '')):
                        undecided.append(item)
                    else:
                        failed.append(item)
                else:
                    undecided.append(dict(label=d, cat=cat + ' ' + st, where='', fn=''))
            st = r['status'].upper()
            if failed:
                status = 'FAILED'
            elif undecided or not st.startswith('SUCC') or not checks:
                status = 'UNDECIDED'
            else:
                status = 'PROVED'
            if status == 'PROVED' and covers[0] != covers[1]:
                status = 'UNDECIDED'
                undecided.append(dict(label='a vacuity guard is not reachable', cat='cover', where='', fn=''))
            n = len(checks) - covers[1]
            self.kani[name] = dict(status=status, checks=n, discharged=ok, failed=failed, why='; '.join(u['label'] + ' ' + u['cat'] for u in undecided[:3]) or ('' if status != 'UNDECIDED' else 'no result (time or memory)'), covers=tuple(covers), ms=r.get('duration_ms'))

    def counterexample(self, h):
        """Kani's failing inputs for one harness, as replay vectors"""
        td = BUILD / 'kani'
        cmd = self.kani_cmd(['--exact', '--harness', f'{self.pid.lower()}::{h}', '-Z', 'concrete-playback', '--concrete-playback=print', '--harness-timeout', '300s'])
        rc, o, e = run(cmd, env=env_for(td, self.flags), cwd=HARNESS, timeout=360)
        (self.scratch() / f'{h}.cex.log').write_text(o + e)
        vecs = []
        for block in re.findall(r'fn kani_concrete_playback_\w+\(\) \{(.*?)kani::concrete_playback_run', o, re.S):
            bs = []
            for v in re.findall(r'vec!\[([\d, ]*)\]', block.split('concrete_vals', 1)[-1]):
                bs += [int(x) for x in v.split(',') if x.strip()]
            vecs.append(bytes(bs).hex())
        return vecs, (o + e)[-6000:]

    # ---------------------------------------------------------------- verdict
    def violation(self, what, data, has_input):
        self.replays.mkdir(parents=True, exist_ok=True)
        name = re.sub(r'\W+', '-', what)[:60].strip('-') or 'violation'
        p = self.replays / f'{name}.json'
        data = dict(property=self.pid, obligation=what, **data)
        if has_input:
            data['how_to_replay'] = f'python3 check.py {self.pid} --replay {p.relative_to(VERIF)}'
        p.write_text(json.dumps(data, indent=1))
        self.violations.append((what, p.relative_to(VERIF), has_input))

    def main(self):
        c = self.cfg
        BUILD.mkdir(exist_ok=True)
        if self.replays.exists():
            shutil.rmtree(self.replays)
        th = []
        nat_secs = float(os.environ.get('VERIF_NATIVE_SECS') or c.get('native', {}).get(self.tier, 25 if self.tier == 'quick' else 240))

        def native():
            if self.hs and self.build_native():
                self.run_native(nat_secs, threads=4 if any(h.kind in ('proof', 'bounded') for h in self.hs) else 8)

        def verus():
            from verusrun import run_units
            self.verus = run_units(c.get('verus', []), self.scratch())

        errs = []

        def guard(f):
            def g():
                try:
                    f()
                except Exception as ex:
                    import traceback
                    errs.append(traceback.format_exc())
            return g
        for f in (native, self.run_kani, verus):
            t = threading.Thread(target=guard(f))
            t.start()
            th.append(t)
        for t in th:
            t.join()
        for ex in errs:
            self.notes.append('internal: ' + ex)

        # native failures: a concrete input of the real code
        for h, j in self.native.items():
            if j['fail']:
                f = j['fail']
                arg = f['hex'] if f['hex'] else f'seed:{f["seed"]}'
                self.violation(f['label'], dict(harness=h, input=arg, found_by='execution of the contract on the real code'), True)
        have = {w for w, _, _ in self.violations}
        bad_h = {h for h, j in self.native.items() if j['fail']}

        # kani failures
        for h, r in self.kani.items():
            if r['status'] == 'UNDECIDED':
                self.notes.append(f'{h}: undecided by Kani ({r["why"]})')
            if r['status'] != 'FAILED' or h in bad_h:
                continue
            vecs, text = self.counterexample(h)
            hit = False
            for v in vecs:
                lab = self.replay_native(h, v)
                if lab:
                    hit = True
                    if lab not in have:
                        have.add(lab)
                        self.violation(lab, dict(harness=h, input=v, found_by="Kani's counterexample, replayed on the real code", failed=r['failed'][:5]), True)
            if hit:
                continue
            if self.native_bin:
                self.run_native(40, threads=8, only=[h], seed=self.seed + 7)
                j = self.native.get(h)
                if j and j['fail']:
                    f = j['fail']
                    self.violation(f['label'], dict(harness=h, input=f['hex'] or f'seed:{f["seed"]}', found_by='execution of the contract on the real code', failed=r['failed'][:5]), True)
                    continue
            named = [x for x in r['failed']]
            self.violation(named[0]['label'], dict(harness=h, failed=named[:8], verifier_output=text), False)

        # verus failures
        failing = [u for u in self.verus if u['status'] == 'FAILED']
        for u in self.verus:
            if u['status'] == 'UNDECIDED':
                self.notes.append(f'{u["unit"]}: undecided by Verus ({u["why"][:800]})')
        if failing and not any(i for _, _, i in self.violations):
            if self.native_bin:
                self.run_native(45, threads=8, seed=self.seed + 13)
                for h, j in self.native.items():
                    if j['fail']:
                        f = j['fail']
                        self.violation(f['label'], dict(harness=h, input=f['hex'] or f'seed:{f["seed"]}', found_by='search after a failed proof', failed=failing[0]['failed'][:5]), True)
            if not self.violations:
                for u in failing:
                    if u.get('trust_failure'):
                        self.violation(u['failed'][0]['what'], dict(unit=u['unit'], failed=u['failed'], verifier_output=u['output'][-6000:]), False)
                    else:
                        self.notes.append(f'{u["unit"]}: the proof no longer goes through and the shape of the code changed; no failing input found: ' + '; '.join(x['what'] for x in u['failed'][:4]))
        self.finish()

    def known(self):
        p = VERIF / 'known-findings.txt'
        out = []
        if p.exists():
            for line in p.read_text().splitlines():
                m = re.match(r'known: property=(\S+) obligation="([^"]*)" (.*)', line)
                if m and m.group(1) == self.pid:
                    out.append((m.group(2), m.group(3)))
        return out

    def finish(self):
        c = self.cfg
        known = self.known()
        for ob, text in known:
            log(f'KNOWN-FINDING: property={self.pid} {text}')
        vio = [v for v in self.violations if not any(ob == v[0] for ob, _ in known)]
        proved = [(h, self.kani[h.name]) for h in self.hs if h.kind == 'proof' and h.name in self.kani]
        bounded = [(h, self.kani[h.name]) for h in self.hs if h.kind == 'bounded' and h.name in self.kani]
        vo = sum(u.get('obligations', 0) for u in self.verus)
        vd = sum(u.get('discharged', 0) for u in self.verus)
        obl = sum(r['checks'] for _, r in proved) + vo
        dis = sum(r['discharged'] if r['status'] == 'PROVED' else 0 for _, r in proved) + vd
        evals = sum(j['iters'] for j in self.native.values())
        cov = dict(
            obligations=obl, discharged=dis,
            checker_cmd=f'cd /verif && python3 check.py {self.pid} --tier {self.tier}   # cargo kani (CBMC) on /repo and verus on functions extracted from /repo',
            trusted_base=TRUSTED + (VERUS_TRUSTED if self.verus else []) + [f'{u["unit"]}: {x}' for u in self.verus for x in u['dropped'] + u['assumed']] + c.get('trusted', []),
            functions_under_contract=c.get('functions', []),
            kani_proved=[dict(harness=h.name, contract=h.doc, status=r['status'], obligations=r['checks'], discharged=r['discharged'], covers=r['covers'], ms=r.get('ms')) for h, r in proved],
            kani_bounded=[dict(harness=h.name, contract=h.doc, status=r['status'], obligations=r['checks'], discharged=r['discharged'], covers=r['covers'], ms=r.get('ms')) for h, r in bounded],
            verus=[{k: v for k, v in u.items() if k != 'output'} for u in self.verus],
            executed_contracts=[dict(harness=j['harness'], runs=j['iters'], rejected=j['rejected'], reached=j['reached']) for j in self.native.values()],
            evaluations=evals,
            distinct_nontrivial=sum(j['iters'] - j['rejected'] for j in self.native.values()),
            rule='executed contracts: inputs from a seeded generator biased to boundaries; non-trivial = satisfies the precondition. Not counted as proved.',
            samples=[f'{h.name}: {h.doc}' for h in self.hs[:6]] or ['verus units only'],
            explanation=c.get('explanation', '') or c['note'],
            undecided=self.notes,
        )
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=c['level'], coverage=cov,
                  assumptions=c.get('assumptions', []) + ASSUMPTIONS, wall_s=round(time.time() - self.t0, 1), violations=len(vio))
        (VERIF / 'evidence').mkdir(exist_ok=True)
        (VERIF / 'evidence' / f'{self.pid}.json').write_text(json.dumps(ev, indent=1))
        shutil.rmtree(self.scratch(), ignore_errors=True) if not os.environ.get('VERIF_KEEP') else None
        log(f'{self.pid}: obligations {dis}/{obl} discharged ({len(proved)} complete Kani contracts, {len(self.verus)} Verus units), '
            f'{len(bounded)} bounded contracts, {evals} contract executions, {ev["wall_s"]} s')
        for n in self.notes:
            log('UNDECIDED:', n.replace('\n', ' | ')[:1500])
        for what, p, has in vio:
            log(f'obligation failed: {what}')
            log(f'VIOLATION property={self.pid} replay={p}' + ('' if has else ' no-failing-input-found'))
        sys.exit(1 if vio else 0)


VERUS_TRUSTED = ['Verus 0.2026.09.13 and Z3 for the functions under a Verus contract, which are the text of /repo extracted on every run (vlib/verusrun.py); dropped by the extraction: comments, attributes, visibility, log calls']
TRUSTED = ['rustc/MIR as translated by Kani 0.68 and CBMC 6.x with its SAT back end', 'the oracle functions in harness/src, transcribed from the formats\' specifications']
ASSUMPTIONS = [
    'Kani contracts: std::fmt::format is replaced by a stub returning an empty string (error texts only)',
    'allocation never fails; termination is not proved by Kani',
]
