#!/usr/bin/env python3
"""Decides one property: check.py <Cxx>.  Exit 0 (held) or 1 (VIOLATION line); see DESIGN.md."""
import json, os, re, subprocess, sys, threading, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import assemble as A, harness as H

ROOT = A.ROOT
T0 = time.time()
def left(cap, total=560):
    """seconds a verifier run may take, so that the whole check ends well before its limit"""
    return max(5, int(min(cap, total - (time.time() - T0))))
CLEAN = ('postcondition not satisfied', 'precondition not satisfied', 'precondition not met', 'assertion failed', 'invariant not satisfied',
         'possible arithmetic', 'possible bit shift', 'decreases not satisfied', 'possible division by zero', 'unable to prove', 'cannot show',
         'loop must have a decreases', 'requires not satisfied', 'ensures not satisfied')
LIMIT = ('rlimit', 'Resource limit', 'timed out', 'timeout', 'solver')


def tags(c):
    s = set(c.props)
    for t, _ in c.ensures:
        s |= {x for x in t.split(',') if x}
    for txt in [t for l in c.at.values() for t in l] + list(c.inv.values()):
        for m in re.finditer(r'//#([\w,]+)\s*$', txt, re.M):
            s |= set(m.group(1).split(','))
    return s


def locate(diag, omap):
    ids = []
    for s in diag.get('spans', []):
        for p, q, i in omap:
            if p <= s['line_start'] <= q and i not in ids and i not in ('prelude',):
                ids.append(i)
    return ids


def line_tags(diag, lines):
    t = set()
    for s in diag.get('spans', []):
        for n in range(s['line_start'], s['line_end'] + 1):
            if n <= len(lines):
                m = re.search(r'//#([\w,]+)\s*$', lines[n - 1])
                if m:
                    t |= set(m.group(1).split(','))
    return t


def trusted_scan(text):
    """everything the verifier takes on trust in the assembled file, by kind"""
    out = {'external_body functions and types': [], 'axioms': [], 'uninterpreted specification functions': [], 'assume/admit': []}
    lines = text.split('\n')
    for n, l in enumerate(lines):
        s = l.strip()
        if s.startswith('//'):
            continue
        m = re.search(r'axiom fn (\w+)', s)
        if m:
            out['axioms'].append(m.group(1))
        m = re.search(r'uninterp spec fn (\w+)', s)
        if m:
            out['uninterpreted specification functions'].append(m.group(1))
        if 'external_body' in s:
            m = re.search(r'\b(?:fn|struct) (\w+)', s.split('external_body', 1)[1] + ' ' + ' '.join(x.strip() for x in lines[n + 1:n + 4]))
            out['external_body functions and types'].append(m.group(1) if m else '?')
        if re.search(r'\b(assume|admit)\s*\(', s) and 'fn ' not in s:
            out['assume/admit'].append(s[:80])
    return out


class Proof:
    """result of the deductive part"""
    def __init__(self):
        self.ran = False; self.note = ''; self.obligations = 0; self.discharged = 0; self.functions = []; self.stubs = {}
        self.failed = []; self.undecided = {}; self.cmd = ''; self.smt_ms = 0; self.vacuous = []; self.trusted = {}; self.tool = ''
        self.units = []; self.flaky = []; self.deps = []


def closure(mods):
    seen = []
    def go(m):
        for d in A.IMPORTS[m]:
            go(d)
        if m not in seen:
            seen.append(m)
    for m in mods:
        go(m)
    return [m for m, _ in A.MODS if m in seen]


def breakdown(js):
    for m in js.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
        for f in m.get('function-breakdown', []):
            yield m['module'], f


def fname(id):
    if id.endswith('::<Clone>::clone') and not id.startswith('ident::'):
        return 'vp_clone'   # see assemble.py
    return id.split('::')[-1]


def unit_id(unit, ids):
    """maps a verifier unit (all::gipa::impl&%0::verify) to an extracted function id, if it is one"""
    parts = unit.split('::')
    if len(parts) < 2:
        return None
    mod, name = parts[1], parts[-1]
    return [i for i in ids if i.split('::')[0] == mod and fname(i) == name]


class Probe:
    """the vacuity run, beside the main one: every contracted body replaced by `assert(false)`"""
    @staticmethod
    def keyof(stubs, mods):
        return (tuple(sorted(stubs)), tuple(mods))

    def __init__(self, items, cs, text, implx, stubs, mods, target_mods, mine, tier, work):
        self.key = self.keyof(stubs, mods)
        self.o2, st2 = A.assemble(items, cs, text, implx, stubs=dict(stubs), mods=list(mods), probe='end' if tier == 'thorough' else 'start')
        d = os.path.join(work, 'probe%d' % len(os.listdir(work)))
        os.makedirs(d)
        self.path = os.path.join(d, 'probe.rs')
        open(self.path, 'w').write(self.o2.text())
        self.runs = [sum((['--verify-only-module', m] for m in target_mods if m in mods), [])]
        # provided trait methods live at the root
        self.runs += [['--verify-root', '--verify-function', fname(k)] for k, v in st2.items() if v[0] == 'code' and k in mine and k.startswith('dh::DoublyHom')]
        self.js, self.diags, self.err = None, [], None
        self.th = threading.Thread(target=self.go, daemon=True)
        self.th.start()

    def go(self):
        try:
            for only in self.runs:
                j, dd, _ = A.run_verus(self.path, only + ['--rlimit', '3'], timeout=left(150, 640), cwd=os.path.dirname(self.path), errors=0)
                self.js = self.js or j
                self.diags += dd
        except Exception as e:
            self.err = e

    def result(self):
        self.th.join()
        if self.err:
            raise self.err
        return self.js, self.diags, self.o2


def deductive(prop, tier, P):
    cs, text, implx = A.parse_contracts()
    mine = {k: c for k, c in cs.items() if prop in tags(c)}
    if not mine:
        P.note = 'no function under contract for this property'
        return
    items = A.extract(cs)
    have = {i['id'] for i in items}
    target_mods = sorted({k.split('::')[0] for k in mine})
    # dh::X::verify and the like live in traits emitted at the root
    mods = closure(target_mods)
    stubs = {}
    work = os.path.join(ROOT, 'build', 'verus-%s-%d' % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    path = os.path.join(work, 'all.rs')
    dropped = []
    try:
        js = None
        for attempt in range(10):
            o, status = A.assemble(items, cs, text, implx, stubs=stubs, mods=mods)
            open(path, 'w').write(o.text())
            if attempt == 0:
                first = Probe(items, cs, text, implx, stubs, mods, target_mods, mine, tier, work)
            only = ['--verify-root']
            for m in target_mods:
                if m in mods:
                    only += ['--verify-only-module', m]
            js, diags, cmd = A.run_verus(path, only, timeout=left(330), cwd=work, errors=3)
            P.cmd = ' '.join(cmd).replace(work + '/', '')
            errs = [d for d in diags if d['level'] in ('error', 'raw') and d.get('spans')]
            lim, clean, front = [], [], []
            for d in errs:
                msg = d['message']
                if d.get('code'): front.append(d)   # the compiler's own error codes: not an obligation
                elif any(x in msg for x in LIMIT): lim.append(d)
                elif any(x in msg for x in CLEAN): clean.append(d)
                else: front.append(d)
            if js is None and not front:
                # verifier crashed or ran out of time: nothing it says can be used
                raw = ' '.join(d['message'] for d in diags if d['level'] in ('error', 'raw'))[:300]
                P.note = 'verifier gave no answer (%s)' % (raw or 'time limit')
                return
            if front:
                # outside the verifier's language: those functions keep their contract and lose their proof here
                ids = [i for d in front for i in locate(d, o.map) if i in have and i in cs and i not in stubs]
                if ids:
                    for i in ids: stubs[i] = 'front end: ' + next(d['message'] for d in front if i in locate(d, o.map))[:160]
                    continue
                bad = [i for d in front for i in locate(d, o.map)]
                bm = [i.split('::')[0].replace('theory:', '') for i in bad]
                bm = [m for m in bm if m in mods]
                if bm:
                    keep = [m for m in mods if bm[0] not in closure([m])]
                    dropped.append(bm[0]); P.note = 'module %s cannot be read by the verifier: %s' % (bm[0], front[0]['message'][:160])
                    mods = keep
                    target_mods = [m for m in target_mods if m in mods]
                    if not target_mods: return
                    continue
                P.note = 'verifier front end: ' + front[0]['message'][:200]
                return
            break
        else:
            P.note = 'the extracted text could not be brought into the verifier\'s language'
            return
        P.ran = True
        lines = o.lines
        P.trusted = trusted_scan(o.text())
        P.tool = js.get('verus', {}).get('version', '')
        for k, (st, why) in status.items():
            if st in ('stub', 'missing') and k in mine:
                P.stubs[k] = why
        for k in mine:
            if k not in status and k.split('::')[0] not in mods:
                P.stubs[k] = 'module not readable'
        # undecided units: retried with more resources, then left to the bounded examination
        bad_units = {}
        for d in clean + lim:
            for i in locate(d, o.map):
                bad_units.setdefault(i, {'clean': [], 'lim': []})['clean' if d in clean else 'lim'].append(d)
        ids = [i for i in status if status[i][0] == 'code']
        for i, b in sorted(bad_units.items()):
            if i.startswith('theory') or i not in cs:
                P.undecided[i] = 'supporting lemma not proved in this run'
                continue
            # a second attempt with more resources separates weak luck from a real failure
            m = i.split('::')[0]
            root = i.startswith('dh::DoublyHom')
            args = (['--verify-root'] if root else ['--verify-only-module', m]) + ['--verify-function', '*' + fname(i) + '*' if False else fname(i), '--rlimit', '60']
            js2, diags2, cmd2 = A.run_verus(path, args, timeout=left(150), cwd=work, errors=3)
            e2 = [d for d in diags2 if d['level'] == 'error' and d.get('spans') and i in locate(d, o.map)]
            if js2 is not None and not e2 and js2.get('verification-results', {}).get('errors', 1) == 0 and js2.get('verification-results', {}).get('verified', 0) > 0:
                P.flaky.append(i)
                continue
            cl = [d for d in (e2 or b['clean'] + b['lim']) if any(x in d['message'] for x in CLEAN) and not any(x in d['message'] for x in LIMIT)]
            if not cl:
                P.undecided[i] = 'resource limit'
                continue
            if A.BARE_LOOPS.get(i):
                # a loop the contract has no invariant for (there is none in the tree the contracts were
                # written for): the failing obligation says nothing about the code
                P.undecided[i] = 'a loop without invariants: ' + ', '.join(A.BARE_LOOPS[i])
                continue
            for d in cl:
                t = line_tags(d, lines) or set(cs[i].props)
                if prop in t:
                    P.failed.append((i, d))
                elif i not in P.deps:
                    P.deps.append(i)   # another property's obligation: reported by that property's check
        # counts, per verification unit (one unit = all obligations of one function or lemma)
        failed_ids = {i for i, _ in P.failed}
        for module, f in breakdown(js):
            c = unit_id(f['function'], list(cs)) or []
            if c and not any(x in mine for x in c):
                continue
            P.units.append(f['function'])
            P.obligations += 1
            P.smt_ms += f.get('time', 0)
            if f.get('success') or (c and any(x in P.flaky for x in c)):
                P.discharged += 1
        P.functions = sorted(k for k in mine if status.get(k, ('',))[0] == 'code' and k not in P.undecided and k not in failed_ids)
        P.obligations += len(P.stubs)
        # vacuity: with its body replaced by `assert(false)`, every contracted function must be rejected
        probe_targets = [k for k in P.functions]
        if first.key != Probe.keyof(stubs, mods):
            first = Probe(items, cs, text, implx, stubs, mods, target_mods, mine, tier, work)
        js3, diags3, o2 = first.result()
        if js3 is not None:
            hit = set()
            for d in diags3:
                if d['level'] == 'error':
                    hit |= set(locate(d, o2.map))
            P.vacuous = [k for k in probe_targets if k not in hit]
            P.probed = len(probe_targets)
        if P.obligations == 0:
            P.ran = False; P.note = 'no obligations were generated'
    finally:
        import shutil
        if not os.environ.get('VP_KEEP'):
            shutil.rmtree(work, ignore_errors=True)


def main():
    prop = sys.argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    meta = {c['property']: c for c in json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks']}
    level = meta.get(prop, {}).get('level', 'proof')
    P = Proof()
    hres = {'r': None, 'log': ''}

    def bounded():
        try:
            b, log = H.build(True, prop)
            if b is None:
                hres['log'] = log
                return
            hres['b'] = b
            sec = 900 if tier == 'thorough' else 150
            hres['r'] = H.run(b, prop, seed, tier, sec)
            # an unfinished quick run is fine: what was examined is what is reported
        except Exception:
            hres['log'] = traceback.format_exc()

    th = threading.Thread(target=bounded)
    th.start()
    try:
        deductive(prop, tier, P)
    except Exception as e:
        P.ran = False
        P.note = 'extraction or verifier machinery failed: %s' % str(e)[-400:]
        if os.environ.get('VP_TRACE'): traceback.print_exc()
    th.join()
    R = hres['r']
    rdir = os.path.join(ROOT, 'build', 'replay')
    os.makedirs(rdir, exist_ok=True)
    rfile = os.path.join(rdir, '%s.txt' % prop)
    known = json.load(open(os.path.join(ROOT, 'known-findings.json')))
    listed = [k for k in known['findings'] if k['property'] == prop]
    viol = []   # (text, has_input)
    if R:
        for v in R['violations']:
            viol.append((dict(v, seed=seed, tier=tier), True))
        for k in R['known']:
            hit = [f for f in listed if f['match'] == k]
            if hit:
                print('KNOWN-FINDING: property=%s %s' % (prop, hit[0]['what']))
            else:
                viol.append(({'seed': seed, 'tier': tier, 'case': k, 'msg': 'known-finding shape that is not listed: ' + k}, True))
    if (P.failed or P.deps or P.stubs or P.undecided or not P.ran) and not viol and R is not None and tier == 'quick':
        # an obligation fails, or a function left the reach of the verifier: look harder for an input
        left = 780 - (time.time() - T0)
        if left > 60:
            R2 = H.run(hres['b'], prop, seed + 1000003, 'thorough', int(min(150, left - 30)))
            R['cases'] += R2['cases']
            viol += [(dict(v, seed=seed + 1000003, tier='thorough'), True) for v in R2['violations']]
    code = 0
    if viol or P.failed:
        code = 1
        with open(rfile, 'w') as f:
            f.write('property %s\n' % prop)
            for v, _ in viol:
                f.write('\nfailing case: %s\n  %s\n' % (v['case'], v['msg']))
                f.write("  replay: cd %s && RUSTFLAGS='--cfg vp_hooks' CARGO_TARGET_DIR=%s cargo build --offline --no-default-features --features %s --manifest-path harness/Cargo.toml && VERIF_SEED=%d VERIF_TIER=%s %s %s /dev/stdout --only '%s'\n"
                        % (ROOT, H.TARGET, prop, v['seed'], v['tier'], H.BIN, prop, v['case']))
            for i, d in P.failed:
                f.write('\nfailed obligation in %s: %s\n%s\n' % (i, d['message'], d.get('rendered', '')))
            if P.failed:
                f.write('\nverifier command: %s\n' % P.cmd)
        for v, _ in viol[:3]:
            print('failing case: %s -- %s' % (v['case'], v['msg'][:200]))
        for i in sorted({i for i, _ in P.failed}):
            print('failed obligation: %s (%s)' % (i, '; '.join(sorted({d['message'] for j, d in P.failed if j == i}))[:160]))
        print('VIOLATION property=%s replay=%s%s' % (prop, rfile, '' if viol else ' no-failing-input-found'))
    cov = {
        'obligations': P.obligations, 'discharged': P.discharged,
        'checker_cmd': P.cmd or 'not run', 'back_end': 'Verus %s / Z3' % P.tool, 'solver_ms': P.smt_ms,
        'functions_under_contract': P.functions,
        'functions_bounded_only': dict(P.stubs, **P.undecided),
        'retried_with_more_resources': P.flaky,
        'failing_obligations_of_other_properties': P.deps,
        'vacuity_probe': {'probed': getattr(P, 'probed', 0), 'accepted_assert_false': P.vacuous},
        'deductive_part': 'ran' if P.ran else 'did not run: ' + P.note,
        'trusted_base': ['%s (%d): %s' % (k, len(v), ', '.join(sorted(set(v)))) for k, v in P.trusted.items() if v] or ['see DESIGN.md'],
    }
    if R:
        cov.update({'evaluations': R['cases'], 'distinct_nontrivial': R['cases'] - R['skipped'] if R['cases'] > R['skipped'] else R['cases'],
                    'rule': 'bounded companion run of the real crates: every case has its own name (shape, sizes, edge values) and seed; all are distinct, none is trivial (each evaluates at least one equation of the property)',
                    'samples': R['samples'][:12], 'bounded_seconds_all_shards': R['seconds'], 'hooks': R['hooks'], 'shards_lost': R['lost']})
    else:
        cov.update({'evaluations': 0, 'distinct_nontrivial': 0, 'rule': 'the bounded companion did not build: ' + hres['log'][-300:], 'samples': []})
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'wall_s': round(time.time() - T0, 1),
          'violations': len(viol) + len(P.failed),
          'assumptions': ASSUMPTIONS}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
    if P.vacuous:
        print('note: contracts accepted assert(false): %s' % P.vacuous)
    print('%s: %d/%d obligations discharged over %d functions (%s)%s; %d bounded cases, %d not run; %.0f s' % (
        prop, P.discharged, P.obligations, len(P.functions), cov['deductive_part'],
        '; bounded only: ' + ', '.join(list(P.stubs) + list(P.undecided)) if P.stubs or P.undecided else '',
        R['cases'] if R else 0, R['skipped'] if R else 0, time.time() - T0))
    return code


ASSUMPTIONS = [
    'group and field elements are represented in the logic by their discrete logarithms in one prime field (arkworks arithmetic, pairings, MSM and serialization are trusted to implement it)',
    'hash and random draws are uninterpreted functions of their inputs / of the generator position',
    'iterator chains, parallel iterators and closures are rewritten to sequential loops by the extractor (rules in DESIGN.md); scheduling is rayon\'s',
    'generic associated types are fixed to the dual-mode traits of verus/traits.rs; Clone returns an equal value',
    'termination of rejection-sampling loops is not proved',
]

if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 0
    sys.exit(rc)
