"""Assemble the Verus input: prelude + theory + functions extracted from /repo + contracts."""
import json, os, re, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
V = os.path.join(ROOT, 'verus')
MODS = [
    ('ip', 'inner_products/src/lib.rs'), ('dh', 'dh_commitments/src/lib.rs'),
    ('afgho', 'dh_commitments/src/afgho16/mod.rs'), ('ped', 'dh_commitments/src/pedersen/mod.rs'),
    ('ident', 'dh_commitments/src/identity/mod.rs'), ('ipp', 'ip_proofs/src/lib.rs'),
    ('gipa', 'ip_proofs/src/gipa.rs'), ('tipa', 'ip_proofs/src/tipa/mod.rs'),
    ('ssm', 'ip_proofs/src/tipa/structured_scalar_message.rs'),
    ('groth', 'ip_proofs/src/applications/groth16_aggregation.rs'),
    ('pc', 'ip_proofs/src/applications/poly_commit/mod.rs'),
    ('tr', 'ip_proofs/src/applications/poly_commit/transparent.rs'),
    ('sipp', 'sipp/src/lib.rs'), ('rng', 'sipp/src/rng.rs'),
]
HEADER = '''#![allow(unused_imports, unused_variables, unused_mut, unused_parens, unused_braces, unused_labels, unused_assignments, dead_code, unreachable_code, non_snake_case, unused_must_use, path_statements)]
'''
USES = '''use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use core::ops::*;
use core::marker::PhantomData;
use vstd::arithmetic::power2::pow2;
use vstd::arithmetic::power::pow;
'''

def rd(n):
    return open(os.path.join(V, n)).read()

# ------------------------------------------------------------------------------------------------
class Contract:
    def __init__(self, id):
        self.id = id; self.ret = 'res'; self.requires = []; self.ensures = []; self.attrs = []
        self.valid = 'true'; self.at = {}; self.inv = {}; self.props = []; self.extra = ''
        self.decreases = ''; self.types = {}

def parse_contracts():
    cs = {}
    text = {}   # module -> ghost text
    implx = {}  # trait impl id -> extra items
    import glob
    for f in sorted(glob.glob(os.path.join(V, 'contracts', '*.vc'))):
        cur = None; sec = None; buf = []
        def flush():
            nonlocal sec, buf
            if sec is None: buf = []; return
            body = '\n'.join(buf).rstrip()
            k, a = sec
            if k == 'requires': cur.requires.append(body)
            elif k == 'ensures': cur.ensures.append((a, body))
            elif k == 'at': cur.at.setdefault(a, []).append(body)
            elif k == 'inv': cur.inv[a] = body
            elif k == 'valid': cur.valid = (a + '\n' + body).strip()
            elif k == 'decreases': cur.decreases = body or a
            elif k == 'ghost': text.setdefault(a, []).append(body)
            elif k == 'impl': implx.setdefault(a, []).append(body)
            buf = []; sec = None
        for line in open(f):
            line = line.rstrip('\n')
            if line.startswith('@') and not line.startswith('@@'):
                flush()
                m = re.match(r'@(\w+)\s*(.*)', line)
                k, a = m.group(1), m.group(2).strip()
                if k == 'fn':
                    cur = Contract(a); cur.file = os.path.basename(f); cs[a] = cur
                elif k == 'ret': cur.ret = a
                elif k == 'props': cur.props = a.split(',')
                elif k == 'attr': cur.attrs.append(a)
                elif k == 'type':
                    n, t = a.split(None, 1); cur.types[n] = t
                elif k == 'end': cur = None
                elif k in ('requires', 'ensures', 'at', 'inv', 'valid', 'decreases', 'ghost', 'impl'):
                    sec = (k, a)
                else: raise Exception('%s: unknown %s' % (f, line))
            else:
                buf.append(line)
        flush()
    return cs, text, implx

def extract(cs, repo=None):
    repo = repo or REPO
    ids = os.path.join(ROOT, 'build', 'ids.%d.txt' % os.getpid())
    os.makedirs(os.path.dirname(ids), exist_ok=True)
    open(ids, 'w').write('\n'.join(sorted(cs)))
    exe = build_extractor()
    out = subprocess.run([exe, ids] + ['%s=%s' % (m, os.path.join(repo, p)) for m, p in MODS],
                         capture_output=True, text=True)
    os.unlink(ids)
    if out.returncode != 0:
        raise Exception('extractor: ' + out.stderr[-2000:])
    return json.loads(out.stdout)

def build_extractor():
    d = os.path.join(ROOT, 'extract')
    tgt = os.path.join(ROOT, 'build', 'extract')
    exe = os.path.join(tgt, 'debug', 'vp-extract')
    srcs = [os.path.join(d, 'src', f) for f in os.listdir(os.path.join(d, 'src'))] + [os.path.join(d, 'Cargo.toml')]
    if os.path.exists(exe) and all(os.path.getmtime(s) <= os.path.getmtime(exe) for s in srcs):
        return exe
    e = dict(os.environ, CARGO_TARGET_DIR=tgt)
    r = subprocess.run(['cargo', 'build', '--offline', '-q'], cwd=d, env=e, capture_output=True, text=True)
    if r.returncode != 0: raise Exception('cannot build extractor: ' + r.stderr[-2000:])
    os.utime(exe)
    return exe

# ------------------------------------------------------------------------------------------------
def gen_groups():
    import importlib.util
    spec = importlib.util.spec_from_file_location('genops', os.path.join(V, 'genops.py'))
    g = importlib.util.module_from_spec(spec); spec.loader.exec_module(g)
    t = rd('groups.tmpl'); e = rd('elem.tmpl')
    out = []
    for G in ('G1', 'G2', 'GT'):
        out.append(t.replace('@G', G)); out.append(e.replace('@G', G))
    for G in ('G1Affine', 'G2Affine'):
        out.append(t.replace('@G', G))
    fr = e.replace('@G', 'Fr').replace('broadcast use ax_of_dl_Fr;', '')
    out.append(fr)
    # affine negation helper names
    ops = g.text().replace('of_dl_G1a(', 'of_dl_G1Affine(').replace('of_dl_G2a(', 'of_dl_G2Affine(')
    return '\n'.join(out) + '\n' + ops

ANY = re.compile(r'^//@(\w+)\s*(.*)$')

class Lost(Exception):
    pass

def loop_subst(body, loops):
    """$S0.. -> names of the sources used by each loop, in order of appearance."""
    res = {}
    for n in loops:
        a = body.find('//@before_loop %s\n' % n)
        b0 = body.find('//@bind %s\n' % n)
        b1 = body.find('//@body_end %s\n' % n)
        if a < 0: continue
        seg = body[b0:b1] if b0 >= 0 else ''
        # sources bound inside nested loops do not count
        srcs = []
        inner_defs = set(re.findall(r'let (s_\d+) =', seg))
        for m in re.finditer(r'\b(s_\d+)\b', seg):
            if m.group(1) not in srcs and m.group(1) not in inner_defs: srcs.append(m.group(1))
        ks = []
        for m in re.finditer(r'\b(k_\d+)\b', seg):
            if m.group(1) not in ks: ks.append(m.group(1))
        los = re.findall(r'\b(lo_\d+)\b', seg)
        res[n] = {'S': srcs, 'K': ks, 'L': list(dict.fromkeys(los))}
    return res

def subst(txt, n, info):
    def f(m):
        k, i = m.group(1), int(m.group(2))
        try: return info[n][k][i]
        except (KeyError, IndexError): raise Lost('source $%s%d of loop %s' % (k, i, n))
    return re.sub(r'\$([SKL])(\d)', f, txt)

BARE_LOOPS = {}   # function -> its loops for which the contract has no invariant

def annotate(item, c):
    """inject the contract's annotations at the markers; returns text"""
    body = item['body']
    info = loop_subst(body, item['loops'])
    used_at = set(); used_inv = set()
    out = []
    bare = BARE_LOOPS[c.id] = []
    valid = c.valid
    # rename source references: $S0@loop
    complex_inv = [n for n, t in c.inv.items() if re.search(r'^\s*ensures\b', t, re.M)]
    def sub2(t):
        def f(m):
            return subst('$' + m.group(1) + m.group(2), m.group(3), info)
        return re.sub(r'\$([SKL])(\d)@(\w+)', f, t)
    for line in body.split('\n'):
        m = ANY.match(line.strip())
        if not m:
            out.append(line); continue
        k, a = m.group(1), m.group(2).strip()
        if k == 'inv':
            if a in c.inv:
                used_inv.add(a)
                out.append(subst(sub2(c.inv[a]), a, info))
            else:
                bare.append(a)
                out.append(default_inv(item, a, body))
            continue
        key = (k + ' ' + a).strip()
        keys = [key]
        if k in ('let', 'assign'):
            keys = [k + ' ' + x for x in a.split(',')] + ([key] if ',' in a else [])
            keys = list(dict.fromkeys(keys))
        for kk in keys:
            # repeated markers: the n-th occurrence is addressed as "let x #n"
            item.setdefault('_cnt', {}); n = item['_cnt'].get(kk, 0) + 1; item['_cnt'][kk] = n
            for cand in ([kk] if n == 1 else []) + ['%s #%d' % (kk, n)] + ['%s *' % kk]:
                if cand in c.at:
                    used_at.add(cand)
                    ln = a if k in ('elem', 'bind', 'body_start', 'body_end', 'before_loop', 'after_loop') else None
                    for t in c.at[cand]:
                        t = sub2(t)
                        if ln: t = subst(t, ln, info)
                        out.append(t)
    item.pop('_cnt', None)
    out2 = []; seen_t = set()
    for line in out:
        m = re.match(r'^(\s*let (?:mut )?)(\w+)(?:: [^=]*?)?( = .*|;)$', line)
        if m and m.group(2) in c.types:
            seen_t.add(m.group(2))
            line = m.group(1) + m.group(2) + ': ' + c.types[m.group(2)] + m.group(3)
        out2.append(line)
    out = out2
    miss = ['type ' + k for k in c.types if k not in seen_t] + [k for k in c.at if k not in used_at] + ['inv ' + k for k in c.inv if k not in used_inv]
    for n in complex_inv:
        out = [re.sub(r"^(\s*)('l_%s: )" % n, r'\1#[verifier::allow_complex_invariants] \2', l) for l in out]
    text = '\n'.join(out).replace('__VALID__', valid)
    if miss: raise Lost('anchors not found: ' + ', '.join(miss))
    return text

def default_inv(item, n, body):
    if ("'l_%s: while" % n) in body:
        return 'invariant i_%s <= n_%s,\n decreases n_%s - i_%s' % (n, n, n, n)
    return ''

def clause(kind, parts):
    if not parts: return ''
    s = kind + '\n'
    for p in parts:
        tag, b = p if isinstance(p, tuple) else ('', p)
        b = b.strip().rstrip(',')
        lines = b.split('\n')
        if tag:
            lines = [l + ' //#' + tag for l in lines]
            # keep the comma before the comment of the last line
            lines[-1] = b.split('\n')[-1] + ', //#' + tag
        else:
            lines[-1] += ','
        s += '\n'.join('    ' + l for l in lines) + '\n'
    return s

def tuple_clones(body):
    """x.clone() for a local x that the same body takes apart as a k-tuple: clone the components
    (the built-in instance of Clone for tuples is outside the verifier)"""
    for m in re.finditer(r'let \(([^()]*)\) = (\w+);', body):
        k = len([x for x in m.group(1).split(',') if x.strip()])
        if k in (2, 3):
            body = re.sub(r'(?<![\w.])%s\.clone\(\)' % m.group(2), 'vp_clone%d(&%s)' % (k, m.group(2)), body)
    return body

PROBE = None
def fn_text(item, c, stub=False):
    name = item['name']
    is_trait = '::<' in item['id']
    sig = 'fn %s%s(%s)' % (name, item['generics'], ', '.join(item['params']))
    ret = item['ret']
    if ret != '()':
        sig += ' -> (%s: %s)' % (c.ret, ret)
    spec = ''
    if not is_trait:
        spec += clause('requires', c.requires)
    spec += clause('ensures', c.ensures)
    vis = '' if is_trait else 'pub '
    if stub:
        return '#[verifier::external_body]\n%s%s\n%s{ unimplemented!() }\n' % (vis, sig, spec)
    if c.decreases: spec += 'decreases %s\n' % c.decreases
    attrs = ''.join(a + '\n' for a in c.attrs)
    if '#[verifier::loop_isolation' not in attrs: attrs += '#[verifier::loop_isolation(false)]\n'
    if 'exec_allows' not in attrs: attrs += '#[verifier::exec_allows_no_decreases_clause]\n'
    body = annotate(item, c)
    body = tuple_clones(body)
    if PROBE == 'start':
        body = '{ assert(false); vp_any() }'
    elif PROBE == 'end':
        body = annotate(dict(item, body=item['body'].replace('//@fn_end', 'assert(false);\n//@fn_end')), c)
    return '%s%s%s\n%s%s\n' % (attrs, vis, sig, spec, body)

class Out:
    def __init__(self):
        self.lines = []; self.map = []   # (start, end, id)
    def add(self, t, id=None):
        ls = t.rstrip('\n').split('\n')
        a = len(self.lines) + 1
        self.lines += ls
        if id: self.map.append((a, len(self.lines), id))
    def text(self):
        return '\n'.join(self.lines) + '\n'

IMPORTS = {
    'ip': [], 'dh': [], 'afgho': ['ip', 'dh'], 'ped': ['ip', 'dh'], 'ident': ['dh'], 'ipp': [],
    'gipa': ['ipp', 'ident'], 'tipa': ['ip', 'dh', 'afgho', 'ped', 'ident', 'ipp', 'gipa'],
    'ssm': ['ip', 'dh', 'afgho', 'ped', 'ident', 'ipp', 'gipa', 'tipa'],
    'groth': ['ip', 'dh', 'afgho', 'ped', 'ident', 'ipp', 'gipa', 'tipa', 'ssm'],
    'pc': ['ip', 'dh', 'afgho', 'ped', 'ident', 'ipp', 'gipa', 'tipa', 'ssm'],
    'tr': ['ip', 'dh', 'afgho', 'ped', 'ident', 'ipp', 'gipa', 'tipa', 'ssm'],
    'sipp': ['rng'], 'rng': [],
}
CONTRACT_TRAITS = ('InnerProduct', 'DoublyHomomorphicCommitment', 'TIPACompatibleSetup', 'Add', 'MulAssign', 'Clone', 'RngCore')

def assemble(items, cs, text, implx, stubs=(), mods=None, probe=None):
    global PROBE
    PROBE = probe
    """stubs: ids replaced by their contract only (bounded stand-in decides those)."""
    mods = mods or [m for m, _ in MODS]
    o = Out(); status = {}   # id -> ('proved-candidate' | 'stub', reason)
    by = {}
    for it in items: by.setdefault(it['mod'], []).append(it)
    have_trait_impls = {it['id'] for it in items if it['kind'] == 'trait_impl'}
    o.add(HEADER + USES)
    o.add('verus! {')
    o.add(rd('prelude.rs'), 'prelude'); o.add(rd('groups.rs'), 'prelude'); o.add(gen_groups(), 'prelude')
    def emit_fn(it, c, forced=None):
        try:
            if forced: raise Lost(forced)
            if it['id'] in stubs: raise Lost(stubs[it['id']])
            if it.get('error'): raise Lost('extraction: ' + it['error'])
            o.add(fn_text(it, c), it['id']); status[it['id']] = ('code', '')
        except Lost as e:
            o.add(fn_text(it, c, stub=True), it['id']); status[it['id']] = ('stub', str(e))
    # traits with default bodies
    tr = rd('traits.rs').split('\n')
    for line in tr:
        m = re.match(r'//@@default (\S+)', line)
        if m:
            it = next((i for i in items if i['id'] == m.group(1)), None)
            if it is None:
                status[m.group(1)] = ('missing', 'function not found'); continue
            t = fn_text(it, cs[it['id']], stub=(it['id'] in stubs or bool(it.get('error'))))
            status[it['id']] = ('stub', 'x') if (it['id'] in stubs or it.get('error')) else ('code', '')
            # trait methods carry no visibility; the tag of a default body's ensures is kept
            t = t.replace('\npub fn ', '\nfn ').replace('pub fn ', 'fn ', 1)
            o.add(t, it['id'])
        else:
            o.add(line, 'prelude')
    o.add(rd('theory.rs'), 'theory')
    for t in text.get('root', []): o.add(t, 'theory')
    o.add('}')
    for m in mods:
        if m not in by: continue
        o.add('pub mod %s {' % m); o.add(USES); o.add('use super::*;')
        for x in IMPORTS[m]: o.add if False else o.add('use super::%s::*;' % x)
        o.add('verus! {')
        for t in text.get(m, []): o.add(t, 'theory:' + m)
        for k in [k for k in text if k.startswith(m + ' unless ')]:
            tid = k.split(' unless ')[1].strip()
            if tid not in have_trait_impls:
                for t in text[k]: o.add(t, 'theory:' + m)
        its = by[m]
        for it in its:
            if it['kind'] in ('struct', 'type'):
                if it['text'] is None: continue
                o.add(it['text'], it['id'])
        for it in its:
            if it['kind'] == 'trait_impl':
                if it['error'] or it['trait'] not in CONTRACT_TRAITS: 
                    status[it['id']] = ('skipped', it.get('error') or 'trait not under contract'); continue
                copies = it['trait'] == 'Clone' and m != 'ident'
                # the built-in instance of Clone for tuples is outside the verifier: hand-written Clone
                # instances become instances of VpClone, whose tuple and vector instances are verified
                o.add((it['header'].replace(' Clone for ', ' VpClone for ') if copies else it['header']) + ' {')
                for a, b in it['assoc']:
                    if a != 'Scalar': o.add('type %s = %s;' % (a, b))
                for t in implx.get(it['id'], []): o.add(t, it['id'])
                for f in its:
                    if f['kind'] == 'fn' and f['id'].startswith(it['id'] + '::'):
                        c = cs.get(f['id']) or Contract(f['id'])
                        if copies and f['name'] == 'clone':
                            f = dict(f, name='vp_clone', ret='Self', body=(f['body'] or '').replace('.clone()', '.vp_clone()'))
                        emit_fn(f, c)
                o.add('}')
        for f in its:
            if f['kind'] == 'fn' and '::<' not in f['id'] and f['id'] in cs and not f['id'].startswith('dh::DoublyHom'):
                if f['header']:
                    o.add(f['header'] + ' {'); emit_fn(f, cs[f['id']]); o.add('}')
                else:
                    emit_fn(f, cs[f['id']])
        o.add('}'); o.add('}')
    o.add('fn main() {}')
    ids = {i['id'] for i in items}
    for k in cs:
        if k not in status and k.split('::')[0] in mods and k not in ids: status[k] = ('missing', 'function not found')
    return o, status

def run_verus(path, extra=(), timeout=800, cwd=None, errors=8):
    cmd = ['verus', path, '--error-format=json', '--output-json', '--time-expanded', '--multiple-errors', str(errors), '--triggers-mode', 'silent'] + list(extra)
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=cwd)
    except subprocess.TimeoutExpired:
        return None, [], cmd
    diags = []
    for l in r.stderr.split('\n'):
        if l.startswith('{'):
            try: diags.append(json.loads(l))
            except Exception: pass
        elif l.strip(): diags.append({'level': 'raw', 'message': l, 'spans': [], 'rendered': l})
    try: js = json.loads(r.stdout)
    except Exception: js = None
    return js, diags, cmd

if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('-o', default='/tmp/vt/all.rs'); ap.add_argument('-m', default=None)
    ap.add_argument('--only', default=None); ap.add_argument('--fn', default=None); ap.add_argument('--rlimit', default=None)
    ap.add_argument('--stub', default='')
    a = ap.parse_args()
    cs, text, implx = parse_contracts()
    items = extract(cs)
    o, st = assemble(items, cs, text, implx, mods=a.m.split(',') if a.m else None, stubs={s: 'asked' for s in a.stub.split(',') if s})
    open(a.o, 'w').write(o.text())
    for k, v in st.items():
        if v[0] != 'code': print('##', k, v)
    ex = []
    if a.only:
        for m in a.only.split(','): ex += (['--verify-root'] if m == 'root' else ['--verify-only-module', m])
    if a.fn: ex += ['--verify-function', a.fn]
    if a.rlimit: ex += ['--rlimit', a.rlimit]
    js, d, cmd = run_verus(a.o, ex)
    for x in d:
        if x['level'] in ('error', 'raw'):
            loc = ''
            for s in x['spans']:
                for (p, q, i) in o.map:
                    if p <= s['line_start'] <= q: loc += ' ' + i
            print('@@', loc); print(x['rendered'])
    if js:
        print(js.get('verification-results'), 'total-ms', js.get('times-ms', {}).get('total'))
