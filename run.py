#!/usr/bin/env python3
"""Runs the contract proofs of one property against /repo's working tree.

usage: run.py <property> [--tier quick|thorough] [--unit NAME] [--keep] [--verbose]
       run.py --all | --sigs | --list
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, resource, shutil, signal
import subprocess, sys, tempfile, time
from pathlib import Path

VERIF = Path(__file__).resolve().parent
REPO = Path(os.environ.get('VP_REPO', '/repo'))
sys.path.insert(0, str(VERIF))
from units import UNITS, PROPS, TRUSTED          # noqa: E402

CHECKS = ['--no-standard-checks', '--pointer-check', '--bounds-check', '--div-by-zero-check',
          '--no-malloc-may-fail']
DEADLINE = time.time() + 840

# --------------------------------------------------------------------------- C text tools
def mask(text):
    """same length text with comments, strings and preprocessor lines blanked"""
    out = list(text); i = 0; n = len(text)
    def blank(a, b):
        for k in range(a, b):
            if out[k] != '\n': out[k] = ' '
    bol = True
    while i < n:
        c = text[i]
        if text.startswith('/*', i):
            j = text.find('*/', i + 2); j = n if j < 0 else j + 2
            blank(i, j); i = j; continue
        if text.startswith('//', i):
            j = text.find('\n', i); j = n if j < 0 else j
            blank(i, j); i = j; continue
        if c in '"\'':
            j = i + 1
            while j < n and text[j] != c:
                j += 2 if text[j] == '\\' else 1
            blank(i + 1, min(j, n)); i = j + 1; bol = False; continue
        if c == '#' and bol:
            j = i
            while True:
                k = text.find('\n', j)
                if k < 0: k = n; break
                if text[k - 1] == '\\': j = k + 1; continue
                break
            blank(i, k); i = k; continue
        if c == '\n': bol = True
        elif not c.isspace(): bol = False
        i += 1
    return ''.join(out)

def match(m, i, o, c):
    d = 0
    while i < len(m):
        if m[i] == o: d += 1
        elif m[i] == c:
            d -= 1
            if d == 0: return i
        i += 1
    raise ValueError('unbalanced')

def find_function(m, name):
    """(start of body brace, end) of the definition of `name`"""
    for g in re.finditer(r'\b%s\s*\(' % re.escape(name), m):
        p = match(m, m.index('(', g.start()), '(', ')')
        q = p + 1
        while q < len(m) and m[q].isspace(): q += 1
        if q < len(m) and m[q] == '{':
            d = m.count('{', 0, g.start()) - m.count('}', 0, g.start())
            if d == 0: return q, match(m, q, '{', '}')
    return None

def find_loops(m, b, e):
    """list of (keyword position, position after the header, end of the loop)"""
    loops = []; skip = set()
    for g in re.finditer(r'\b(for|while|do)\b', m[b:e]):
        pos = b + g.start()
        if pos in skip: continue
        if g.group(1) == 'do':
            q = m.index('{', pos); z = match(m, q, '{', '}')
            w = m.index('while', z); skip.add(w)
            loops.append((pos, None, w)); continue
        p = match(m, m.index('(', pos), '(', ')')
        q = p + 1
        while m[q].isspace(): q += 1
        if m[q] == '{': z = match(m, q, '{', '}')
        else: z = m.index(';', q)
        loops.append((pos, p + 1, z))
    return loops

def loop_sig(m, l):
    return hashlib.sha1(re.sub(r'\s+', '', m[l[0]:l[2] + 1]).encode()).hexdigest()[:12]

def function_sigs(path, fn):
    m = mask(path.read_text(errors='replace'))
    f = find_function(m, fn)
    if f is None: return None
    return [loop_sig(m, l) for l in find_loops(m, *f)]

def annotate(src, loops):
    """insert the loop contracts in the scratch copy.  Returns a list of problems"""
    problems = []
    by_file = {}
    for l in loops: by_file.setdefault(l['file'], []).append(l)
    for file, ls in by_file.items():
        p = src / file
        if not p.exists(): problems.append(f'{file} is missing'); continue
        text = p.read_text(errors='replace'); m = mask(text)
        ins = []
        for l in ls:
            f = find_function(m, l['fn'])
            if f is None: problems.append(f"no function {l['fn']} in {file}"); continue
            lp = find_loops(m, *f)
            if l['n'] >= len(lp) or lp[l['n']][1] is None:
                problems.append(f"no loop {l['n']} in {l['fn']}"); continue
            ins.append((lp[l['n']][1], ' ' + ' '.join(l['text'].split()) + ' '))
        new = text; 
        for pos, t in sorted(ins, reverse=True): new = new[:pos] + t + new[pos:]
        back = new; shift = 0
        for pos, t in sorted(ins):
            back = back[:pos] + back[pos + len(t):]
        if back != text: raise RuntimeError('annotation changed the source')
        p.write_text(new)
    return problems

# --------------------------------------------------------------------------- building
def make_config(d):
    t = (REPO / 'src/config.h.in').read_text()
    on = {'HAVE_STRING_H', 'HAVE_STRINGS_H', 'HAVE_SYS_SELECT_H', 'HAVE_PROCDIR', 'OS_LINUX', 'DEBUG'}
    f = lambda m: f'#define {m.group(1)} 1' if m.group(1) in on else f'/* {m.group(1)} */'
    t = re.sub(r'#cmakedefine01\s+(\w+)', f, t)
    t = re.sub(r'#cmakedefine\s+(\w+).*', f, t)
    t = re.sub(r'@\w*VERSION_MAJOR@', '0', t); t = re.sub(r'@\w*VERSION_MINOR@', '9', t)
    t = re.sub(r'@\w+@', '0', t)
    (d / 'config.h').write_text(t)

GROUPS = {
    # directory, files left out (main programs and what needs Lua)
    'server': ('server', {'server.c', 'options.c'}),
    'lib': ('lib', {'libopt.c', 'libinit.c'}),
}

def prepare(d, unit):
    src = d / 'src'
    shutil.copytree(REPO / 'src', src, ignore=shutil.ignore_patterns('*.o', '*.a', '*.so'))
    make_config(d)
    for g, (sub, out) in GROUPS.items():
        files = sorted(p.name for p in (src / sub).glob('*.c') if p.name not in out)
        (d / f'vp_unity_{g}.c').write_text(''.join(f'#include "{sub}/{f}"\n' for f in files))
    return src

def incs(d):
    return [f'-I{VERIF}/lib', f'-I{d}', f'-I{d}/src', f'-I{d}/src/server', f'-I{d}/src/lib',
            f'-I{d}/src/lib/lua', f'-I{d}/src/lib/logger', f'-I{d}/src/modules/modbus', f'-I{d}/src/master',
            '-I/usr/include/lua5.4', '-I/usr/include/lua5.3', '-DHAVE_SQLITE']

def limits():
    os.setsid()
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))

def sh(cmd, timeout, lim=True):
    timeout = max(5, min(timeout, DEADLINE - time.time()))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         preexec_fn=limits if lim else os.setsid)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors='replace'), e.decode(errors='replace')
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.communicate()
        return 'timeout', '', ''

def goto(d, unit, mode, replace):
    a, b = d / 'a.gb', d / 'b.gb'
    cmd = ['goto-cc', *incs(d), f'-DVP_{mode}', *[f'-D{x}' for x in unit.get('defines', [])],
           *([f'-D{x}' for x in unit.get('bmc_defines', [])] if mode == 'BMC' else []),
           *(['-DVP_DO_REACH'] if unit.get('mode') == 'bounded' else []),
           '--function', 'h', str(VERIF / 'units' / unit['file']), '-o', str(a)]
    rc, o, e = sh(cmd, 120)
    if rc != 0: return None, 'goto-cc: ' + (e + o)[-3000:]
    enforce = unit.get('enforce')
    if unit.get('stub') and (mode == 'BMC' or unit.get('stub_proof')):
        s = d / 's.gb'; t = d / 't.gb'
        rc, o, e = sh(['goto-instrument', *[x for f in unit['stub'] for x in ('--remove-function-body', f)], str(a), str(s)], 100)
        if rc == 0: rc, o, e = sh(['goto-instrument', '--generate-function-body', '|'.join(unit['stub']), '--generate-function-body-options', 'nondet-return', str(s), str(t)], 100)
        if rc != 0: return None, 'goto-instrument: ' + (o + e)[-3000:]
        a = t
    if (unit.get('mode') == 'bounded' and not replace) or (mode == 'BMC' and unit.get('bmc_plain')): return a, ''
    if not enforce and not replace and not unit.get('dfcc'):
        return a, ''
    cmd = ['goto-instrument', '--dfcc', 'h']
    if enforce: cmd += ['--enforce-contract', enforce]
    for r in replace: cmd += ['--replace-call-with-contract', r]
    if mode == 'PROOF' and unit.get('loops'): cmd += ['--apply-loop-contracts']
    rc, o, e = sh(cmd + [str(a), str(b)], 200)
    if rc != 0: return None, 'goto-instrument: ' + (o + e)[-3000:]
    return b, ''

def run_cbmc(gb, args, timeout, bits):
    while True:
        t = time.time()
        rc, o, e = sh(['cbmc', '--json-ui', '--object-bits', str(bits), *CHECKS, *args, str(gb)], timeout)
        wall = time.time() - t
        if rc == 'timeout': return 'timeout', None, wall, ''
        if 'too many addressed objects' in o and bits < 14: bits += 1; continue
        break
    try: js = json.loads(o)
    except Exception: return 'error', None, wall, (o + e)[-2000:]
    for x in js:
        if 'result' in x:
            und = [q for q in x['result'] if q['status'] not in ('SUCCESS', 'FAILURE')]
            if und and not any(q['status'] == 'FAILURE' and not is_reach(q) for q in x['result']):
                return 'error', None, wall, f'{len(und)} obligations were left undecided (out of memory?)'
            return 'ok', x['result'], wall, ''
    msgs = ' '.join(x.get('messageText', '') for x in js if 'messageText' in x)
    return 'error', None, wall, msgs[-2000:]

def is_nobody(r): return 'undefined function should be unreachable' in r['description']
def is_reach(r): return r['description'].startswith('vpreach')
def is_unwind(r): return 'unwinding assertion' in r['description'] or '.unwind.' in r['property'] or '.recursion' in r['property']

def unwind_args(u):
    if isinstance(u, int): return ['--unwind', str(u)]
    if isinstance(u, dict):
        a = []
        if '*' in u: a += ['--unwind', str(u['*'])]
        s = ','.join(f'{k}:{v}' for k, v in u.items() if k != '*')
        return a + (['--unwindset', s] if s else [])
    return []

def user_unwind(gb, u):
    """unwinding limits for the loops without a loop contract (the loops of the contract
    library end by themselves)"""
    rc, o, e = sh(['goto-instrument', '--show-loops', '--json-ui', str(gb)], 60)
    ids = []
    try:
        for x in json.loads(o):
            for l in x.get('loops', []): ids.append(l['name'])
    except Exception: pass
    if isinstance(u, int): u = {'*': u}
    lim = []
    for i in ids:
        if i.startswith('__CPROVER'): continue
        fn = i.rsplit('.', 1)[0]
        k = u.get(i, u.get(fn, u.get('*', 3)))
        lim.append(f'{i}:{k}')
    for i in u:
        if i != '*' and not any(x.startswith(i + ':') or x.startswith(i + '.') for x in lim): lim.append(f'{i}:{u[i]}')
    return ['--unwindset', ','.join(lim)] if lim else []

# --------------------------------------------------------------------------- one unit
def native(unit, d, vals, out):
    """replays drawn values against the real code; returns (confirmed, text)"""
    f = d / 'vals.txt'; f.write_text('\n'.join(map(str, vals)) + '\n')
    exe = d / 'nat'
    if not exe.exists():
        cmd = ['gcc', '-g', '-w', '-std=gnu11', '-fsanitize=address,bounds', '-fno-sanitize-recover=bounds', *incs(d), '-DVP_NATIVE',
               *[f'-D{x}' for x in unit.get('defines', [])], *[f'-D{x}' for x in unit.get('bmc_defines', [])],
               str(VERIF / 'units' / unit['file']), '-o', str(exe), '-lsqlite3', '-lpthread', '-lm', *unit.get('link', [])]
        rc, o, e = sh(cmd, 120, lim=False)
        if rc != 0: return False, 'native build failed: ' + e[-1500:]
    env_cmd = ['env', 'ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=98', str(exe), str(f)]
    rc, o, e = sh(env_cmd, 20, lim=False)
    txt = (o + e)[-3000:]
    if rc == 77: return False, 'assumption not met on replay: ' + txt
    if rc == 0: return False, 'replay finished without a failure'
    if rc == 'timeout': return False, 'replay did not end'
    return True, f'exit {rc}\n{txt}'

def bmc(unit, d0, res):
    """bounded search for a counterexample in the unannotated source"""
    d = Path(tempfile.mkdtemp(prefix='vpb_'))
    try:
        prepare(d, unit)
        repl = unit.get('bmc_replace', unit.get('replace', []))
        gb, err = goto(d, unit, 'BMC', repl)
        if gb is None: return dict(status='error', text=err)
        st, results, wall, txt = run_cbmc(gb, ['--trace', *unwind_args(unit.get('bmc_unwind', 16)),
                                          '--no-unwinding-assertions' if not unit.get('bounded_complete') else '--unwinding-assertions',
                                          *unit.get('bmc_flags', unit.get('flags', []))],
                                          unit.get('bmc_timeout', 330), unit.get('objbits', 9))
        if st != 'ok': return dict(status=st, text=txt, wall=wall)
        goals = [r for r in results if is_reach(r)]
        miss = [r['description'] for r in results if is_reach(r) and r['status'] == 'SUCCESS']
        results = [r for r in results if not is_reach(r)]
        bad = [r for r in results if r['status'] == 'FAILURE' and not is_nobody(r)]
        if unit.get('mode') == 'bounded' and not goals: miss.append('no goal at all')
        out = dict(miss='; '.join(miss), status='clean', wall=wall, obligations=len(results), discharged=len(results) - len(bad), failed=[], text='')
        if not bad: return out
        out['status'] = 'cex'
        # try the counterexamples natively, harness checks first
        bad.sort(key=lambda r: 0 if 'vpcheck' in r['description'] or 'vplemma' in r['description'] else 1)
        out['failed'] = [f"{r['property']}: {r['description']} ({r.get('sourceLocation', {}).get('file', '').replace(str(d), '')}:{r.get('sourceLocation', {}).get('line', '')})" for r in bad]
        out['confirmed'] = False
        seen = set()
        for r in bad[:12]:
            vals = []
            for s in r.get('trace', []):
                if s.get('stepType') == 'input' and s.get('inputID') == 'vp_in':
                    v = (s.get('values') or [{}])[0]
                    b = v.get('binary')
                    if b:
                        x = int(b, 2)
                        if x >= 1 << 63: x -= 1 << 64
                    else: x = int(re.sub(r'[^-0-9]', '', v.get('data', '0')) or 0)
                    vals.append(x)
            if tuple(vals) in seen: continue
            seen.add(tuple(vals))
            ok, t = native(unit, d, vals, out)
            out['native'] = t; out['vals'] = vals; out['which'] = r['property'] + ': ' + r['description']
            if ok: out['confirmed'] = True; break
        return out
    finally:
        if not ARGS.keep: shutil.rmtree(d, ignore_errors=True)
        else: print('bmc dir', d)

def in_server(name):
    return any(re.search(r'\b' + name + r'\s*\(', p.read_text(errors='replace')) for p in (REPO / 'src/server').glob('*.c'))

def run_unit(unit):
    t0 = time.time()
    res = dict(unit=unit['name'], function=unit.get('enforce') or unit.get('about', ''), kind=unit.get('mode', 'proof'),
               obligations=0, discharged=0, bounded_obligations=0, solver_s=0.0, verdict='', notes=[], failed=[])
    gone = [n for n in unit.get('helper', '').split() if not in_server(n)]
    if gone:
        res['verdict'] = 'left out'; res['wall'] = 0; res['notes'].append('there is no function ' + ', '.join(gone) + ' any more; what it did is judged by the units of its callers')
        return res
    if unit.get('mode') == 'bounded':
        x = bmc(unit, None, res)
        res['solver_s'] = x.get('wall', 0)
        if x['status'] == 'clean':
            res['bounded_obligations'] = x['obligations']
            res['verdict'] = 'pass' if x['obligations'] else 'error'
            if unit.get('mode') == 'bounded':
                miss = x['miss']
                if miss: res['verdict'] = 'error'; res['notes'].append('not reachable: ' + miss)
        elif x['status'] == 'cex':
            res['failed'] = x['failed']; res['cex'] = x
            if x['confirmed']: res['verdict'] = 'violation'
            else: res['verdict'] = 'violation_noinput'
        else:
            res['verdict'] = 'error'; res['notes'].append(f"bounded run: {x['status']} {x.get('text', '')}")
        res['wall'] = time.time() - t0
        return res
    d = Path(tempfile.mkdtemp(prefix='vp_'))
    try:
        src = prepare(d, unit)
        problems = annotate(src, unit.get('loops', []))
        changed = loops_changed(unit)
        gb = None
        if not problems:
            gb, err = goto(d, unit, 'PROOF', unit.get('replace', []))
            if gb is None: problems.append(err)
        why = ''
        if not problems:
            st, results, wall, txt = run_cbmc(gb, ['--unwinding-assertions', *user_unwind(gb, unit.get('unwind', 3)),
                                              *unit.get('flags', [])], unit.get('timeout', 420), unit.get('objbits', 9))
            res['solver_s'] = wall
            if st != 'ok': why = f'proof run: {st} {txt}'
            else:
                reach = [r for r in results if is_reach(r)]
                obl = [r for r in results if not is_reach(r)]
                bad = [r for r in obl if r['status'] == 'FAILURE']
                res['obligations'] = len(obl); res['discharged'] = len(obl) - len(bad)
                miss = [r['description'] for r in reach if r['status'] == 'SUCCESS']
                res['failed'] = [f"{r['property']}: {r['description']} ({r.get('sourceLocation', {}).get('file', '').replace(str(d), '')}:{r.get('sourceLocation', {}).get('line', '')})" for r in bad]
                if bad and all(is_nobody(r) for r in bad):
                    problems.append('calls a function without a body')
                    why = 'no body for ' + '; '.join(res['failed']); res['failed'] = []
                elif not bad and not miss and obl:
                    res['verdict'] = 'pass'
                elif bad: why = 'failed: ' + '; '.join(res['failed'][:5])
                elif miss: why = 'not reachable: ' + '; '.join(miss)
                else: why = 'no obligations'
        else: why = 'not applicable: ' + '; '.join(problems)
        if res['verdict'] != 'pass':
            res['notes'].append(why)
            only_unwind = res['failed'] and all('unwind' in f for f in res['failed'])
            x = bmc(unit, d, res)
            res['solver_s'] += x.get('wall', 0)
            if x['status'] == 'cex':
                res['cex'] = x
                res['failed'] = res['failed'] or x['failed']
                res['verdict'] = 'violation' if x['confirmed'] else 'violation_noinput'
            elif x['status'] == 'clean':
                if res['failed'] and not changed and not only_unwind:
                    # the loops are as they were when the invariants were written, so the
                    # failed obligation is about what the code does
                    res['verdict'] = 'violation_noinput'
                elif 'not reachable' in why:
                    res['verdict'] = 'error'
                else:
                    res['verdict'] = 'pass'; res['kind'] = 'bounded'
                    res['bounded_obligations'] = x['obligations']
                    res['obligations'] = res['discharged'] = 0
                    res['notes'].append('decided by the bounded run only')
            else:
                res['notes'].append(f"bounded run: {x['status']} {x.get('text', '')}")
                if res['failed'] and not changed and not only_unwind: res['verdict'] = 'violation_noinput'
                else: res['verdict'] = 'error'
        res['wall'] = time.time() - t0
        return res
    except Exception as ex:          # a broken run is never a violation
        import traceback
        res['verdict'] = 'error'; res['notes'].append(traceback.format_exc()); res['wall'] = time.time() - t0
        return res
    finally:
        if not ARGS.keep: shutil.rmtree(d, ignore_errors=True)
        else: print('proof dir', d)

SIGS = json.loads((VERIF / 'loopsigs.json').read_text()) if (VERIF / 'loopsigs.json').exists() else {}
def loops_changed(unit):
    for l in unit.get('loops', []):
        k = f"{l['file']}:{l['fn']}"
        if function_sigs(REPO / 'src' / l['file'], l['fn']) != SIGS.get(k): return True
    return False

def write_sigs():
    out = {}
    for u in UNITS:
        for l in u.get('loops', []):
            out[f"{l['file']}:{l['fn']}"] = function_sigs(REPO / 'src' / l['file'], l['fn'])
    (VERIF / 'loopsigs.json').write_text(json.dumps(out, indent=1, sort_keys=True) + '\n')

# --------------------------------------------------------------------------- a property
def run_property(pid, tier, only=None):
    t0 = time.time()
    units = [u for u in UNITS if pid in u['props'] and (tier == 'thorough' or u.get('tier', 'quick') == 'quick')]
    if only: units = [u for u in units if u['name'] in only]
    units = sorted(units, key=lambda u: -u.get('cost', 10))
    if not units: print('no units'); return 2
    if tier == 'thorough':
        units = [{**u, **u.get('thorough', {})} for u in units]
    with cf.ThreadPoolExecutor(max_workers=6) as ex:
        results = list(ex.map(run_unit, units))
    code = 0; viol = 0
    for f in (VERIF / 'replay').glob(f'{pid}_*'): f.unlink()
    known = load_known()
    for r in results:
        print(f"  {r['unit']:34s} {r['verdict']:18s} {r['kind']:8s} obligations {r['discharged']}/{r['obligations']}"
              f" bounded {r['bounded_obligations']} {r['wall']:.1f}s")
        for n in r['notes']: print('      ' + n[:600].replace('\n', '\n      '))
        if r['verdict'].startswith('violation'):
            (VERIF / 'replay').mkdir(exist_ok=True)
            rp = VERIF / 'replay' / f"{pid}_{r['unit']}.txt"
            x = r.get('cex', {})
            rp.write_text('\n'.join([f"property {pid}, unit {r['unit']}, function {r['function']}",
                'failed obligations:', *['  ' + f for f in r['failed']], 'verifier notes:', *r['notes'],
                '', 'bounded search for a failing input: ' + str(x.get('status')), *['  ' + f for f in x.get('failed', [])],
                'counterexample: ' + str(x.get('which')), 'drawn values (in the order in which the harness draws them):',
                ' '.join(map(str, x.get('vals', []))), 'native replay:', str(x.get('native')), '']))
            hit = [k for k in known if k[0] == pid and k[1] == r['unit'] and all(any(o in f for o in k[2]) for f in r['failed'])]
            if hit:
                print(f"KNOWN-FINDING: property={pid} {hit[0][3]}"); continue
            viol += 1; code = 1
            print(f"VIOLATION property={pid} replay={rp}" + ('' if r['verdict'] == 'violation' else ' no-failing-input-found'))
    if viol: code = 1
    elif any(r['verdict'] not in ('pass', 'left out') and not r['verdict'].startswith('violation') for r in results) or not any(r['verdict'] == 'pass' for r in results): code = 2
    evidence(pid, tier, units, results, time.time() - t0, viol)
    print(f"{pid}: exit {code}, {time.time() - t0:.1f} s")
    return code

def load_known():
    out = []
    p = VERIF / 'known_findings.txt'
    if p.exists():
        for l in p.read_text().splitlines():
            m = re.match(r'finding: property=(\w+) unit=(\S+) obligations=(\S+) (.*)', l)
            if m: out.append((m.group(1), m.group(2), m.group(3).split('|'), m.group(4)))
    return out

def evidence(pid, tier, units, results, wall, viol):
    enforced = {u['enforce'].split('/')[0] for u in UNITS if u.get('enforce')} | {x for u in UNITS for x in u.get('covers', [])}
    replaced = sorted({r.split('/')[0] for u in units for r in u.get('replace', [])})
    assumed = [r for r in replaced if r not in enforced]
    proof = [r for r in results if r['kind'] == 'proof']
    bounded = [r for r in results if r['kind'] != 'proof']
    cov = dict(obligations=sum(r['obligations'] for r in proof), discharged=sum(r['discharged'] for r in proof),
               checker_cmd='goto-cc; goto-instrument --dfcc h --enforce-contract F --replace-call-with-contract G... --apply-loop-contracts; cbmc ' + ' '.join(CHECKS) + ' --unwinding-assertions',
               trusted_base=['CBMC 6.11.0 front end, dfcc instrumentation, library models (memcpy, memmove, malloc, str*) and its SAT back end (MiniSat 2.2.1)',
                             *[f'assumed contract: {a}' + (f' - {TRUSTED[a]}' if a in TRUSTED else '') for a in assumed]],
               functions_under_contract=sorted({r['function'] for r in proof if r['function']}),
               bounded_functions=sorted({f"{r['function'] or r['unit']}" for r in bounded}),
               bounded_obligations=sum(r['bounded_obligations'] for r in bounded),
               bounds=[f"{u['name']}: {u['bound']}" for u in units if u.get('bound')],
               callee_contracts_used=replaced, backend='SAT (MiniSat via CBMC)', solver_s=round(sum(r['solver_s'] for r in results), 1),
               units=[{k: r[k] for k in ('unit', 'function', 'kind', 'verdict', 'obligations', 'discharged', 'bounded_obligations', 'solver_s', 'notes')} for r in results])
    p = PROPS[pid]
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=p.get('level', 'proof'), coverage=cov,
              assumptions=p.get('assumptions', []) + COMMON_ASSUMPTIONS, wall_s=round(wall, 1), violations=viol)
    if ev['level'] == 'other': cov['explanation'] = p['note']
    (VERIF / 'evidence').mkdir(exist_ok=True)
    (VERIF / 'evidence' / f'{pid}.json').write_text(json.dumps(ev, indent=1) + '\n')

COMMON_ASSUMPTIONS = [
    'machine arithmetic is modelled bit-precisely; signed overflow and conversion checks are off (gcc wraps), memory safety checks are on',
    'malloc does not fail inside of the verified functions',
    'loop termination is not proved where a loop contract has no decreases clause',
    'one call at a time: the server is a single process without threads in the verified functions',
]

if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--unit', action='append'); ap.add_argument('--keep', action='store_true')
    ap.add_argument('--setup', action='store_true'); ap.add_argument('--all', action='store_true'); ap.add_argument('--sigs', action='store_true'); ap.add_argument('--list', action='store_true')
    ARGS = ap.parse_args()
    if ARGS.setup:               # only looks whether the tools are there
        for t in ('cbmc', 'goto-cc', 'goto-instrument', 'gcc'):
            if not shutil.which(t): print('missing', t); sys.exit(1)
        sys.exit(0)
    if ARGS.sigs: write_sigs(); sys.exit(0)
    if ARGS.list:
        for u in UNITS: print(','.join(u['props']), u['name'], u.get('mode', 'proof'))
        sys.exit(0)
    if ARGS.all:
        bad = []
        for p in PROPS:
            DEADLINE = time.time() + 840
            if run_property(p, ARGS.tier): bad.append(p)
        print('not ok:', bad); sys.exit(1 if bad else 0)
    sys.exit(run_property(ARGS.prop, ARGS.tier, ARGS.unit))
