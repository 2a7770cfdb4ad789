#!/usr/bin/env python3
"""Mutation run over the contracts: which small edits does no check notice?

usage: mutate.py WORKTREE SCRATCH COUNT SEED [RUNS]
WORKTREE is a scratch git worktree of /repo, SCRATCH a directory for a copy of sim/ built against it.
Nothing is written to /repo or /verif. Prints one line per mutant; survivors end in SURVIVED.
"""
import os, random, re, subprocess, sys, shutil, time
WT, X, N, SEED = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
RUNS = sys.argv[5] if len(sys.argv) > 5 else '120'
FILES = sys.argv[6:] 
rng = random.Random(SEED)
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
files = [f for f in sh('git', '-C', WT, 'ls-files').stdout.split() if f.endswith('.rs') and
         re.match(r'(controller/src|liquidity_layer/src|price_aggregator/src|common/(math|rates|structs)/src)', f)]
if FILES: files = [f for f in files if any(x in f for x in FILES)]
OPS = [(' < ', ' <= '), (' > ', ' >= '), (' <= ', ' < '), (' >= ', ' > '), (' == ', ' != '), (' != ', ' == '), (' && ', ' || '),
       (' || ', ' && '), (' += ', ' -= '), (' -= ', ' += '), (' + ', ' - '), (' - ', ' + '), ('true', 'false'), ('false', 'true'),
       ('.min(', '.max('), ('.max(', '.min('), ('self.min(', 'self.max('), ('mul_half_up', 'div_half_up'), ('div_half_up', 'mul_half_up'),
       ('RAY_PRECISION', 'WAD_PRECISION'), ('AccountPositionType::Deposit', 'AccountPositionType::Borrow'),
       ('AccountPositionType::Borrow', 'AccountPositionType::Deposit'), ('supply_index', 'borrow_index'), ('borrow_index', 'supply_index'),
       ('loan_to_value', 'liquidation_threshold'), ('liquidation_threshold', 'loan_to_value'), ('first_', 'last_'), ('upper', 'lower'),
       ('.is_empty()', '.is_empty() == false'), ('self.require_not_paused();', ''), ('is_some()', 'is_none()'), ('is_none()', 'is_some()'),
       ('supplied', 'borrowed'), ('borrowed', 'supplied')]
def mutants():
    out = []
    for f in files:
        src = open(f'{WT}/{f}').read().split('\n')
        i = 0; com = False
        while i < len(src):
            l = src[i]; s = l.strip()
            if s.startswith('/*'): com = True
            if com:
                if '*/' in s: com = False
                i += 1; continue
            if s.startswith('//') or s.startswith('#[') or s.startswith('use ') or not s:
                i += 1; continue
            code = l.split('//')[0]
            if not re.search(r'\bfn\b|\btrait\b|\bimpl\b|\bwhere\b|^\s*\+', code):
                for a, b in OPS:
                    for m in re.finditer(re.escape(a), code):
                        if a in ('true', 'false') and re.search(r'\w', (code[m.start()-1:m.start()] + code[m.end():m.end()+1])): continue
                        out.append((f, i, i, l[:m.start()] + b + l[m.end():]))
                for m in re.finditer(r'(?<![\w.])(\d[\d_]*)(u64|u32|usize)?(?![\w.])', code):
                    v = int(m.group(1).replace('_', ''))
                    for nv in {v + 1, max(v - 1, 0)} - {v}:
                        out.append((f, i, i, l[:m.start()] + str(nv) + (m.group(2) or '') + l[m.end():]))
                for m in re.finditer(r'\((&?[\w.]+(?:\.clone\(\))?), (&?[\w.]+(?:\.clone\(\))?)([,)])', code):
                    if m.group(1) != m.group(2):
                        out.append((f, i, i, l[:m.start()] + f'({m.group(2)}, {m.group(1)}{m.group(3)}' + l[m.end():]))
                m = re.match(r'^(\s*)if (.*) \{$', code)
                if m and 'let ' not in m.group(2):
                    out.append((f, i, i, f'{m.group(1)}if !({m.group(2)}) {{'))
            if re.match(r'^\s*(self|cache|require!|[a-z_]+)(\.|\(|!)', code) and not s.startswith(('let', 'if', 'return', 'match', 'for')):
                # a whole statement
                d = 0; j = i
                while j < len(src):
                    c = src[j].split('//')[0]
                    d += c.count('(') + c.count('{') + c.count('[') - c.count(')') - c.count('}') - c.count(']')
                    if d <= 0 and c.rstrip().endswith(';'): break
                    if d < 0 or j - i > 14: j = -1; break
                    j += 1
                if j >= i and (i == 0 or src[i-1].strip().endswith((';', '{', '}', '')) ) and not src[i-1].strip().endswith(('=', '(', ',')):
                    out.append((f, i, j, ''))
            i += 1
    return out
ms = mutants(); rng.shuffle(ms)
print(f'{len(ms)} candidates', flush=True)
os.makedirs(f'{X}/v/evidence', exist_ok=True); os.makedirs(f'{X}/v/replays', exist_ok=True)
shutil.rmtree(f'{X}/sim', ignore_errors=True); shutil.copytree('/verif/sim', f'{X}/sim')
p = f'{X}/sim/Cargo.toml'; t = open(p).read().replace('/repo/', WT + '/'); open(p, 'w').write(t)
shutil.rmtree(f'{X}/third_party', ignore_errors=True); shutil.copytree('/verif/third_party', f'{X}/third_party')
shutil.copy('/verif/known-findings.txt', f'{X}/v/')
THREADS = os.environ.get('MUT_THREADS', '8')
env = dict(os.environ, CARGO_TARGET_DIR=f'{X}/target', VERIF_ROOT=f'{X}/v', VERIF_SEED='1')
props = 'P35 P02 P08 P07 P12 P09 P01 P03 P04 P05 P06 P10 P11 P13 P14 P15 P16 P17 P18 P19 P20 P21 P22 P23 P24 P25 P26 P27 P28 P29 P30 P31 P32 P33 P34 P35 P36 P37 P38 P39 P40'.split()
have = set(sh('/verif/target/release/lendsim', 'list').stdout.split()); props = [p for p in props if p in have]
done = 0
for f, i, j, new in ms:
    if done >= N: break
    path = f'{WT}/{f}'; orig = open(path).read(); src = orig.split('\n')
    old = '\n'.join(src[i:j+1])
    src[i:j+1] = [new] if new else ['']
    open(path, 'w').write('\n'.join(src))
    r = sh('cargo', 'build', '--release', '--offline', cwd=f'{X}/sim', env=env)
    if r.returncode: open(path, 'w').write(orig); continue
    done += 1; t0 = time.time(); hit = None
    for p in props:
        r = sh(f'{X}/target/release/lendsim', 'check', '--property', p, '--tier', 'quick', '--runs', RUNS, '--secs', '60', '--min-secs', '0', '--threads', THREADS, env=env)
        if r.returncode:
            hit = p + ' ' + (r.stdout.strip().split('\n') or [''])[0][:90]; break
    d = f'{f}:{i+1} | {" ".join(old.split())[:150]}  ==>  {" ".join(new.split())[:150]}'
    print(('killed ' + hit if hit else 'SURVIVED'), '|', d, f'| {time.time()-t0:.0f}s', flush=True)
    open(path, 'w').write(orig)
