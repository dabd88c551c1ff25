"""Shared driver: builds the modules a property needs, runs its analysis tasks
in parallel worker processes, writes the evidence file and the verdict."""
import os, sys, json, time, re, threading, traceback, multiprocessing as mp
from concurrent.futures import ThreadPoolExecutor
from . import build, llir

VERIF = build.VERIF
threading.stack_size(512 << 20)
sys.setrecursionlimit(1000000)

KEEP_RS = (r'(8portable8compress$|8portable12compress_xof$|10portable648compress$|10portable6412compress_xof$'
           r'|5sse418compress$|5sse4112compress_xof$|4avx24hash8$|5hash\d+$|9hash_many|8Platform\w*(8compress|12compress_xof)'
           r'|14reference_impl8compress$)')
KEEP_C = r'(^hash_many|^compress|^hash\d+|^hash_one|^baokeshed64)'


class Fatal(Exception):
    """the analysis could not be set up (missing anchor, build failure)"""


def _rs():
    p = build.rust_ll(('c',))
    return build.normalise(build.link([p['baokeshed'], p['vharness'], p['reference_impl']], 'rs'), KEEP_RS, 'n-rs')


def _ckern(fam, arch):
    def go():
        kinds = ('portable', 'sse41', 'avx2', 'avx512') if arch == 'x86' else ('portable', 'neon')
        files = []
        for k in kinds:
            for f, p in build.c_kernel_ll(k, tag=arch, neon=arch != 'x86').items():
                if ('64_' in f) == (fam == 64): files.append(p)
        return build.normalise(build.link(files, f'c{fam}{arch}'), KEEP_C, f'n-c{fam}{arch}')
    return go


MODS = {
    'rs': _rs,
    'c32x': _ckern(32, 'x86'), 'c64x': _ckern(64, 'x86'),
    'c32n': _ckern(32, 'arm'), 'c64n': _ckern(64, 'arm'),
}
_mods = {}


def load(keys):
    keys = [k for k in keys if k not in _mods]
    with ThreadPoolExecutor(8) as ex:
        paths = dict(zip(keys, ex.map(lambda k: MODS[k](), keys)))
    for k, p in paths.items():
        _text[k] = p
        _mods[k] = llir.Module(open(p).read())
    return _mods


_text = {}
def module_text(k): return open(_text[k]).read()


def module(k):
    return _mods[k]


def find(mod, pat, what=None, many=False):
    """function(s) whose symbol matches pat"""
    r = [n for n in mod.fns if re.search(pat, n)]
    if many: return r
    if not r: raise Fatal(f'anchor not found: {what or pat}')
    return r[0]


class Out:
    """result of one task"""
    def __init__(s, label):
        s.label = label
        s.viol, s.oblig, s.stats, s.note = [], {}, {}, []

    def take(s, E):
        for v in E.viol: s.viol.append(dict(rule=v['rule'], msg=v['msg'], where=v['where']))
        for k, n in E.oblig.items(): s.oblig[k] = s.oblig.get(k, 0) + n
        s.stats['functions'] = sorted(set(s.stats.get('functions', [])) | E.stats['functions'])
        from . import ai
        if ai.WATCH:
            from . import p_ct
            p_ct.judge(s, E)
        for k in ('instructions', 'loops', 'fixpoint_passes', 'states'):
            s.stats[k] = s.stats.get(k, 0) + E.stats[k]

    def merge(s, o):
        s.viol += o.viol
        s.note += o.note
        for k, n in o.oblig.items(): s.oblig[k] = s.oblig.get(k, 0) + n
        for k, v in o.stats.items(): s.stats[k] = sorted(set(s.stats.get(k, [])) | set(v)) if k == 'functions' else s.stats.get(k, 0) + v

    def bad(s, rule, msg, where=''):
        s.ok(rule)
        s.viol.append(dict(rule=rule, msg=msg, where=where))

    def ok(s, rule, n=1): s.oblig[rule] = s.oblig.get(rule, 0) + n

    def check(s, cond, rule, msg, where=''):
        s.ok(rule)
        if not cond: s.viol.append(dict(rule=rule, msg=msg, where=where))
        return bool(cond)


_tasks = []


def _one(i, q):
    label, fn = _tasks[i]
    o = Out(label)
    t = time.time()

    def go():
        from . import ai
        try:
            fn(o)
        except (ai.Unsupported, Fatal) as e:
            o.bad('unproved', f'{label}: not shown to hold: {e}')
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            o.bad('unproved', f'{label}: analysis did not finish: {type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})')
            if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
    th = threading.Thread(target=go)
    th.start(); th.join()
    o.stats['wall_s'] = round(time.time() - t, 2)
    q.put((i, o.__dict__))


def run_tasks(tasks, jobs=8, limit=780):
    """tasks: [(label, fn(Out))]; forked workers share the parsed modules"""
    global _tasks
    _tasks = tasks
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    res = {}
    todo = list(range(len(tasks)))
    live = {}
    t0 = time.time()
    while todo or live:
        while todo and len(live) < jobs:
            i = todo.pop(0)
            p = ctx.Process(target=_one, args=(i, q))
            p.start()
            live[i] = p
        try:
            i, d = q.get(timeout=0.2)
            res[i] = d
            live.pop(i).join()
            continue
        except Exception as e:
            if type(e).__name__ != 'Empty': raise
        for i, p in list(live.items()):
            if not p.is_alive() and i not in res:
                try:
                    j, d = q.get(timeout=1)
                    res[j] = d
                    live.pop(j).join()
                    break
                except Exception:
                    o = Out(tasks[i][0]); o.bad('unproved', f'{tasks[i][0]}: analysis process ended early (exit {p.exitcode})')
                    res[i] = o.__dict__
                    live.pop(i)
        if time.time() - t0 > limit:
            for i, p in live.items():
                p.kill()
                o = Out(tasks[i][0]); o.bad('unproved', f'{tasks[i][0]}: analysis did not finish within {limit} s')
                res[i] = o.__dict__
            for i in todo:
                o = Out(tasks[i][0]); o.bad('unproved', f'{tasks[i][0]}: analysis not started within {limit} s')
                res[i] = o.__dict__
            break
    return [res[i] for i in sorted(res)]


def known():
    p = os.path.join(VERIF, 'known-findings.jsonl')
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'): r.append(json.loads(l))
    return r


def finish(pid, tier, results, level, explanation, assumptions, t0, floor=None, rules=None):
    """write evidence, print verdict, return exit status"""
    if rules and os.environ.get('VERIF_RULES') != 'all':
        # the same analysis serves several properties; each reports its own rules, and everything left undecided
        rules = set(rules) | {'unproved', 'anchors', 'fatal', 'bounds', 'frame', 'panic', 'uninit'}
        for r in results:
            r['viol'] = [v for v in r['viol'] if v['rule'] in rules]
            r['oblig'] = {k: n for k, n in r['oblig'].items() if k in rules}
    viol, seen, kf = [], set(), []
    for r in results:
        for v in r['viol']:
            k = (v['rule'], v['msg'])
            if k in seen: continue
            seen.add(k)
            hit = [x for x in known() if x.get('property') == pid and x.get('status', 'open') == 'open' and x['rule'] == v['rule'] and re.search(x['match'], v['msg'])]
            if hit: kf.append((hit[0], v)); continue
            viol.append(dict(task=r['label'], **v))
    oblig = {}
    funcs = set()
    tot = {}
    for r in results:
        for k, n in r['oblig'].items(): oblig[k] = oblig.get(k, 0) + n
        funcs |= set(r['stats'].get('functions', []))
        for k in ('instructions', 'loops', 'fixpoint_passes', 'states'): tot[k] = tot.get(k, 0) + r['stats'].get(k, 0)
    # fail closed: each rule must have had something to decide
    for k, n in (floor or {}).items():
        if oblig.get(k, 0) < n and not viol:
            viol.append(dict(task='anchors', rule='anchors', msg=f'rule {k} decided {oblig.get(k, 0)} obligations, fewer than the {n} the code base has', where=''))
    total = sum(oblig.values())
    EV = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
    os.makedirs(EV, exist_ok=True)
    from .kern import short
    cov = dict(explanation=explanation, obligations=total, discharged=total - len(viol) - len(kf), obligations_by_rule=oblig,
               tasks=[dict(label=r['label'], obligations=sum(r['oblig'].values()), violations=len(r['viol']), wall_s=r['stats'].get('wall_s'), notes=r['note'][:20]) for r in results],
               functions_analysed=sorted({short(f) for f in funcs}), functions_count=len(funcs), **tot, sources=build.sources())
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=level, coverage=cov,
              assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=viol)
    json.dump(ev, open(os.path.join(EV, pid + '.json'), 'w'), indent=1)
    for x, v in kf:
        print(f'KNOWN-FINDING: property={pid} {x["what"]}')
    print(f'{pid}: {total} obligations in {len(results)} tasks over {len(funcs)} functions, {len(viol)} violations, {ev["wall_s"]} s')
    if viol:
        p = os.path.join(EV, pid + '.violations.json')
        json.dump(viol, open(p, 'w'), indent=1)
        for v in viol[:12]: print(f'  [{v["rule"]}] {v["msg"][:400]}  ({v["where"]})')
        print(f'VIOLATION property={pid} replay={p}')
        return 1
    return 0
