"""Entry points, modular boundaries and the parallel driver shared by the rules."""
import os
import re
import signal
import time
import traceback
from multiprocessing import get_context

from .model import Program, AnalysisError
from .interp import Interp, LOOKUPS, Event
from .report import Finding
from .values import *
from .contracts import BASE_FUNCS, RET


def base(prog):
    """Functions of the analysed tree that the properties name: the baseline functions that still exist."""
    return [prog.funcs[k] for k in sorted(prog.funcs) if k in BASE_FUNCS]


def is_private(f):
    n = f.qual.split('.')[-1]
    if n == 'setter':
        n = f.qual.split('.')[-2]
    return n.startswith('_') and not (n.startswith('__') and n.endswith('__'))


def top(f):
    return f.outer is None


def called_names(prog):
    """Simple names that are called or referred to anywhere."""
    import ast
    out = {}
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute):
                out[n.attr] = out.get(n.attr, 0) + 1
            elif isinstance(n, ast.Name):
                out[n.id] = out.get(n.id, 0) + 1
    return out


def entries(prog, private=False):
    """Functions to analyse on their own: the baseline functions, and new functions that nothing refers to.
    New helpers that are referred to are analysed in place, in their callers."""
    refs = called_names(prog)
    out = []
    for k in sorted(prog.funcs):
        f = prog.funcs[k]
        if not top(f):
            continue
        if k in BASE_FUNCS:
            if private or not is_private(f):
                out.append(f)
        else:
            n = f.qual.split('.')[-1]
            if n == 'setter':
                n = f.qual.split('.')[-2]
            if refs.get(n, 0) == 0 or n.startswith('__'):
                out.append(f)
    return out


def boundaries(prog, inline=(), extra=None):
    """Calls that are not followed: public baseline functions, except those in `inline`."""
    at = dict(LOOKUPS)
    for f in base(prog):
        if top(f) and not is_private(f) and f.qual not in inline:
            at[f.qual] = RET.get(f.qual, at.get(f.qual, 'any'))
    for q in inline:
        at.pop(q, None)
    if extra:
        at.update(extra)
    return at


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


_G = {}


def _job(i):
    fn, items, limit = _G['fn'], _G['items'], _G['limit']
    signal.signal(signal.SIGPROF, _alarm)        # processor time: the outcome does not depend on the load
    t = time.time()
    last = None
    caps = _G['caps']
    for n, cap in enumerate(caps):
        signal.setitimer(signal.ITIMER_PROF, limit if n == 0 else max(20, limit // 2))
        try:
            r = fn(items[i], cap)
            signal.setitimer(signal.ITIMER_PROF, 0)
            r['cap'] = cap
            r['secs'] = time.time() - t
            return i, r, None
        except Timeout:
            last = 'timeout'
        except RecursionError:
            last = 'recursion'
        except AnalysisError as e:
            signal.setitimer(signal.ITIMER_PROF, 0)
            return i, None, 'AnalysisError: %s' % e
        except Exception:
            signal.setitimer(signal.ITIMER_PROF, 0)
            return i, None, traceback.format_exc()
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    return i, None, last


def sweep(ck, items, fn, limit=150, caps=(64, 12), label=str, must=()):
    """Run fn(item, cap) for every item in parallel. fn returns a dict with findings, obligations, functions, stats."""
    _G.update(fn=fn, items=list(items), limit=limit, caps=caps)
    ctx = get_context('fork')
    results = []
    with ctx.Pool(min(8, max(1, len(_G['items'])))) as pool:
        for i, r, err in pool.imap_unordered(_job, range(len(_G['items'])), chunksize=1):
            it = label(_G['items'][i])
            if err in ('timeout', 'recursion'):
                ck.incomplete.append('%s (%s)' % (it, err))
                if it in must:
                    raise AnalysisError('%s could not be analysed: %s' % (it, err))
                continue
            if err:
                raise AnalysisError('%s: %s' % (it, err))
            results.append((i, r))
    results.sort(key=lambda x: x[0])
    for i, r in results:
        for f in r.get('findings', ()):
            ck.report(f)
        for o in r.get('obligations', ()):
            ck.ob(*o)
        ck.functions.update(r.get('functions', ()))
        for k, v in r.get('stats', {}).items():
            ck.add(**{k: v})
        if r.get('secs', 0) > 20:
            ck.add(slow_entries=1)
    return [r for _, r in results]


def pack(it, findings, obligations=(), **extra):
    d = dict(findings=list(findings), obligations=list(obligations), functions=set(it.analysed),
             stats=dict(paths=it.n_paths, events=it.n_events, calls_followed=it.n_calls, merges_at_cap=it.capped))
    d.update(extra)
    return d


def dotted(v):
    """Dotted name of an external value."""
    return v[1] if v[0] == 'g' else None


def name_of(ev):
    """Name of an external call without the module part of an instance."""
    return ev.args[0]


def arg(ev, i=None, kw=None):
    """Positional or keyword argument of an XCALL event."""
    name, recv, args, kwargs = ev.args[:4]
    if i is not None and i < len(args) and args[i][0] != 'kw':
        return args[i]
    if kw is not None:
        for k, v in kwargs:
            if k == kw:
                return v
    return None


def unwrap(v, tags=('title', 'strip', 'lower', 'str')):
    while v[0] == 'o' and v[1] in tags and len(v) > 2:
        v = v[2]
    return v


def exists_call(st_conds, pred):
    return any(pred(v) for v in st_conds)
