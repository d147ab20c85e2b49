"""Running C++ simulation workers: split the seeds over processes, merge their
statistics, and gate every violation before it is believed:
  1. the run was repeated with the same seed in the worker (same event hash),
  2. its minimised replay is executed twice in fresh processes and must show the
     same violation with the same event hash both times.
Anything else is an error of the machinery (exit 2), never a violation."""
import json
import re
import os
import vp


def last_json(out):
    for line in reversed(out.strip().splitlines()):
        if line.startswith('{'):
            try:
                return json.loads(line)
            except ValueError:
                pass
    return None


def replay_argv(v):
    """argv (after the binary) replaying one violation record."""
    if 'argv' in v:
        return list(v["argv"])
    a = ['--replay', '--run-seed', str(v['run_seed']), '--case', v['case']]
    if v.get('script'):
        a += ['--script', v['script']]
    if v.get('drop'):
        a += ['--drop', v['drop']]
    return a


def do_replay(binary, argv, timeout=120):
    rc, out, err = vp.run_worker([binary] + argv, timeout=timeout)
    d = last_json(out)
    if d is None:
        return dict(bad=rc != 0, why='CRASH: worker ended with status %d' % rc,
                    hash='crash%d' % rc)
    return d


def gate(binary, v, timeout=120):
    argv = replay_argv(v)
    a = do_replay(binary, argv, timeout)
    b = do_replay(binary, argv, timeout)
    if not a['bad'] or a != b or (v.get('hash') and a['hash'] != v['hash']):
        raise vp.CheckError('a reported violation does not replay exactly: '
                            '%r -> %r / %r' % (v, a, b))
    return a


def explore(chk, bins, extra, runs, budget, chunk=None, workers=None,
            timeout=None, first=0, weight=None):
    """bins: {name: path}.  runs: number of simulated runs per binary.
    Returns (merged stats, samples, per binary info, violations)."""
    jobs = []
    if chunk is None:
        chunk = max(1, (runs + 2) // 3)
    for k in range(0, runs, chunk):
        for name, path in bins.items():
            jobs.append((name, path, first + k, min(chunk, runs - k)))
    per = max(2.0, budget * (workers or vp.NPROC) / max(1, len(jobs)))
    timeout = timeout or per * 4 + 120

    def one(j):
        name, path, f, n = j
        cmd = [path] + extra + ['--seed', str(chk.seed), '--first', str(f),
                                '--runs', str(n), '--budget', '%.1f' % per]
        rc, out, err = vp.run_worker(cmd, timeout=timeout)
        d = last_json(out)
        if d is None or rc not in (0, 1):
            return name, cmd, rc, None, out + err
        return name, cmd, rc, d, ''
    res = vp.parallel([(lambda j=j: one(j)) for j in jobs])
    stats, samples, info, viol, nondet = {}, [], {}, [], []
    for name, cmd, rc, d, txt in res:
        if d is None:
            viol.append((name, crash(cmd, rc, txt, timeout)))
            continue
        if d.get('nondet'):
            nondet.append('simulation of %s is not deterministic: %s'
                          % (name, d.get('nondet_what')))
        for k, v in d['stats'].items():
            stats[k] = stats.get(k, 0) + v
        i = info.setdefault(name, dict(runs=0, wall=0.0, batch=[]))
        i['runs'] += d['stats'].get('runs', 0)
        i['wall'] = round(i['wall'] + d.get('wall', 0), 2)
        i['batch'].append(d.get('batch'))
        i['cases'] = d.get('ncases')
        if len(samples) < 12:
            samples += [dict(s, binary=name) for s in d.get('samples', [])[:1]]
        for v in d.get('violations', []):
            viol.append((name, v))
    if nondet:
        # Undefined behaviour in a broken tree can make some runs unrepeatable.
        # It is never reported as such; a violation that does replay exactly
        # still stands on its own, and without one there is no answer.
        for name, v in viol:
            try:
                gate(bins[name], v)
                break
            except vp.CheckError:
                pass
        else:
            raise vp.CheckError(nondet[0])
    return stats, samples, info, viol


def crash(cmd, rc, txt, timeout):
    """A worker died: find the run and make it a replayable record."""
    rc2, out2, err2 = vp.run_worker(cmd, timeout=timeout,
                                    env=dict(VSIM_TRACE='1'))
    if rc2 != rc:
        raise vp.CheckError('worker died with status %d then %d: %s\n%s' %
                            (rc, rc2, ' '.join(cmd), txt[-2000:]))
    run = None
    for line in err2.splitlines():
        if line.startswith('R '):
            run = int(line.split()[1])
    if run is None:
        raise vp.CheckError('worker cannot start (%d): %s\n%s' % (
            rc, ' '.join(cmd), txt[-2000:]))
    argv = list(cmd[1:])
    argv[argv.index('--first') + 1] = str(run)
    argv[argv.index('--runs') + 1] = '1'
    return dict(key='CRASH', why='CRASH: the process %s during run %d' % (
        'did not end (killed)' if rc == -9999 else 'died with status %d' % rc,
        run), text=txt[-800:], argv=argv, run=run)


def report(chk, bins, viol, engine, limit=6, timeout=120):
    done, err = 0, None
    for name, v in viol:
        if done >= limit:
            break
        try:
            g = gate(bins[name], v, timeout)
        except vp.CheckError as e:
            err = err or e
            continue
        done += 1
        key = '%s/%s' % (name, v.get('key', ''))
        chk.violation('%s [%s] %s' % (name, v.get('text', ''), g['why']),
                      dict(engine=engine, binary=name, argv=replay_argv(v),
                           expect=dict(why=g['why'], hash=g['hash']),
                           detail={k: w for k, w in v.items()
                                   if k not in ('argv',)}),
                      '%s-%s' % (name, vp.sha(key)[:10]), known_key=key)
    if err and not done:
        raise err


def replay_file(chk, bins, data):
    d = do_replay(bins[data['binary']], data['argv'])
    print('replayed: %s' % json.dumps(d))
    if d['bad']:
        same = d['hash'] == data['expect']['hash']
        print('event hash %s the recorded one' % ('equals' if same else 'differs from'))
        print('VIOLATION property=%s replay=%s' % (chk.prop, chk.args.replay))
        raise SystemExit(1)
    print('the recorded violation does not occur on this tree')
    raise SystemExit(0)


# what a program may call that the simulated runtimes lack is no finding
STUB = re.compile(r'(?:cuda|hip|sycl|__h|__dev)\w*[^\n]{0,40}(?:was not declared|'
                  r'has not been declared|is not a member|has no member)|'
                  r"is not a member of .{0,3}sycl|No such file|Killed|No space")


def programs(chk, make, prefixes, replay, data):
    """make() builds generated programs; one that does not build with a backend
    violates the property: it has no behaviour there at all."""
    try:
        bins = make()
    except vp.CompileError as e:
        if not e.name.startswith(prefixes) or '_core' in e.name or STUB.search(e.out):
            raise
        at = re.search(r'[^\n]*(?:error:|undefined reference|multiple definition)[^\n]*', e.out)
        print('%s: %s' % (e.name, at.group(0) if at else e.out[:500]))
        if replay:
            print('VIOLATION property=%s replay=%s' % (chk.prop, chk.args.replay))
            raise SystemExit(1)
        chk.violation('BUILD: the programs in %s do not build' % e.name,
                      dict(data, no_build=e.name, output=e.out[:5000]),
                      'build-' + vp.sha(e.name)[:10])
        chk.finish(dict(evaluations=0, distinct_nontrivial=0, samples=[e.name],
                        rule='the generated programs do not build'))
    if replay and replay.get('no_build'):
        print('the recorded violation does not occur on this tree')
        raise SystemExit(0)
    return bins
