"""C11: the built MPI demo under the real launcher (the model of it is explored by checks/demompi.cpp)."""
import concurrent.futures, json, os, re, shutil, tempfile
import drv


def complete(n):
    return n, [(u, v, 1) for u in range(n) for v in range(u + 1, n)]


def text(g, style=0):
    n, es = g
    s = 'p edge %d %d\n' % (n, len(es)) if style == 0 else 'c file\np col %d %d\n# edges\n' % (n, len(es))
    return s + '\n'.join('%s %d %d %s' % ('ae'[(i + style) % 2], u + 1, v + 1, w) for i, (u, v, w) in enumerate(es)) + ('\n' if style == 0 else '')


def k4plus(*extra):
    n, es = complete(4)
    return n, es + list(extra)


K5W = (5, [(u, v, 1 + (3 * u + 5 * v) % 4) for u in range(5) for v in range(u + 1, 5)])
# (name, graph, weight of a minimum cycle basis or None if the file must be rejected)
FILES = [
    ('loop', (1, [(0, 0, 1)]), None), ('loop last', k4plus((2, 2, 1)), None), ('parallel', (2, [(0, 1, 1), (1, 0, 2)]), None), ('parallel last', k4plus((3, 1, 5)), None),
    ('zero', (3, [(0, 1, 1), (1, 2, 0), (2, 0, 1)]), None), ('negative', (3, [(0, 1, 1), (1, 2, 2), (2, 0, -0.5)]), None), ('all', (3, [(0, 1, -1), (1, 0, 2), (2, 2, 0)]), None),
    ('negative bridge', (2, [(0, 1, -1)]), None),
    ('empty', (0, []), 0), ('vertices', (3, []), 0), ('path', (3, [(0, 1, 2), (1, 2, 3)]), 0), ('triangle', (3, [(0, 1, 1234567), (1, 2, 1.5), (2, 0, 1.25)]), 1234569.75),
    ('k4', complete(4), 9), ('two squares', (8, [(i, (i + 1) % 4, 2) for i in range(4)] + [(4 + i, 4 + (i + 1) % 4, 3) for i in range(4)]), 20),
]
ALGS = [[], ['--signed=false', '--fvstrees=true'], ['--signed=false', '--isotrees=true']]


def violates(f):
    return f[2] is None


def one(exe, mpiexec, f, args, P, style, keep=True, limit=25):
    """Runs the demo; returns None or what is wrong."""
    d = tempfile.mkdtemp(prefix='c11.', dir=os.path.dirname(exe))
    try:
        fn = os.path.join(d, 'g.txt')
        with open(fn, 'w') as fh:
            fh.write(text(f[1], style))
        # keep: the launcher leaves the other ranks alone when one ends with non-zero status (and then reports status 0 itself)
        cmd = (['--mca', 'orte_abort_on_non_zero_status', '0'] if keep else []) + ['sh', '-c', '"$@" >"$0/out.$OMPI_COMM_WORLD_RANK" 2>"$0/err.$OMPI_COMM_WORLD_RANK"; r=$?; echo $r >"$0/rc.$OMPI_COMM_WORLD_RANK"; exit $r', d, exe] + args + ['--input-file=' + fn]
        rc, log = mpiexec(P, cmd, limit)

        def rd(k, r):
            p = os.path.join(d, '%s.%d' % (k, r))
            return open(p, errors='replace').read() if os.path.exists(p) else ''
        rcs = [rd('rc', r).strip() for r in range(P)]
        out = ''.join(rd('out', r) for r in range(P))
        err = ''.join(rd('err', r) for r in range(P))
        weights = re.findall(r'MCB weight = (\S+)', out)
        tail = (err + out)[-200:].replace('\n', '|')
        if rc in (None, 124, 137):
            return 'does not terminate (ranks ended: %s of %d)' % (sum(1 for x in rcs if x), P)
        if violates(f):
            if rc == 0 and (not keep or not all(rcs)):
                return 'file is accepted: exit status 0: ' + tail
            if '0' in rcs:
                return 'rank %d ends with status 0 on a rejected file: %s' % (rcs.index('0'), tail)
            if not (err + out).strip():
                return 'no diagnostic'
            if weights or 'MCB cycles' in out:
                return 'an algorithm ran on a rejected file'
            return None
        if rc != 0 or any(x != '0' for x in rcs):
            return 'valid file: launcher status %s, ranks %s: %s' % (rc, ','.join(rcs), tail)
        if not weights:
            return 'no weight printed: ' + tail
        for w in weights:
            try:
                ok = abs(float(w) - f[2]) <= 1e-14 * abs(f[2])
            except ValueError:
                ok = False
            if not ok:
                return 'printed weight %s, the minimum cycle basis weighs %r' % (w, f[2])
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def real(rep, exe, mpiexec, tier):
    for i in range(3):
        rc, log = mpiexec(2, ['true'], 60)
        if rc == 0:
            break
    else:
        rep.extra['real_mpi'] = 'not available: ' + log[-300:]
        rep.exhaustive = False
        return
    if rep.violations:
        return
    jobs = []
    quick = tier == 'quick'
    for i, f in enumerate(FILES):
        for P in (1, 2, 3, 5) if quick else (1, 2, 3, 4, 5, 6, 8):
            for a in ([ALGS[(i + P) % 3]] if quick else ALGS + [['--signed=false'], ['-v=true', '--printcycles=true']]):
                jobs.append((f, a, P, (i + P) % 2, True))
        if violates(f):
            jobs += [(f, ALGS[i % 3], P, i % 2, False) for P in (1, 3)]

    def go(j):
        if len(rep.violations) >= 2:
            return j, None
        e = one(exe, mpiexec, *j)
        if e:   # confirm
            e2 = one(exe, mpiexec, *j)
            if not e2:
                rep.extra.setdefault('unconfirmed', []).append('%s P=%d %s: %s' % (j[0][0], j[2], ' '.join(j[1]), e))
            e = e2
        return j, e
    n = 0
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for fut in concurrent.futures.as_completed([ex.submit(go, j) for j in jobs]):
            j, e = fut.result()
            n += 1
            if e:
                rep.violation(json.dumps({'file': j[0], 'args': j[1], 'P': j[2], 'style': j[3], 'keep': j[4]}), 'mcb-dimacs-mpi under mpiexec -n %d %s, file "%s": %s' % (j[2], ' '.join(j[1]), j[0][0], e), 'demompireal')
    rep.extra['real_mpi_launches'] = n
    rep.validated += n
