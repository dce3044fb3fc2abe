import os, sys, re, json
import drv, headers, demos
from drv import VERIF, NCPU, CheckError, run_harness

EXACT = ('mcb_sva_signed', 'mcb_sva_fvs_trees', 'mcb_sva_iso_trees')
HARNESS = {}   # name -> build function, for replay


def tmo(tier, quick=420, thorough=3300):
    return quick if tier == 'quick' else thorough


def build_exact(b, prop):
    futs = [b.compile('adapters/exact.cpp', ('VF_ALG=' + a,)) for a in EXACT]
    futs += [b.compile('checks/exact.cpp', ('PROP=%d' % prop,)), b.compile('fw/arena.cpp')]
    return b.link('exact%d' % prop, futs)


EXACT_TBB = ('mcb_sva_signed_tbb', 'mcb_sva_fvs_trees_tbb', 'mcb_sva_iso_trees_tbb')


def build_inexact(b):
    futs = [b.compile('adapters/exact.cpp', ('VF_ALG=' + a,)) for a in EXACT]
    futs += [b.compile('adapters/exact.cpp', ('VF_ALG=' + a, 'VF_TBB')) for a in EXACT_TBB]
    futs += [b.compile('checks/inexact.cpp'), b.compile('fw/arena.cpp')]
    return b.link('inexact', futs)


APPROX_TBB = ('approx_mcb_sva_signed_tbb', 'approx_mcb_sva_fvs_trees_tbb', 'approx_mcb_sva_iso_trees_tbb')
SHADOW_TBB = os.path.join(VERIF, 'shadow/tbb')
WRAP = ['-Wl,--wrap=' + f for f in ('memcpy', 'memmove', 'memset', 'pthread_mutex_lock', 'pthread_mutex_unlock')]


def build_tbbsched(mode):
    def f(b):
        if mode == 'real':
            kw, defs = {}, ()
        else:
            kw, defs = {'pre_inc': (SHADOW_TBB,)}, ()
            if mode == 'race':
                kw['flags'] = ('-fsanitize=thread', '-fno-builtin-memcpy', '-Wno-tsan'); kw['opt'] = ('-O1', '-DNDEBUG')
        futs = [b.compile('adapters/exact.cpp', ('VF_ALG=' + a,), tag=mode, **kw) for a in EXACT_TBB]
        futs += [b.compile('adapters/approx.cpp', ('VF_ALG=' + a,), tag=mode, **kw) for a in APPROX_TBB]
        if mode == 'real':
            futs += [b.compile('checks/tbbsched.cpp', ('VF_REAL',)), b.compile('fw/arena.cpp')]
            return b.link('tbbreal', futs)
        futs += [b.compile('adapters/racy.cpp', tag=mode, **kw)]
        futs += [b.compile('checks/tbbsched.cpp', ('VF_RACE',) if mode == 'race' else (), pre_inc=(SHADOW_TBB,)), b.compile('fw/vsched.cpp', ('VF_WRAP',))]
        return b.link('tbb' + mode, futs, flags=WRAP, libs=['-lboost_timer', '-lboost_chrono', '-lpthread'])
    return f


SHADOW_MPI = os.path.join(VERIF, 'shadow/mpi')
MPI_ALGS = ('mcb_sva_signed_mpi', 'mcb_sva_fvs_trees_mpi', 'mcb_sva_fvs_trees_tbb_mpi', 'mcb_sva_iso_trees_mpi', 'mcb_sva_iso_trees_tbb_mpi')


def build_mpisched(b):
    kw = {'pre_inc': (SHADOW_MPI, SHADOW_TBB), 'config': 'mpi'}
    futs = [b.compile('adapters/mpi.cpp', ('VF_ALG=' + a,), **kw) for a in MPI_ALGS]
    lst = b.compile('adapters/mpi.cpp', ('VF_ALG=mcb_sva_signed_mpi', 'VF_LIST'), **kw)
    futs += [b.compile('adapters/mpictl.cpp', **kw), b.compile('fw/vmpi.cpp'), b.compile('fw/vsched.cpp', tag='plain')]
    try:
        lst.result()
        futs = [lst] + futs
        have = ('HAVE_LIST',)
    except CheckError:
        have = ()   # graphs with list-stored vertices are an optional configuration
    futs += [b.compile('checks/mpisched.cpp', have, pre_inc=(SHADOW_MPI, SHADOW_TBB))]
    return b.link('mpisched', futs, libs=['-Wl,-z,muldefs', '-lboost_serialization', '-lboost_timer', '-lboost_chrono', '-lpthread'])


HARNESS['mpisched'] = build_mpisched


def build_mpiconf(b):
    kw = {'pre_inc': (SHADOW_MPI, SHADOW_TBB), 'config': 'mpi'}
    futs = [b.compile('adapters/mpi.cpp', ('VF_ALG=' + a,), **kw) for a in MPI_ALGS]
    futs += [b.compile('fw/vmpi.cpp'), b.compile('fw/vsched.cpp', tag='plain'), b.compile('checks/mpiconf.cpp', pre_inc=(SHADOW_MPI, SHADOW_TBB))]
    return b.link('mpiconf', futs, libs=['-Wl,-z,muldefs', '-lboost_serialization', '-lboost_timer', '-lboost_chrono', '-lpthread'])


MPI_INC = ('/usr/lib/x86_64-linux-gnu/openmpi/include', '/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi')
MPI_LIBS = ['-Wl,-z,muldefs', '-lboost_mpi', '-lboost_serialization', '-ltbb', '-lboost_timer', '-lboost_chrono', '-lmpi_cxx', '-lmpi', '-L/usr/lib/x86_64-linux-gnu/openmpi/lib', '-lpthread']


def build_mpireal(b):
    kw = {'pre_inc': MPI_INC, 'config': 'mpi', 'tag': 'real'}
    futs = [b.compile('adapters/mpi.cpp', ('VF_ALG=' + a,), **kw) for a in MPI_ALGS]
    lst = b.compile('adapters/mpi.cpp', ('VF_ALG=mcb_sva_signed_mpi', 'VF_LIST'), **kw)
    futs += [b.compile('fw/arena.cpp')]
    have = ()
    try:
        lst.result()
        futs.append(lst)
        have = ('HAVE_LIST',)
    except CheckError:
        pass
    futs.append(b.compile('checks/mpireal.cpp', have, **kw))
    return b.link('mpireal', futs, libs=MPI_LIBS)


def mpiexec(n, cmd, timeout, cwd=None):
    env = dict(os.environ)
    env.update({'OMPI_ALLOW_RUN_AS_ROOT': '1', 'OMPI_ALLOW_RUN_AS_ROOT_CONFIRM': '1', 'OMPI_MCA_mpi_yield_when_idle': '1', 'OMPI_MCA_btl': 'self,vader', 'OMPI_MCA_plm': 'isolated',
                'OMPI_MCA_rmaps_base_oversubscribe': '1', 'OMPI_MCA_hwloc_base_binding_policy': 'none', 'OMPI_MCA_btl_vader_single_copy_mechanism': 'none'})
    return drv.sh(['timeout', '-k', '5', str(int(timeout)), 'mpiexec', '--oversubscribe', '-n', str(n)] + cmd, timeout=timeout + 20, env=env, **({'cwd': cwd} if cwd else {}))


def c04(rep, b, tier):
    import concurrent.futures, threading
    t = tmo(tier)
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        futs = {n: ex.submit(f, b) for n, f in (('mpisched', build_mpisched), ('mpiconf', build_mpiconf), ('mpireal', build_mpireal))}
    real = futs['mpireal'].result()
    modelled = True
    try:
        exe = futs['mpisched'].result()
        run_harness(rep, exe, 'mpisched', tier, b, t, casetime=120)
        rep.states = rep.extra['harness_mpisched'].get('distinct:configurations(1/8)', rep.states)
    except CheckError as e:
        # code that uses a part of Boost.MPI the stand-in lacks is still run on the real runtime below
        rep.extra['unavailable_mpisched'] = str(e)[-600:]
        rep.exhaustive = modelled = False
    rep.extra['model_executions'], rep.validated = rep.validated, 0
    if rep.violations:
        return
    # the real runtime
    for i in range(3):
        rc, log = mpiexec(2, [real, 'hello'], 60)
        if rc == 0:
            break
    else:
        rep.extra['real_mpi'] = 'not available: ' + log[-300:]
        rep.exhaustive = False
        return
    runs = 0
    limit = 120 if tier == 'quick' else 900
    sizes = (1, 2, 3, 5) if tier == 'quick' else (1, 2, 3, 4, 5, 7, 8)

    def contract(P):
        out = os.path.join(b.dir, 'real.%d' % P)
        rc, log = mpiexec(P, [real, 'contract', out, tier], limit)
        return P, out, rc, log
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        for P, out, rc, log in ex.map(contract, sizes):
            bad = []
            if os.path.exists(out + '.bad'):
                bad = [l.strip() for l in open(out + '.bad')]
            last = open(out).read().strip() if os.path.exists(out) else ''
            if last.startswith('N '):
                runs += int(last.split()[1])
            elif not bad and last.startswith('C '):
                bad = [last + (' ranks do not return' if rc in (None, 124, 137) else ' ended with status %s: %s' % (rc, log[-300:].replace('\n', ' ')))]
            for ln in bad[:3]:
                m = re.match(r'[FC] (\d+) (\d) (\d) (\d) (.*) \| ?(.*)', ln)
                if not m:
                    rep.errors.append('unreadable report of the real MPI run: ' + ln[:300])
                    continue
                P_, a, l, ty, case, what = m.groups()
                ok = True
                for _ in range(2):   # confirm alone
                    o1 = os.path.join(b.dir, 'one')
                    for x in (o1, o1 + '.bad'):
                        if os.path.exists(x):
                            os.unlink(x)
                    r1, _l = mpiexec(int(P_), [real, 'one', o1, case, a, l, ty], 40)
                    if r1 == 0 and not os.path.exists(o1 + '.bad') and open(o1).read().startswith('N'):
                        ok = False
                if not ok and ln[0] == 'C':
                    rep.extra.setdefault('unconfirmed', []).append(ln[:300])
                    rep.exhaustive = False
                    continue
                rep.violation(case, 'real MPI, %s ranks, %s, layout %s: %s [case %s]' % (P_, MPI_ALGS[int(a)], l, what, case[:300]), 'mpisched', '')
    rep.extra['real_mpi_contract_runs'] = runs
    # conformance: every outcome of the real runtime is an outcome of the model
    if modelled and not rep.violations:
        model = {}
        procs = [os.path.join(b.dir, 'mc.%d' % i) for i in range(NCPU)]
        conf = futs['mpiconf'].result()
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(lambda i: drv.sh([conf, procs[i], str(i), str(NCPU)], timeout=300), range(NCPU)))
        execs = 0
        for p in procs:
            for ln in open(p):
                w = ln.split()
                if w[0] == 'O':
                    model[tuple(w[1:5])] = set(w[5:])
                elif w[0] == 'X':
                    execs += int(w[1])
        n = bad = 0
        for P in (1, 2, 3):
            out = os.path.join(b.dir, 'rc.%d' % P)
            rc, log = mpiexec(P, [real, 'conf', out], 200)
            for ln in (open(out) if os.path.exists(out) else []):
                w = ln.split()
                n += 1
                if w[5] not in model.get(tuple(w[1:5]), ()):
                    bad += 1
        rep.validated = n
        rep.extra['conformance_real_mpi'] = {'outcomes_compared': n, 'model_executions': execs, 'outside_the_model': bad, 'configurations_with_several_outcomes': sum(1 for v in model.values() if len(v) > 1)}
        if bad or n == 0:
            rep.extra['conformance_real_mpi']['note'] = 'real runtime left the model'
            rep.exhaustive = False
HARNESS['tbbsched'] = build_tbbsched('sched')
HARNESS['tbbrace'] = build_tbbsched('race')
HARNESS['tbbreal'] = build_tbbsched('real')
HARNESS['inexact'] = build_inexact
HARNESS['exact1'] = lambda b: build_exact(b, 1)
HARNESS['exact2'] = lambda b: build_exact(b, 2)


APPROX = ('approx_mcb_sva_signed', 'approx_mcb_sva_fvs_trees', 'approx_mcb_sva_iso_trees')


def build_approx(b, prop):
    futs = [b.compile('adapters/approx.cpp', ('VF_ALG=' + a,)) for a in APPROX]
    maps = [b.compile('adapters/approx.cpp', ('VF_ALG=' + a, 'VF_MAP')) for a in APPROX]
    have = True
    for f in maps:   # a caller-owned weight map type is an optional configuration
        try:
            f.result()
        except CheckError:
            have = False
    futs += (maps if have else []) + [b.compile('checks/approx.cpp', ('PROP=%d' % prop,) + (('HAVE_MAP',) if have else ())), b.compile('fw/arena.cpp')]
    return b.link('approx%d' % prop, futs)


HARNESS['approx5'] = lambda b: build_approx(b, 5)
HARNESS['approx6'] = lambda b: build_approx(b, 6)


def single(src, defs=(), **kw):
    return lambda b: b.link(os.path.basename(src)[:-4] + ''.join(d.replace('=', '') for d in defs), [b.compile(src, defs, **kw), b.compile('fw/arena.cpp')])


HARNESS['spanner'] = single('checks/spanner.cpp')
HARNESS['treesPROP12'] = single('checks/trees.cpp', ('PROP=12',))
HARNESS['treesPROP14'] = single('checks/trees.cpp', ('PROP=14',))
HARNESS['fvs'] = single('checks/fvs.cpp')
HARNESS['gf2'] = single('checks/gf2.cpp')
HARNESS['fparith'] = single('checks/fparith.cpp')
HARNESS['dimacs'] = single('checks/dimacs.cpp')
HARNESS['forest'] = single('checks/forest.cpp')


def c03(rep, b, tier):
    import concurrent.futures
    names = ('tbbsched', 'tbbrace', 'tbbreal')
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        futs = {n: ex.submit(HARNESS[n], b) for n in names}
    conf = b.link('tbbconf', [b.compile('checks/tbbconf.cpp'), b.compile('fw/vsched.cpp', tag='conf')])
    t = tmo(tier)
    real = futs['tbbreal'].result()   # has to compile: the real runtime
    for n in ('tbbsched', 'tbbrace'):
        try:
            exe = futs[n].result()
        except CheckError as e:
            # code that uses a runtime feature the stand-in lacks is still run on the real runtime below
            rep.extra['unavailable_' + n] = str(e)[-600:]
            rep.exhaustive = False
            continue
        before = rep.validated
        run_harness(rep, exe, n, tier, b, t if n == 'tbbsched' else t // 2, casetime=60)
        if n == 'tbbsched':
            rep.states = rep.validated - before   # one state per explored (graph, entry point, schedule)
    before = rep.validated
    run_harness(rep, real, 'tbbreal', tier, b, t // 3, casetime=60, workers=4)
    rep.validated = 0
    out = os.path.join(b.dir, 'conf.json')
    rc, log = drv.sh([conf, '--out', out, '--tier', tier], timeout=300)
    if not os.path.exists(out):
        rep.errors.append('conformance program ended with %s: %s' % (rc, log[-500:]))
        return
    j = json.load(open(out))
    rep.validated = j['traces']
    rep.extra['conformance_real_tbb'] = j
    if j['bad']:
        rep.errors.append('scheduler model does not cover the real runtime: ' + j['why'])


def simple(name, deadline=None, casetime=40, **kw):
    def f(rep, b, tier):
        exe = HARNESS[name](b)
        run_harness(rep, exe, name, tier, b, deadline or tmo(tier), casetime, **kw)
    return f


def chain(*fs):
    def f(rep, b, tier):
        for g in fs:
            g(rep, b, tier)
    return f




REPO_SRC = os.path.join(drv.REPO, 'src')
DEMOS = ('mcb-dimacs', 'approx-mcb-dimacs', 'collection-stats-dimacs')
DEMO_LIBS = ['-ltbb', '-lboost_timer', '-lboost_chrono', '-lboost_program_options', '-lboost_thread', '-lpthread']
TBBREC = ['_ZN3tbb6detail2r116execute_and_waitERNS0_2d14taskERNS2_18task_group_contextERNS2_12wait_contextES6_', '_ZN3tbb6detail2r15spawnERNS0_2d14taskERNS2_18task_group_contextE',
          '_ZN3tbb6detail2r15spawnERNS0_2d14taskERNS2_18task_group_contextEt', '_ZN3tbb6detail2r14waitERNS0_2d112wait_contextERNS2_18task_group_contextE',
          '_ZN3tbb6detail2r17executeERNS0_2d115task_arena_baseERNS2_13delegate_baseE', '_ZN3tbb6detail2r17enqueueERNS0_2d14taskEPNS2_15task_arena_baseE',
          '_ZN3tbb6detail2r17enqueueERNS0_2d14taskERNS2_18task_group_contextEPNS2_15task_arena_baseE', '_ZN3tbb6detail2r117parallel_pipelineERNS0_2d118task_group_contextEmRKNS2_11filter_nodeE',
          '_ZN3tbb6detail2r18allocateERPNS0_2d117small_object_poolEmRKNS2_14execution_dataE']
RECFLAGS = ['-Wl,--wrap=' + f for f in TBBREC]


def build_demos(prop):
    def f(b):
        """The demos are built from the sources with the flags of the CMake build (the tree is not built in place)."""
        rec = prop == 20
        r = b.compile('fw/tbbrec.cpp') if rec else None
        ds = [(d, b.compile(os.path.join(drv.REPO, 'src', d + '.cpp'), opt=('-O2', '-DNDEBUG'))) for d in DEMOS if not rec or d != DEMOS[2]]
        futs = [b.compile('checks/demos.cpp', ('PROP=%d' % prop,)), b.compile('fw/arena.cpp')]
        for d, o in ds:
            b.link(d, [o] + ([r] if rec else []), libs=DEMO_LIBS, flags=RECFLAGS if rec else ())
        return b.link('demos%d' % prop, futs)
    return f


def build_knob(b):
    futs = [b.compile('adapters/exact.cpp', ('VF_ALG=' + a,)) for a in EXACT_TBB] + [b.compile('adapters/approx.cpp', ('VF_ALG=' + a,)) for a in APPROX_TBB]
    futs += [b.compile('adapters/knob.cpp', ('VF_UNIT=' + u,)) for u in 'ab']
    futs += [b.compile('checks/knob.cpp'), b.compile('fw/tbbrec.cpp'), b.compile('fw/arena.cpp')]
    return b.link('knob', futs, flags=RECFLAGS)


def build_demompi(b):
    kw = {'pre_inc': (SHADOW_MPI, SHADOW_TBB), 'config': 'mpi'}
    futs = [b.compile('adapters/mpidemo.cpp', ('VF_DEMO="%s"' % os.path.join(REPO_SRC, 'mcb-dimacs-mpi.cpp'),), **kw), b.compile('fw/vmpi.cpp'), b.compile('fw/vsched.cpp', tag='plain')]
    futs += [b.compile('checks/demompi.cpp', pre_inc=(SHADOW_MPI, SHADOW_TBB))]
    return b.link('demompi', futs, libs=['-Wl,-z,muldefs', '-lboost_program_options', '-lboost_thread', '-lboost_serialization', '-lboost_timer', '-lboost_chrono', '-lpthread'])


def build_demompireal(b):
    return b.link('mcb-dimacs-mpi', [b.compile(os.path.join(drv.REPO, 'src/mcb-dimacs-mpi.cpp'), pre_inc=MPI_INC, config='mpi', tag='real')], libs=['-lboost_program_options', '-lboost_thread'] + MPI_LIBS)


def replay_demompi(key):
    b = drv.Build('replay')
    try:
        j = json.loads(key)
        e = demos.one(build_demompireal(b), mpiexec, j['file'], j['args'], j['P'], j['style'], j['keep'])
        print('FAIL ' + e if e else 'replay clean')
        return 1 if e else 0
    finally:
        b.clean()


def c11(rep, b, tier):
    import concurrent.futures
    t = tmo(tier)
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        fd, fm, fr = (ex.submit(f, b) for f in (HARNESS['demos11'], build_demompi, build_demompireal))
    run_harness(rep, fd.result(), 'demos11', tier, b, t, casetime=120)
    try:
        run_harness(rep, fm.result(), 'demompi', tier, b, t, casetime=60)
    except CheckError as e:   # a demo the stand-in runtime cannot host is still launched below
        rep.extra['unavailable_demompi'] = str(e)[-600:]
        rep.exhaustive = False
    demos.real(rep, fr.result(), mpiexec, tier)


def optional(futs, opts):
    """Adapters for configurations the library may not support: (future, define) pairs; adds what compiles."""
    have = []
    for f, d in opts:
        try:
            f.result()
            futs.append(f)
            have.append(d)
        except CheckError:
            pass
    return tuple(have)


def build_present(b):
    futs = [b.compile('adapters/exact.cpp', ('VF_ALG=' + a,)) for a in EXACT + EXACT_TBB]
    opts = [(b.compile('adapters/exact.cpp', ('VF_ALG=mcb_sva_signed', 'VF_LIST')), 'HAVE_LIST'), (b.compile('adapters/exact.cpp', ('VF_ALG=mcb_sva_signed_tbb', 'VF_LIST')), 'HAVE_LISTTBB')]
    have = optional(futs, opts)
    return b.link('present', futs + [b.compile('checks/present.cpp', have), b.compile('fw/arena.cpp')])


def build_presentmpi(b):
    kw = {'pre_inc': (SHADOW_MPI, SHADOW_TBB), 'config': 'mpi'}
    futs = [b.compile('adapters/exact.cpp', ('VF_ALG=' + a,), **kw) for a in EXACT] + [b.compile('adapters/mpi.cpp', ('VF_ALG=' + a,), **kw) for a in MPI_ALGS]
    futs += [b.compile('fw/vmpi.cpp'), b.compile('fw/vsched.cpp', tag='plain'), b.compile('checks/present.cpp', ('VF_MPI',), pre_inc=(SHADOW_MPI, SHADOW_TBB))]
    return b.link('presentmpi', futs, libs=['-Wl,-z,muldefs', '-lboost_serialization', '-lboost_timer', '-lboost_chrono', '-lpthread'])


def c08(rep, b, tier):
    import concurrent.futures
    t = tmo(tier, 300, 3000)
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fs, fm = ex.submit(build_present, b), ex.submit(build_presentmpi, b)
    run_harness(rep, fs.result(), 'present', tier, b, t, casetime=150)
    if rep.violations:
        return
    try:
        run_harness(rep, fm.result(), 'presentmpi', tier, b, t // 2, casetime=150)
    except CheckError as e:   # what the stand-in runtime cannot host is left to C04's real runs
        rep.extra['unavailable_presentmpi'] = str(e)[-600:]
        rep.exhaustive = False
    rep.extra['base_graphs'] = rep.states   # a state is a presentation (graph, numbering, orders); visited from its base graph
    rep.states = sum(h.get('distinct:presentations', 0) for h in rep.extra.values() if isinstance(h, dict))


HARNESS['present'] = build_present
HARNESS['presentmpi'] = build_presentmpi
HARNESS['demompi'] = build_demompi
HARNESS['knob'] = build_knob
HARNESS['demos11'] = build_demos(11)
HARNESS['demos20'] = build_demos(20)
REPLAY = {'headers': headers.replay, 'demompireal': replay_demompi}


CHECKS = {
    'C01': simple('exact1'),
    'C02': simple('exact2'),
    'C03': c03,
    'C04': c04,
    'C05': simple('approx5'),
    'C06': simple('approx6'),
    'C08': c08,
    'C09': simple('inexact'),
    'C10': simple('dimacs'),
    'C11': c11,
    'C12': simple('treesPROP12'),
    'C13': simple('fvs'),
    'C14': simple('treesPROP14'),
    'C15': simple('spanner'),
    'C16': simple('forest'),
    'C17': simple('gf2'),
    'C18': simple('fparith'),
    'C19': headers.run,
    'C20': chain(simple('knob'), simple('demos20')),
}


def setup():
    return 0


def replay(path):
    lines = open(path).read().splitlines()
    meta = dict(re.match(r'# (\w+) (.*)', l).groups() for l in lines if re.match(r'# (\w+) (.*)', l))
    if meta['harness'] in REPLAY:
        return REPLAY[meta['harness']](lines[0])
    b = drv.Build('replay')
    try:
        h = meta['harness']
        if h not in HARNESS:
            print('no replay for harness', h); return 2
        exe = HARNESS[h](b)
        rc, out = drv.sh([exe, '--replay', path], timeout=600)
        print(out)
        return 0 if rc == 0 else 1
    finally:
        b.clean()
