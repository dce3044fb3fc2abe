"""C19: every one-header program and every two-unit program over the public headers."""
import concurrent.futures, hashlib, itertools, json, os, re, threading
import drv

MPI_INC = ('/usr/lib/x86_64-linux-gnu/openmpi/include',)
PRE = '''
#include <boost/graph/adjacency_list.hpp>
#include <list>
#include <vector>
#include <set>
'''
TYPES = '''
namespace {
typedef boost::adjacency_list<boost::vecS,boost::vecS,boost::undirectedS,boost::no_property,boost::property<boost::edge_weight_t,double>> VG;
typedef boost::graph_traits<VG>::edge_descriptor VE;
typedef boost::graph_traits<VG>::vertex_descriptor VV;
inline VG vgraph() { VG g(4); boost::add_edge(0,1,1.0,g); boost::add_edge(1,2,2.0,g); boost::add_edge(0,2,3.0,g); boost::add_edge(2,3,1.0,g); return g; }
}
'''


def call(*fs, approx=False, mpi=False):
    s = 'double VF() { VG g = vgraph(); double r = 0; std::list<std::list<VE>> o;'
    if mpi:
        s += ' boost::mpi::communicator w;'
    for f in fs:
        s += ' r += parmcb::%s(g, boost::get(boost::edge_weight, g), %sstd::back_inserter(o)%s);' % (f, 'std::size_t(2), ' if approx else '', ', w' if mpi else '')
    return TYPES + s + ' return r + o.size(); }'


# uses of the documented interface (no internals); a use counts only if it compiles with every header included in front
USES = {
    'forestindex.hpp': TYPES + 'double VF() { VG g = vgraph(); parmcb::ForestIndex<VG> fi(g); return fi.cycle_space_dimension() + fi(*boost::edges(g).first); }',
    'fp.hpp': 'double VF() { int x, y, a = 3, p = 5; return parmcb::primes<int>::is_prime(7) + parmcb::fp<int>::ext_gcd(a, p, x, y) + parmcb::fp<int>::get_mult_inverse(a, p); }',
    'spvecgf2.hpp': 'double VF() { parmcb::SpVecGF2<unsigned long> a(1ul), b; a += b; a.add(9); b = a + a; return a * b + double(a.size()); }',
    'spvecfp.hpp': 'double VF() { parmcb::SpVecFP<int> a(5), b(5); a = 1; b = 2; a += b; a *= 3; return a * b; }',
    'util.hpp': TYPES + 'double VF() { VG g = vgraph(); parmcb::read_dimacs_from_file(stdin, g); return parmcb::has_loops(g) + parmcb::has_multiple_edges(g) + parmcb::has_non_positive_weights(g, boost::get(boost::edge_weight, g)) + parmcb::is_cycle(g, std::list<VE>()); }',
    'parmcb_sva_signed.hpp': call('mcb_sva_signed'),
    'parmcb_sva_trees.hpp': call('mcb_sva_fvs_trees', 'mcb_sva_iso_trees'),
    'parmcb_approx_sva_signed.hpp': call('approx_mcb_sva_signed', approx=True),
    'parmcb_approx_sva_trees.hpp': call('approx_mcb_sva_fvs_trees', 'approx_mcb_sva_iso_trees', approx=True),
    'parmcb.hpp': call('mcb_sva_signed', 'mcb_sva_fvs_trees', 'mcb_sva_iso_trees'),
    'parmcb_sva_signed_tbb.hpp': call('mcb_sva_signed_tbb'),
    'parmcb_approx_sva_signed_tbb.hpp': call('approx_mcb_sva_signed_tbb', approx=True),
    'parmcb_approx_sva_trees_tbb.hpp': call('approx_mcb_sva_fvs_trees_tbb', 'approx_mcb_sva_iso_trees_tbb', approx=True),
    'mpi/parmcb_sva_signed.hpp': call('mcb_sva_signed_mpi', mpi=True),
    'mpi/parmcb_sva_trees.hpp': call('mcb_sva_fvs_trees_mpi', 'mcb_sva_iso_trees_mpi', mpi=True),
    'mpi/parmcb.hpp': call('mcb_sva_signed_mpi', 'mcb_sva_fvs_trees_mpi', 'mcb_sva_iso_trees_mpi', mpi=True),
}
NEEDS = {h: (['TBB'] if '_tbb' in h else []) + (['MPI'] if h.startswith('mpi/') else []) for h in USES}
NEEDS['mpi/parmcb_sva_signed.hpp'] = NEEDS['mpi/parmcb_sva_trees.hpp'] = NEEDS['mpi/parmcb.hpp'] = ['MPI', 'TBB']

CONF = {'TBB+MPI': ('BOOST', 'TBB', 'MPI', 'INVARIANTS_CHECK'), 'TBB': ('BOOST', 'TBB', 'INVARIANTS_CHECK'), 'MPI': ('BOOST', 'MPI', 'INVARIANTS_CHECK'), 'none': ('BOOST', 'INVARIANTS_CHECK')}


def headers():
    root = os.path.join(drv.REPO, 'include')
    hs = set()
    for d, _, fs in os.walk(os.path.join(root, 'parmcb')):
        for f in fs:
            if f.endswith(('.hpp', '.h')):
                hs.add(os.path.relpath(os.path.join(d, f), os.path.join(root, 'parmcb')))
    hs.add('config.hpp')   # generated by the build from config.hpp.in
    return sorted(hs)


class Prog:
    """A program: configuration, compiler, and the text of each unit.  Text form: json."""

    def __init__(self, cfg, cxx, std, units, link=False):
        self.cfg, self.cxx, self.std, self.units, self.link = cfg, cxx, std, units, link

    def key(self):
        return json.dumps({'cfg': self.cfg, 'cxx': self.cxx, 'std': self.std, 'units': self.units, 'link': self.link})


class Space:
    def __init__(self, b):
        self.b = b
        for c, on in CONF.items():
            drv.CONFIGS['c19-' + c] = list(on)
            b.inc('c19-' + c)
        # stand-ins for libraries that are not enabled: any attempt to include them is an error
        for lib, names in (('notbb', ['tbb/tbb.h'] + ['tbb/' + f for f in self.ls('/usr/include/tbb')] + ['oneapi/' + f for f in self.ls('/usr/include/oneapi')]),
                           ('nompi', ['mpi.h', 'boost/mpi.hpp'] + ['boost/mpi/' + f for f in self.ls('/usr/include/boost/mpi')])):
            for n in names:
                p = os.path.join(b.dir, lib, n)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'w') as f:
                    f.write('#error "%s is not enabled in this configuration"\n' % n)
        self.cache, self.lock, self.compiled = {}, threading.Lock(), 0

    @staticmethod
    def ls(d):
        r = []
        for x, _, fs in os.walk(d):
            r += [os.path.relpath(os.path.join(x, f), d) for f in fs if f.endswith(('.h', '.hpp'))]
        return r

    def flags(self, cfg):
        f = []
        if 'TBB' not in CONF[cfg]:
            f += ['-I' + os.path.join(self.b.dir, 'notbb')]
        if 'MPI' not in CONF[cfg]:
            f += ['-I' + os.path.join(self.b.dir, 'nompi')]
        else:
            f += ['-I' + i for i in MPI_INC]
        return f + ['-I' + self.b.incs['c19-' + cfg], '-I' + os.path.join(drv.REPO, 'include')]

    def compile(self, cfg, cxx, std, text, name, obj=True):
        """Preprocesses, then compiles; units that preprocess to the same text are compiled once."""
        d = os.path.join(self.b.dir, 'src')
        os.makedirs(d, exist_ok=True)
        src = os.path.join(d, name + '.cpp')
        with open(src, 'w') as f:
            f.write(text)
        ii = src[:-4] + '.ii'
        rc, log = drv.sh([cxx, '-std=' + std, '-w', '-E'] + self.flags(cfg) + [src, '-o', ii], timeout=300)
        if rc != 0:
            return rc, log, None
        with open(ii, 'rb') as f:
            h = hashlib.sha1(b'\n'.join(l for l in f if not l.startswith(b'# ') and l.strip())).hexdigest()
        key = (cxx, std, h, obj)
        with self.lock:
            fut = self.cache.get(key)
            mine = fut is None
            if mine:
                fut = self.cache[key] = concurrent.futures.Future()
        if mine:
            o = os.path.join(d, h + '-' + cxx + std + '.o')
            self.compiled += 1
            rc, log = drv.sh([cxx, '-std=' + std, '-O0', '-w'] + (['-c', ii, '-o', o] if obj else ['-fsyntax-only', ii]), timeout=600)
            if rc != 0:   # diagnose from the source
                rc2, log2 = drv.sh([cxx, '-std=' + std, '-O0', '-w'] + self.flags(cfg) + ['-fsyntax-only', src], timeout=600)
                log = log2 or log
            fut.set_result((rc, log, o))
        os.unlink(ii)
        return fut.result()

    def linkcmd(self, cfg, cxx, objs, exe):
        libs = ['-lboost_timer', '-lboost_chrono', '-lboost_thread', '-lpthread']
        if 'TBB' in CONF[cfg]:
            libs = ['-ltbb'] + libs
        if 'MPI' in CONF[cfg]:
            libs = ['-lboost_mpi', '-lboost_serialization', '-lmpi_cxx', '-lmpi', '-L/usr/lib/x86_64-linux-gnu/openmpi/lib'] + libs
        return [cxx] + objs + ['-o', exe] + libs

    def link(self, cfg, cxx, objs, name):
        exe = os.path.join(self.b.dir, 'src', name + '.exe')
        rc, log = drv.sh(self.linkcmd(cfg, cxx, objs, exe), timeout=300)
        try:
            os.unlink(exe)
        except OSError:
            pass
        return rc, log


def first_error(log):
    m = [l for l in log.splitlines() if re.search(r'error|multiple definition|undefined reference|duplicate symbol', l)]
    return ' | '.join(m[:2])[:400] or log[-300:]


def unit(h, fn=None, use=True, cfg='TBB+MPI', times=1):
    """A unit with one parmcb header, first and alone; optionally using its interface through function fn."""
    s = ('#include <parmcb/%s>\n' % h) * times
    if use and fn and h in USES and all(x in CONF[cfg] for x in NEEDS[h]):
        s += PRE + USES[h].replace('double VF()', 'double %s()' % fn) + '\n'
        return s, True
    if fn:
        s += 'double %s() { return 0; }\n' % fn
    return s, False


def run(rep, b, tier):
    sp = Space(b)
    hs = headers()
    thorough = tier != 'quick'
    pool = concurrent.futures.ThreadPoolExecutor(drv.NCPU)
    tools = [('g++', 'c++14')]
    cnt = rep.extra.setdefault('programs', {})
    viol = []
    lock = threading.Lock()

    def bad(prog, what):
        viol.append((prog, what))

    # --- every header alone and first: object files for both roles
    def single(a):
        cfg, cxx, std, h, obj = a
        tag = re.sub(r'\W', '_', '%s-%s-%s-%s' % (cfg, cxx, std, h))
        text, _ = unit(h)
        # the header first and included twice, then used through its documented interface
        t2, used = unit(h, 'vf_a', cfg=cfg, times=2)
        rc, log, o2 = sp.compile(cfg, cxx, std, t2, 'use-' + tag, obj)
        if rc != 0:
            rc, log, o = sp.compile(cfg, cxx, std, text, 'one-' + tag, False)
            if rc != 0:
                return a, ('alone', Prog(cfg, cxx, std, [text]), '%s does not compile alone [%s, %s %s]: %s' % (h, cfg, cxx, std, first_error(log))), None, None
            if used:   # is it the header's fault?  the same use with every header in front must compile
                allh = ''.join('#include <parmcb/%s>\n' % x for x in hs)
                r3, l3, _ = sp.compile(cfg, cxx, std, allh + PRE + t2, 'all-' + tag, False)
                if r3 == 0:
                    return a, ('use', Prog(cfg, cxx, std, [t2]), '%s does not compile when it is the only parmcb header and its interface is used [%s, %s %s]: %s' % (h, cfg, cxx, std, first_error(log))), o, None
                rep.extra.setdefault('uses_skipped', []).append('%s [%s]: %s' % (h, cfg, first_error(log)[:200]))
            t2, _ = unit(h, 'vf_a', use=False, cfg=cfg, times=2)
            rc, log, o2 = sp.compile(cfg, cxx, std, t2, 'use-' + tag, obj)
            if rc != 0:
                return a, ('twice', Prog(cfg, cxx, std, [t2]), '%s does not compile when included twice [%s, %s %s]: %s' % (h, cfg, cxx, std, first_error(log))), o, None
        o3 = None
        if obj:   # the second unit: same text, other function name
            o3 = o2[:-2] + '-b.o'
            with lock:
                if not os.path.exists(o3):
                    rc, log = drv.sh(['objcopy', '--redefine-sym', '_Z4vf_av=_Z4vf_bv', o2, o3], timeout=60)
                    if rc != 0:
                        rep.errors.append('objcopy: ' + log[-300:])
        return a, None, (o2, t2), (o3, t2.replace('vf_a', 'vf_b'))

    jobs = [(c, x, s, h, True) for c in CONF for x, s in tools for h in hs]
    jobs += [(c, 'clang++', 'c++14', h, thorough) for c in (CONF if thorough else ('TBB+MPI',)) for h in hs]
    if thorough:
        jobs += [(c, 'g++', 'c++17', h, False) for c in CONF for h in hs]
    objs = {}
    for a, v, o2, o3 in pool.map(single, jobs):
        cnt['one-header programs'] = cnt.get('one-header programs', 0) + 1
        if v:
            bad(v[1], v[2])
        elif a[4]:
            objs[a[:4]] = (o2, o3)
    # --- two-unit programs: every unordered pair of headers (a header with itself included), per configuration
    mains, linked = {}, {}
    for cxx in ('g++', 'clang++'):
        src = os.path.join(b.dir, 'src', 'main-%s.cpp' % cxx)
        with open(src, 'w') as f:
            f.write('double vf_a(); double vf_b(); int main(int c, char **) { return c > 99 ? int(vf_a() + vf_b()) : 0; }\n')
        drv.sh([cxx, '-c', src, '-o', src[:-4] + '.o'])
        mains[cxx] = (src[:-4] + '.o', open(src).read())

    def pair(a):
        (cfg, cxx, std), h1, h2 = a
        (o1, t1), (o2, t2) = objs[(cfg, cxx, std, h1)][0], objs[(cfg, cxx, std, h2)][1]
        libs = tuple(x for x in ('TBB', 'MPI') if x in CONF[cfg])
        with lock:
            fut = linked.get((o1, o2, libs))
            mine = fut is None
            if mine:
                fut = linked[(o1, o2, libs)] = concurrent.futures.Future()
        if mine:
            fut.set_result(sp.link(cfg, cxx, [mains[cxx][0], o1, o2], re.sub(r'\W', '_', '%s-%s-%s-%s' % (cfg, cxx, h1, h2))))
        rc, log = fut.result()
        if rc != 0:
            return Prog(cfg, cxx, std, [mains[cxx][1], t1, t2], True), 'units including %s and %s do not link [%s, %s %s]: %s' % (h1, h2, cfg, cxx, std, first_error(log))
    groups = {}
    for (cfg, cxx, std, h) in objs:
        groups.setdefault((cfg, cxx, std), []).append(h)
    pairs = [(g, x, y) for g, l in groups.items() for x, y in itertools.combinations_with_replacement(sorted(l), 2)]
    for r in pool.map(pair, pairs):
        cnt['two-unit programs'] = cnt.get('two-unit programs', 0) + 1
        if r:
            bad(*r)
    # --- all headers in all units at once, and one unit including several headers in every order
    def many(a):
        cfg, cxx, std, l = a
        t = ''.join('#include <parmcb/%s>\n' % h for h in l)
        rc, log, _ = sp.compile(cfg, cxx, std, t, 'many-%s' % abs(hash(a)), False)
        if rc != 0:
            return Prog(cfg, cxx, std, [t]), 'a unit including %s does not compile [%s, %s]: %s' % (', '.join(l[:3]) + (' ...' if len(l) > 3 else ''), cfg, cxx, first_error(log))
    broken = set()
    for p, w in viol:
        for u in p.units:
            broken.update(re.findall(r'#include <parmcb/(.*?)>', u))
    good = [h for h in hs if h not in broken]
    orders = [(c, 'g++', 'c++14', tuple(o)) for c in CONF for o in (good, good[::-1])]
    for u in ('parmcb.hpp', 'mpi/parmcb.hpp'):
        if u in good:
            orders += [(c, 'g++', 'c++14', (u,) + tuple(h for h in good[::-1] if h != u)) for c in CONF]
    if thorough:
        orders += [(c, 'g++', 'c++14', (x, y)) for c in CONF for x in good for y in good if x != y]
    for r in pool.map(many, orders):
        cnt['several-header units'] = cnt.get('several-header units', 0) + 1
        if r:
            bad(*r)
    rep.states = sum(cnt.values())
    rep.transitions = rep.states
    rep.validated = rep.states
    rep.extra['distinct_units_compiled'], rep.extra['distinct_links'] = sp.compiled, len(linked)
    rep.extra['headers'] = len(hs)
    rep.extra['configurations'] = sorted(CONF)
    rep.extra['interface_uses'] = len(USES)
    rep.add_samples(['#include <parmcb/%s> alone, linked against a second unit including %s' % (x, y) for g, x, y in pairs[:400:80]])
    viol.sort(key=lambda v: (v[0].link, len(v[0].key())))
    for p, w in viol[:8]:
        rep.violation(p.key(), w, 'headers')
    if len(viol) > 8:
        rep.extra['further_failing_programs'] = [w[:200] for _, w in viol[8:60]]
    pool.shutdown()


def replay(key):
    j = json.loads(key)
    b = drv.Build('replay')
    try:
        sp = Space(b)
        objs = []
        for i, u in enumerate(j['units']):
            rc, log, o = sp.compile(j['cfg'], j['cxx'], j['std'], u, 'u%d' % i)
            if rc != 0:
                print('unit %d does not compile: %s' % (i, first_error(log)))
                return 1
            objs.append(o)
        if j['link']:
            rc, log = sp.link(j['cfg'], j['cxx'], objs, 'prog')
            if rc != 0:
                print('does not link: ' + first_error(log))
                return 1
        print('compiles' + (' and links' if j['link'] else ''))
        return 0
    finally:
        b.clean()
