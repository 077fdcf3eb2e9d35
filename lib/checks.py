"""The table of checks: harnesses, builds and how cases are made."""
import os

SAN = 'built with AddressSanitizer, UndefinedBehaviorSanitizer and libstdc++ assertions'

CHECKS = {}
LIB = os.path.dirname(os.path.abspath(__file__))


def check(pid, rule, jobs, **kw):
    CHECKS[pid] = dict(rule=rule, jobs=jobs, **kw)


def job(name, src, **kw):
    return dict(name=name, src=src, **kw)


check('M01', 'pairs of canonical values drawn from edge values (0, 1, p-1, powers of two and neighbours, runs of ones, '
      'pairs summing to p, products landing on edge values) and uniform ones; every operation compared with integer '
      'arithmetic; non-trivial: an operand above 1', [job('m01', 'm01_field.cc', libs='core')])
check('M02', 'element bytes drawn from canonical edge and uniform values, values in [p, 2^8B), multiples of the prime; random '
      'source and destination offsets in exactly sized allocations (out-of-bounds accesses trap); non-trivial: integer above 1. '
      'Random elements: bit frequencies, serial changes, chi-square of high bits, low bits and mod 7, repeats',
      [job('m02', 'm02_serial.cc', libs='core')])
check('M03', 'numbers up to the size of the machine integer (edge values, around multiples of the prime, largest) written in each base '
      'with random case and leading zeros and parsed; strings with one bad character, bad length or padding refused; random strings never '
      'crash or give a non-canonical element; printing compared with exact decimal',
      [job('m03', 'm03_strings.cc', libs='core')])
check('M04', 'for every k = 1..128: pairs of edge and uniform values with clean and dirty bits above k; all ring operations compared with '
      '128-bit integer arithmetic masked to k bits; non-trivial: an operand above 1',
      [job('m04', ['m04_z2k.cc', 'm04_part0.cc', 'm04_part1.cc', 'm04_part2.cc', 'm04_part3.cc'], libs='core')])
check('M05', 'vectors of 0..200 and matrices up to 24x24 with dense, sparse and edge entries over two prime fields, GF(7), GF(2) and three '
      'rings Z2k; every operation compared entry by entry with schoolbook reference; incompatible shapes tried; non-trivial: not empty',
      [job('m05-%d' % i, 'm05_linear.cc', libs='core', hflags=['-DTYPES=%d' % i], shards=2, tshards=8) for i in range(4)])
check('M06', 'random systems from 1x1 to 14x14 (square, over- and underdetermined) with controlled rank and consistent, random, off-by-one or '
      'zero right-hand sides over GF(2), GF(3), GF(7), GF(251) and both large fields; reduced form, decisions and solutions compared with an '
      'independent elimination; non-trivial: more than one unknown or equation', [job('m06', 'm06_la.cc', libs='core')])
check('M07', 'random polynomials of degree below 12 with cancelling, equal and multiple operands and leading zeros, and point sets (arbitrary, '
      'consecutive) over GF(2), GF(7), GF(251) and both large fields, compared with reference polynomial arithmetic; non-trivial: not constant',
      [job('m07', 'm07_poly.cc', libs='core')])
check('C01', 'random seeds (also all zero, all one, one bit) and sequences of 1..40 requests of 0..74000 bytes through all overloads, copies and '
      'resets, compared with a byte-wise AES-128 in counter mode (checked against FIPS-197); run with the shipped parameters and with initial '
      'counters just below 2^31 and 2^32 and other nonces; non-trivial: more than one request',
      [job('c01', 'c01_prg.cc', libs='core', shards=4),
       job('c01-c31', 'c01_prg.cc', libs='core', shards=2, scale=0.4, defs=['-DPRG_INITIAL_COUNTER=0x7ffffff0L', '-DPRG_NONCE=0x8877665544332211LL']),
       job('c01-c32', 'c01_prg.cc', libs='core', shards=2, scale=0.4, defs=['-DPRG_INITIAL_COUNTER=0xfffffff0L', '-DPRG_NONCE=1'])])
check('C02', 'all message lengths 0..450 and random ones up to 20000 bytes (thorough: also one above 4 GiB), four random splits into pieces each '
      '(single bytes, empty pieces, arbitrary), for all three digest sizes, compared with Keccak computed from its definition; non-trivial: not empty',
      [job('c02', 'c02_hash.cc', libs='core')])
check('S01', 'secrets (edge and uniform) shared among 1..100 parties over FF61, FF127, Z2k (1, 3, 57, 64, 128), GF(7); sums checked with integer '
      'arithmetic; for n-1 shares of two successive sharings: rank of samples (no affine relation), bit frequencies, and over GF(7), Z2k<3>, Z2k<1> '
      'the joint distribution (chi-square) for every left-out share and several secrets; non-trivial: n > 1',
      [job('s01', 's01_additive.cc', libs='core')])
check('S02', 'random secrets, t, n, point sets (canonical, arbitrary, including 0) over GF(7), GF(11), GF(251), FF61, FF127; planted errors: none '
      'to t, random, off by one, colluding on another polynomial, at any place; results compared with the shared polynomial',
      [job('s02', 's02_shamir.cc', libs='core')])
check('S03', 'random k, degrees, secrets and points over GF(251), FF61, FF127; shares, positions, sums, products compared with reference '
      'interpolation; too many secrets refused', [job('s03', 's03_packed.cc', libs='core')])
check('S04', 'largest allowed sets of shares for every way of sharing: rank of samples over two successive sharings in the large fields (no affine '
      'relation, no repeats, unbiased bits), joint distributions (chi-square) over GF(7), GF(11), GF(13)', [job('s04', 's04_hidden.cc', libs='core')])

WRAP = ['-Wl,--wrap=read,--wrap=recv,--wrap=write,--wrap=send']
check('N01', 'random sequences of sends, receives and flushes of sizes 0..3000 on both ends compared with byte queues; sender and receiver threads '
      'on both directions with random pauses; receives started before their bytes; non-trivial: all',
      [job('n01', 'n01_mem.cc', libs='scl', args=['--case-timeout', '40'])])
check('N02', 'loopback TCP and UNIX sockets with small kernel buffers; read/recv/write/send wrapped to transfer part, be interrupted, be delayed or fail '
      'at a chosen call; both directions in four threads; peers closing, shutting down or resetting after any number of bytes; repeated close with the '
      'descriptor number reused; non-trivial: all',
      [job('n02', 'n02_tcp.cc', libs='scl', link=WRAP, args=['--case-timeout', '40'])],
      technique='runtime monitoring: byte-stream oracle with system-call fault injection (ld --wrap) under ASan/UBSan')
check('N03', 'random sends (0..4 MB in pieces from empty to 400 kB) followed at once by close (repeatedly) or destruction while the peer starts reading at '
      'once, during the close or later; both directions; wrapped socket calls (partial, interrupted, delayed); peers that vanish; megabytes queued with '
      'nobody reading; non-trivial: all',
      [job('n03', 'n03_threaded.cc', libs='scl', link=WRAP, args=['--case-timeout', '40'])],
      technique='runtime monitoring: byte-stream oracle with system-call fault injection (ld --wrap) under ASan/UBSan')
check('N04', 'sequences of 1..20 random messages (plain values, fixed vectors, Vec and Mat over five rings and fields, empty ones included) over '
      'recorded bytes, in-memory, TCP and threaded channels, each compared at the receiver; announced sizes around and far above the limit incl. products '
      'that overflow, with allocations and reads watched; non-trivial: all', [job('n04', 'n04_typed.cc', libs='scl', args=['--case-timeout', '40'])])
check('N09', 'chains of 1 to 65 steps with state-dependent values and exceptions thrown at random steps; non-trivial: all',
      [job('n09', 'n09_steps.cc', libs='', shards=2)])
check('N05', 'networks of 1..12 parties over TCP with random start delays, listings and mixtures of plain and threaded channels; tagged random traffic on every '
      'link in both directions and to oneself, three rounds in random order; the same in memory and for mocks; raw peers announcing correct, impossible, '
      'duplicate or truncated ids; non-trivial: n > 1',
      [job('n05', 'n05_network.cc', libs='scl', shards=16, args=['--case-timeout', '40'])], parallel=16)
check('N06', 'configuration files of 1..300 parties with arbitrary host names in any order compared field by field; one defect of ten kinds planted in a '
      'file or list; arbitrary bytes; non-trivial: more than one party', [job('n06', 'n06_config.cc', libs='scl', shards=4)])
check('N07', 'discovery among 2..31 (and 255) parties, server with any id, clients at once from one address or arriving in id order or any order from '
      'several loopback addresses, configurations of all compared with what was announced and where connections came from; non-trivial: all',
      [job('n07', 'n07_discovery.cc', libs='scl', args=['--case-timeout', '60'])])
check('N08', 'configurations, announcements and typed messages with one planted flaw (count, id, duplicate, length, cut, flipped bits, trailing or random '
      'bytes), over recorded bytes and real connections that are cut or reset; outcome compared with an independent parser, allocations and reads watched, '
      'under ASan/UBSan; non-trivial: all', [job('n08', 'n08_hostile.cc', libs='scl', args=['--case-timeout', '40'])])

PROTO = dict(libs='tp', nonce=True)
check('P01', 'random layered circuits (inputs and outputs in any distribution over parties, 0..3k+5 multiplications per layer incl. empty layers, addition '
      'chains, shared and repeated wires, outputs of any wire) and the synthetic family, for random n <= 33, t, k with n = t+2(k-1)+1, edge and random '
      'inputs, independent or shipped randomness, parties in fixed or random order; every output compared with modular arithmetic over the circuit; '
      'non-trivial: has a multiplication and an output', [job('p01', 'p01_main.cc', **PROTO)])
check('P02', 'random circuits (owners, layers, shared wires, addition chains up to 1500, up to 40 parties) evaluated 1 to 3 times on fresh inputs, given per '
      'party or flat, read per party, flat or gate by gate, compared with modular arithmetic; wrong counts and early reads refused; non-trivial: has gates and '
      'an output', [job('p02', 'p02_clear.cc', libs='tp')])
check('P05', 'random circuits, parameters, inputs, masks and party orders with real or simulated preprocessing; after the input phase, each layer and the '
      'output phase the bytes sent on each of the n^2 links compared with the formula and all links empty; non-trivial: has a multiplication',
      [job('p05', 'p05_traffic.cc', **PROTO)])
check('P06', 'random circuits, n <= 25, t < n/2, inputs, real or simulated preprocessing (any constant), both ways of calling the first party\'s step, fixed '
      'or random party order; every output compared with modular arithmetic; non-trivial: has a multiplication and an output',
      [job('p06', 'p06_dn07.cc', **PROTO)])
check('P12', 'random circuits, k <= 12, n from 2k-1, inputs, masks (edge and random) through all seven ways of simulating the preprocessing, outputs compared '
      'with modular arithmetic; non-trivial: has a multiplication and an output', [job('p12', 'p12_simulated.cc', **PROTO)])
check('P09', 'random circuits up to 40 parties: all reported metrics, the gates at every index and their operands compared with the description they were built '
      'from; layers of 0..40 gates in batches of 1..9; synthetic configurations (one third with one of seven flaws) compared with independent evaluation of every '
      'layer; non-trivial: has gates', [job('p09', 'p09_building.cc', libs='tp')])
check('P10', 'all n <= 14, k, t around the valid range for both protocols; random circuits used out of order; values read before they exist through random '
      'additions, then completed and compared; batches filled with 0..k gates, other owners; non-trivial: invalid use', [job('p10', 'p10_refuse.cc', **PROTO)])
check('P03', 'random circuits and parameters (n <= 24, also with the shipped randomness): every share of every party after preprocessing collected and checked '
      'against the relations it must satisfy (degrees, equal positions, sums, owners\' masks, products, zeros); and for smaller ones the rank of all masks, factors '
      'and zero-sharings jointly with the shares of t random parties over as many runs as there are values (with those parties\' randomness fixed or fresh): an affine '
      'relation is a reuse; non-trivial: has a multiplication',
      [job('p03', 'p03_prep.cc', **PROTO), job('p03-fresh', 'p03_prep.cc', mode='fresh', flavor='fast', **PROTO)])
HULL = ('random circuits, parameters, coalitions of up to t parties (half with the first party), pairs of inputs that give the coalition the same outputs '
        '(unrelated, one changed, equal sum, equal product); the coalition\'s randomness fixed and the others\' fresh in every run; the affine hulls of all received '
        'values must agree, and for the smallest parameters the quadratic hulls; non-trivial: all')
INDEP = ['randomness of different parties is independent (the shipped programs seed every generator with zero; the checks give each party its own nonce)',
         'differences of distributions that show neither in the affine hulls nor (smallest parameters) in the quadratic hulls go unnoticed']
check('P04', HULL, [job('p04', 'p04_private.cc', flavor='fast', **PROTO), job('p04-quad', 'p04_private.cc', flavor='fast', mode='quadratic', **PROTO)], assumptions=INDEP)
check('P07', HULL, [job('p07', 'p07_private.cc', flavor='fast', **PROTO), job('p07-quad', 'p07_private.cc', flavor='fast', mode='quadratic', **PROTO)], assumptions=INDEP)
check('P08', 'random circuits, parameters and inputs for both protocols, each party a task (with the parallel halves the programs use, the order of the tests, '
      'or kind by kind) under a scheduler that switches at every channel operation with six policies (uniform, priorities with changes, one party starved or '
      'rushed, run until blocked, round robin): no deadlock, right outputs, nothing left, the same bytes moved by the same steps as in lock step; and free-running '
      'threads over in-memory and TCP networks with random starts and delays, a marker on every link at the end; non-trivial: has a multiplication; distinct: schedules',
      [job('p08', 'p08_sched.cc', args=['--case-timeout', '60'], **PROTO), job('p08-free', 'p08_sched.cc', mode='free', args=['--case-timeout', '60'], **PROTO)])


def program(name, **kw):
    return dict(name=name, src=['@REPO@/experiments/%s.cc' % name, 'p11_wrap.cc'], libs='tp', nonce=True,
                defs=['-include', LIB + '/vp_port.h', '-DDEFAULT_PORT_OFFSET=(vp_port_base())'],
                link=WRAP + ['-Wl,--wrap=close,--wrap=_ZN2tp7Circuit21OutputOwnerReceivesMuEv,--wrap=_ZN2tp4DN0719OutputOwnersReceiveEv,--wrap=_ZNSt6chrono3_V212system_clock3nowEv,'
                     '--wrap=_ZNSt6chrono3_V212steady_clock3nowEv'], **kw)


def programs(**kw):
    return {'VP_EXE_OURS': program('ours', **kw), 'VP_EXE_DN07': program('dn07', **kw)}


check('P11', 'both shipped programs, one process per party (5, 9, 13, 17) with random sizes and depths, started in random order with delays up to half a second '
      '(or last party first), half with partial, interrupted and delayed socket calls; all exit 0 in time, the first party\'s outputs equal an independent '
      'evaluation, no connection is closed with unread bytes; ids that are no party\'s are refused; non-trivial: all',
      [job('p11', 'p11_programs.cc', libs='', also=programs(flavor='asan'), args=['--case-timeout', '100'])])


check('P13', 'run.sh with stand-ins for the programs that record how and when they are started (1..100 parties, any size, depth and tag, repeated runs, bad '
      'numbers of parties); gen_data.sh with a stand-in for run.sh; parse_files.py on random sets of logs against an independent table; all three together with the real '
      'programs, whose clock readings (set apart by random hours) and socket traffic are recorded: every reported time is the difference of two readings, the '
      'traffic lies inside the reported phases; scripts run unprivileged in a scratch directory with stand-ins for rm and sleep; non-trivial: all but empty log sets',
      [job('p13', 'p13_scripts.cc', libs='', also=programs(flavor='asan'), args=['--case-timeout', '200'])])


def derived(pids, flavor, scale, shards=1, **over):
    """The jobs of other checks, built another way and at another scale."""
    out = []
    for pid in pids:
        for j in CHECKS[pid]['jobs']:
            k = dict(j, name=j['name'] + '-' + flavor, flavor=flavor, scale=scale * j.get('scale', 1.0) * (0.3 if pid in ('P04', 'P07') else 1.0), shards=shards, tshards=shards * 4, **over)
            if 'also' in k:
                k['also'] = {n: dict(e, flavor=flavor) for n, e in k['also'].items()}
            out.append(k)
    return out


def own_tests(flavor):
    compat = '/opt/vp/catch-compat'
    if not os.path.isdir(compat):
        return []
    repo = os.environ.get('VP_REPO', '/repo')
    scl, out = 'secure-computation-library', []
    for name, d, libs, extra in (('tests', 'test', 'tp', []),
                                 ('tests-scl', scl + '/test/scl', 'scl', ['-I', repo + '/' + scl + '/test', '-DMAX_VEC_READ_SIZE=1024',
                                                                          '-DSCL_TEST_DATA_DIR="%s/%s/test/data/"' % (repo, scl)])):
        src = []
        for p, _, fs in os.walk(os.path.join(repo, d)):
            src += ['@REPO@' + os.path.join(p, f)[len(repo):] for f in fs if f.endswith('.cc')]
        out.append(dict(name=name + '-' + flavor, src=sorted(src), libs=libs, flavor=flavor, plain=True, shards=1, timeout=100, args=[] if libs == 'tp' else ['~PRG'],  # that test reads past its own array
                        link=['-lCatch2Main', '-lCatch2'], defs=['-isystem', compat] + extra))
    return out


MEMCHECK = ['valgrind', '-q', '--error-exitcode=99', '--exit-on-first-error=yes', '--leak-check=no', '--show-mismatched-frees=no', '--num-callers=20']
check('R01', 'the workloads of all other checks at a small scale, the shipped programs and the project\'s own tests under AddressSanitizer, '
      'UndefinedBehaviorSanitizer and libstdc++ assertions, and the single-threaded ones once more under valgrind (uninitialised values); only '
      'memory errors and undefined behaviour count here; non-trivial as in the other checks',
      lambda tier: derived([p for p in CHECKS if p[0] in 'MCSNP' and p != 'P13'], 'asan', 0.06) + own_tests('asan') +
      derived(['M01', 'M02', 'M03', 'M05', 'M06', 'M07', 'C01', 'C02', 'S01', 'S02', 'S03', 'N01', 'N04', 'N06', 'P01', 'P02', 'P03', 'P06', 'P09', 'P10', 'P12'],
              'vg', 0.002 if tier == 'quick' else 0.02, wrap=MEMCHECK, timeout=300 if tier == 'quick' else 3000),
      only_crash='memory', technique='AddressSanitizer, UndefinedBehaviorSanitizer, libstdc++ assertions and valgrind memcheck over all workloads')
check('R02', 'independent objects of every part of the library used by 2 to 6 threads at once, both ends of a channel and a queue with several producers and '
      'consumers; parties in threads over in-memory and TCP networks (both protocols, with the parallel halves of preprocessing the programs use), channels with sender '
      'and receiver threads on both ends, network set-up, discovery, and the shipped programs, under ThreadSanitizer with random delays; only data races count here; '
      'non-trivial as in the other checks',
      lambda tier: [j for j in derived(['P08', 'P11', 'N01', 'N02', 'N03', 'N05', 'N07', 'N08'], 'tsan', 0.4, shards=2) if j['name'] != 'p08-tsan'] +
      [job('threads-tsan', 'r02_threads.cc', libs='tp', flavor='tsan', shards=4, tshards=8)],
      only_crash='race', technique='ThreadSanitizer over concurrent workloads with random delays')
