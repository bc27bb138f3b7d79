"""Which models and scenarios decide which property."""
import random
from geo import spread, rescale
import gen_mesh, gen_region, gen_fun, gen_poly, gen_cont, gen_io, gen_basics

MESH = {      # property: (kinds, quick, thorough)
    'C01': ('vor,tri,restricted,session,cut', 1000, 12000),
    'C02': ('vor,tri,tri,restricted', 1000, 12000),
    'C03': ('vor,tri,restricted,cut', 1000, 12000),
    'C04': ('restricted', 1000, 10000),
    'C05': ('session', 800, 8000),
    'C06': ('vor,vor,cut', 600, 6000),
    'C07': ('vor,vor,cut', 1000, 10000),
    'C08': ('vor,tri,restricted,cut', 800, 8000),
}


POLY = {
    'C16': [('poly', 1600, 30000)],
    'C17': [('where', 1600, 30000)],
    'C18': [('poly', 800, 15000), ('simp', 1000, 20000)],
    'C19': [('ptri', 1500, 25000)],
    'C22': [('seg', 1200, 20000)],
    'C25': [('hull', 2500, 50000)],
}

CLAIMED = {i: 'generated domains, seeds and request histories of quick (hundreds) and thorough (thousands) size.'
           for i in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C22', 'C23', 'C24', 'C25', 'C26', 'C27', 'C09', 'C10', 'C20', 'C21')}


# Models that print scenarios: (module, configuration, how many of them in a quick and a thorough check; 0: none)
ALL = 10 ** 9
REQUESTS = [('XRequests', 'XRequests', 250, ALL), ('XRequests', 'XRequestsRich', 0, ALL)]
DOMAINS = [('XDomains', 'XDomains', 300, ALL), ('XDomains', 'XDomainsDeep', 0, 8000)]
SEGMENTS = [('XSegments', 'XSegments', 300, ALL), ('XSegments', 'XSegmentsTwo', 0, 8000)]
REGIONS = [('XRegions', 'XRegions', 300, ALL), ('XRegions', 'XRegionsDeep', 0, 6000)]
ASKED = [('XRegions', 'XRegions', 60, 500)]


def RINGS(what):
    return [('XRings', 'XRings' + what, 250, ALL), ('XRings', 'XRings%sDeep' % what, 0, 6000)]


EXPLORE = {
    'C01': DOMAINS + SEGMENTS, 'C02': DOMAINS + SEGMENTS, 'C03': DOMAINS + SEGMENTS, 'C04': SEGMENTS, 'C05': REQUESTS,
    'C06': DOMAINS, 'C07': DOMAINS, 'C08': DOMAINS,
    'C09': [('XFiles', 'XFilesWrite', ALL, ALL), ('XFiles', 'XFilesWriteDeep', 0, ALL)],
    'C10': [('XFiles', 'XFilesRead', ALL, ALL), ('XFiles', 'XFilesReadDeep', 0, ALL)],
    'C11': REGIONS, 'C12': REGIONS, 'C13': REGIONS,
    'C14': [('XGrids', 'XGrids', 800, ALL), ('XGrids', 'XGridsDeep', 0, 20000)],
    'C15': [('XGrids', 'XGridsRandom', 500, ALL)],
    'C16': RINGS('Ask') + ASKED, 'C17': RINGS('Where') + ASKED, 'C18': RINGS('Ask') + RINGS('Simple') + ASKED, 'C19': RINGS('Tri'),
    'C22': [('XPairs', 'XPairs', ALL, ALL), ('XPairs', 'XPairsDeep', 0, ALL)],
    'C23': [('XConfig', 'XConfigCircles', 400, 8000)],
    'C24': [('XConfig', 'XConfig', 500, ALL), ('XConfig', 'XConfigDeep', 0, 8000)],
    'C25': [('XHull', 'XHull', ALL, ALL), ('XHull', 'XHullDeep', 0, ALL)],
    'C27': [('XBasics', 'XBasics', 500, ALL), ('XBasics', 'XBasicsDeep', 0, 12000)],
    'C20': [('XLists', 'XListsInt', 400, ALL), ('XLists', 'XListsPt', 400, ALL)],
    'C21': [('XLists', 'XListsPt', 200, ALL), ('XMaps', 'XMapsPm', 300, ALL), ('XMaps', 'XMapsSm', 300, ALL)],
}

# whose violations need not come up again when the scenario is repeated
RANDOM = {'C15'}


def models(prop, tier):
    """Models of the specification itself, checked exhaustively."""
    if prop == 'C22':
        return [('SelfTest', 'SelfTest', 2)] if tier == 'quick' else [('SelfTest', 'SelfTestWide', 4)]
    if prop == 'C17' and tier != 'quick':
        return [('XRings', 'XRingsCheck', 4)]
    return []


def explorations(prop, tier):
    return [(m, c, n) for m, c, a, b in EXPLORE.get(prop, []) for n in [a if tier == 'quick' else b] if n]


def scenarios(prop, tier, seed, explored):
    """The scenarios of a check: those of the generators, and of the models' (all, or a sample)."""
    out = []
    q = 0 if tier == 'quick' else 1
    for (m, c, n), scripts in zip(explorations(prop, tier), explored):
        if len(scripts) > n:
            scripts = random.Random('%s/%s/%s' % (seed, c, n)).sample(scripts, n)
        out += [['scenario %s_%d model 20' % (c, i)] + s.split(';') for i, s in enumerate(scripts)]
    k = len(out)
    if prop in MESH:
        kinds, a, b = MESH[prop]
        n = (a, b)[q]
        out += gen_mesh.suite('%d' % seed, kinds.split(','), n - n // 5)
        out += gen_mesh.suite('%d/big' % seed, kinds.split(','), n // 5, size=120, nseeds=40)
        out += gen_mesh.suite('%d/hash' % seed, kinds.split(','), (12, 120)[q], make=gen_mesh.colliding_scenario)
        out += gen_mesh.suite('%d/large' % seed, kinds.split(','), (12, 120)[q], size=400, nseeds=400)
        out += gen_mesh.suite('%d/huge' % seed, kinds.split(','), (3, 24)[q], size=1000, nseeds=1500)
        if 'restricted' in kinds:
            out += gen_mesh.suite('%d' % seed, ['thr'], {'C04': (600, 6000)}.get(prop, (200, 2000))[q], make=gen_mesh.through_scenario)
    if prop == 'C11':
        out += gen_region.holes_suite(seed, (900, 12000)[q]) + gen_region.suite(seed, 'reg', (400, 4000)[q], holes=.6, seeds=.15)
    if prop == 'C12':
        out += gen_region.suite(seed, 'reg', (1000, 12000)[q], holes=.25, seeds=.55, ops=12)
    if prop == 'C13':
        out += gen_region.suite(seed, 'reg', (1000, 12000)[q], ops=12)
    if prop == 'C14':
        out += gen_fun.suite(seed, 'gen', (2000, 40000)[q])
    if prop == 'C15':
        out += gen_fun.suite(seed, 'rand', (600, 8000)[q])
    if prop == 'C23':
        out += gen_fun.suite(seed, 'circ', (1000, 15000)[q])
    if prop == 'C24':
        out += gen_fun.suite(seed, 'conf', (1500, 30000)[q])
    if prop == 'C20':
        out += gen_cont.suite(seed, 'ul', (1500, 30000)[q])
    if prop == 'C21':
        out += gen_cont.suite(seed, 'maps', (1200, 20000)[q]) + gen_cont.suite(seed, 'ul', (500, 10000)[q])
    if prop == 'C09':
        out += gen_io.suite(seed, 'mwrite', (800, 15000)[q]) + gen_io.suite(seed, 'mwreal', (200, 3000)[q])
        out += [gen_io.large(n) for n in (1027, 70000, 1100000)[:(2, 3)[q] + 1]]
    if prop == 'C10':
        out += gen_io.suite(seed, 'mread', (1200, 20000)[q])
    if prop == 'C26':
        out += gen_io.suite(seed, 'rwrite', (1000, 12000)[q])
    if prop == 'C24':
        out += gen_io.suite(seed, 'mwrite', (300, 5000)[q])
    if prop == 'C27':
        out += gen_basics.suite(seed, (1200, 20000)[q])
    if prop in ('C16', 'C17', 'C18'):
        out += gen_region.suite(seed, 'ask', (240, 4000)[q], asks=.5, seeds=.05, ops=14)
    for kind, a, b in POLY.get(prop, []):
        out += gen_poly.suite(seed, kind, (a, b)[q])
    if prop in MESH or prop in ('C11', 'C12', 'C13'):
        out[k:] = spread(seed, out[k:])
    out[k:] = rescale(seed, out[k:])
    if prop == 'C21':                     # a known finding, and what it makes of a mesh
        out.append(['scenario ties0 ul 20', 'ul pt new A', 'ul pt push A 1491459 -11186681', 'ul pt push A 1491446 -3728896', 'ul pt push A 1491453 -3728894'])
    if prop == 'C08':
        out.append(['scenario jitter0 mesh 20',
                    'rg_new R 8 2982912 -14915584 2982912 0 14915584 0 14915584 14915584 -14915584 14915584 -14915584 0 -5965824 0 -5965824 -14915584',
                    'rg_phole R 4 10105856 2024448 19726336 2024448 19726336 10758144 10105856 10758144',
                    'rg_addseeds R 6 -7457792 -7457792 -7457792 7457792 0 -7457792 0 0 0 7457792 7457792 -7457792',
                    'voronoi R'])
    if prop == 'C18':                     # a known finding
        out.append(['scenario indexes0 simp 20', 'psimple indexes 4 0 0 4194304 4194304 4194304 0 0 4194304'])
    return dedupe(out)


def dedupe(out):
    """Names made unique."""
    seen = {}
    for s in out:
        w = s[0].split()
        k = seen.get(w[1], 0)
        seen[w[1]] = k + 1
        if k:
            w[1] += 'x%d' % k
            s[0] = ' '.join(w)
    return out
