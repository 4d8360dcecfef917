"""What each property's check runs: TLC explorations and the replays bound to them."""
CHECKS = {}
def check(pid, level='model_checking', **kw):
    def deco(f): CHECKS[pid] = dict(run=f, level=level, **kw); return f
    return deco

@check('C15')
def c15(c):
    n = 3000 if c.quick else 40000
    r = c.parallel(lambda: c.tlc('ArazzoEngine', 'Arazzo_random.cfg', sim=n, procs=5),
                   lambda: c.tlc('ArazzoEngine', 'Arazzo_tiny.cfg', workers=2),
                   lambda: c.tlc('ArazzoEngine', 'Arazzo_loop.cfg'),
                   lambda: c.tlc('ArazzoEngine', 'Arazzo_deep.cfg'),
                   lambda: c.build())
    c.drive('arazzo', sum(r[:4], []))

@check('C18')
def c18(c):
    n = 3000 if c.quick else 60000
    r = c.parallel(lambda: c.tlc('ParTrans', 'ParTrans_ex.cfg', workers=4),
                   lambda: c.tlc('ParTrans', 'ParTrans_live.cfg'),
                   lambda: c.tlc('ParTrans', 'ParTrans_sim.cfg', sim=n, procs=2, depth=200),
                   lambda: c.build(), lambda: c.build(race=True))
    c.drive('partrans', r[2] + r[1])
    c.drive('partrans', r[0], limit=20000 if c.quick else None)
    c.drive('partrans', r[2], race=True, limit=1200 if c.quick else 8000, vec_timeout=60)

@check('C19')
def c19(c):
    n = 2000 if c.quick else 40000
    r = c.parallel(lambda: c.tlc('OrderedMapSpec', 'OrderedMap_ex.cfg', workers=4),
                   lambda: c.tlc('OrderedMapSpec', 'OrderedMap_long.cfg', sim=n, procs=2, depth=60),
                   lambda: c.build())
    c.drive('omap', r[0] + r[1])

@check('C14')
def c14(c):
    n = 8000 if c.quick else 120000
    r = c.parallel(lambda: c.tlc('OverlayEngine', 'Overlay_small.cfg', workers=3),
                   lambda: c.tlc('OverlayEngine', 'Overlay_random.cfg', sim=n, procs=4, depth=200),
                   lambda: c.build(), lambda: c.tlc('OverlayEngine', 'Overlay_triple.cfg', workers=2))
    c.drive('overlay', r[0] + r[1] + r[3])

@check('C06')
def c06(c):
    # lines are long: one TLC worker writes them
    r = c.parallel(lambda: c.tlc('OasEdit', 'OasEdit.cfg', workers=1), lambda: c.build())
    c.drive('oasrender', c.thin(r[0]), shards=8, vec_timeout=300)

@check('C07')
def c07(c):
    n = 1200 if c.quick else 24000
    r = c.parallel(lambda: c.tlc('OasEdit', 'OasEdit_main.cfg', workers=1), lambda: c.build(),
                   lambda: c.tlc('OasHist', 'OasHist.cfg', sim=n, procs=6, depth=30, timeout=3000))
    c.drive('oasedit', c.thin(r[0]), shards=8, vec_timeout=300)
    c.drive('oashist', r[2], shards=8, vec_timeout=60)

@check('C11')
def c11(c):
    r = c.parallel(lambda: c.tlc('OasEdit', 'OasEdit.cfg', workers=1), lambda: c.build())
    c.drive('oashash', c.thin(r[0]), shards=8, vec_timeout=300)

@check('C09')
def c09(c):
    r = c.parallel(lambda: c.tlc('OasEdit', 'OasEdit.cfg', workers=1), lambda: c.build())
    c.drive('oasdiff', c.thin(r[0]), shards=8, vec_timeout=300)

@check('C10')
def c10(c):
    n = 800 if c.quick else 20000
    r = c.parallel(lambda: c.tlc('OasBreak', 'OasBreak.cfg', workers=1), lambda: c.tlc('BreakYaml', 'BreakYaml.cfg'),
                   lambda: c.tlc('BreakConf', 'BreakConf.cfg', sim=n, procs=4, depth=60), lambda: c.build())
    c.drive('oasbreak', c.thin(r[0], rest=0.3), shards=8, vec_timeout=300)
    c.drive('breakyaml', r[1])
    c.drive('breakconf', r[2])

@check('C01')
def c01(c):
    n = 1 if c.quick else 25
    r = c.parallel(lambda: c.tlc('RefGraph', 'RefGraph_small.cfg', sim=4000 * n, procs=2, depth=600, timeout=3000),
                   lambda: c.tlc('RefGraph', 'RefGraph_mid.cfg', sim=4000 * n, procs=2, depth=600, timeout=3000),
                   lambda: c.tlc('RefGraph', 'RefGraph.cfg', sim=3000 * n, procs=2, depth=600, timeout=3000),
                   lambda: c.tlc('RefGraph', 'RefGraph_hash.cfg', sim=2000, depth=600), lambda: c.build())
    c.drive('refgraph', r[0] + r[1] + r[2] + r[3], vec_timeout=60)


@check('C12')
def c12(c):
    n = 1 if c.quick else 25
    T = lambda cfg, k: (lambda: c.tlc('RefGraph', f'RefGraph_in_{cfg}.cfg', sim=k, procs=2, depth=600, timeout=3000))
    r = c.parallel(T('plain', 4000 * n), T('cycle', 3000 * n), T('dangle', 1500 * n),
                   lambda: c.tlc('RefGraph', 'RefGraph_in_hard.cfg', sim=2500, depth=600), lambda: c.build())
    c.drive('bundle', r[0] + r[1] + r[2], vec_timeout=60)
    c.drive('bundle', r[3], vec_timeout=60, env={'VH_ONE': 'cyclic-at-url'})


@check('C13')
def c13(c):
    n = 1 if c.quick else 25
    r = c.parallel(lambda: c.tlc('RefGraph', 'RefGraph_co_plain.cfg', sim=8000 * n, procs=4, depth=600, timeout=3000),
                   lambda: c.tlc('RefGraph', 'RefGraph_co_hard.cfg', sim=600, depth=600), lambda: c.build())
    c.drive('compose', r[0], vec_timeout=60)
    c.drive('compose', r[1], vec_timeout=60, env={'VH_ONE': 'illegal-name'})

@check('C02')
def c02(c):
    r = c.parallel(lambda: c.tlc('Cycles', 'Cycles_ex.cfg', workers=2),
                   lambda: c.tlc('Cycles', 'Cycles_sim.cfg', sim=3200 if c.quick else 80000, procs=5, depth=20, timeout=3000), lambda: c.build())
    c.drive('cycles', r[0] + r[1], vec_timeout=60)


@check('C03')
def c03(c):
    n = 1 if c.quick else 20
    r = c.parallel(lambda: c.tlc('RefGraph', 'RefGraph_small.cfg', sim=1200 * n, procs=2, depth=600, timeout=3000),
                   lambda: c.tlc('RefGraph', 'RefGraph_mid.cfg', sim=1600 * n, procs=2, depth=600, timeout=3000),
                   lambda: c.tlc('RefGraph', 'RefGraph.cfg', sim=1000 * n, procs=2, depth=600, timeout=3000),
                   lambda: c.build(), lambda: c.build(race=True))
    c.drive('det', r[0] + r[1] + r[2], vec_timeout=90)
    c.drive('det', r[1], race=True, limit=240 if c.quick else 4000, vec_timeout=240)


@check('C04')
def c04(c):
    n = 2400 if c.quick else 15000
    r = c.parallel(lambda: c.tlc('Loader', 'Loader_ex2.cfg', workers=4), lambda: c.tlc('Loader', 'Loader_ex3.cfg', workers=4, timeout=3000),
                   lambda: c.tlc('Loader', 'Loader_live.cfg'),
                   lambda: c.tlc('Loader', 'Loader_sim.cfg', sim=n, procs=4, depth=400, timeout=3000),
                   lambda: c.build(), lambda: c.build(race=True))
    c.drive('load', r[3], vec_timeout=60)
    c.drive('load', r[3], race=True, limit=240 if c.quick else 8000, vec_timeout=120)


@check('C05')
def c05(c):
    n = 1 if c.quick else 20
    r = c.parallel(lambda: c.tlc('Gates', 'Gates_small.cfg', sim=3000 * n, procs=3, depth=600, timeout=3000),
                   lambda: c.tlc('Gates', 'Gates_mid.cfg', sim=3000 * n, procs=3, depth=600, timeout=3000), lambda: c.build())
    c.drive('gates', r[0] + r[1], vec_timeout=90)
