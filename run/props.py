"""What each check does."""
import os
import engine

V = engine.V


def known(pid):
    """Open findings (none at present): lines 'open: property=<id> <what fails>'."""
    out = []
    p = os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('open: property=%s ' % pid):
                out.append(ln.split(' ', 2)[2])
    return out


def seeds(ctx, quick, thorough):
    n = thorough if ctx.thorough else quick
    return [ctx.seed + 1000003 * i for i in range(n)]


def J(fn, *a, **k):
    return (fn, a, k)


RANK = [('MCRank', 'MCRank'), ('MCRank', 'MCRank_2')]


def _plus(d, models):
    d = dict(d)
    for k in ('mcs', 'mct'):
        if d.get(k):
            d[k] = d[k] + models
    return d


RSS_MC = ['MCRss_2_4_1', 'MCRss_2_4_2', 'MCRss_3_3_1']
RSS_MC_T = RSS_MC + ['MCRss_3_4_1', 'MCRss_2_5_1']


def rss(mode, mcs=None, mct=None, nq=1, nt=8):
    def check(ctx):
        exe = ctx.build('h_rss')
        jobs = [J(ctx.mc, s, c) for s, c in (mct if ctx.thorough else mcs)]
        for i, s in enumerate(seeds(ctx, nq, nt)):
            jobs.append(J(ctx.conform, '%s%d' % (mode, i), [exe, '@OUT', mode], 'RssTrace',
                          env={'VERIF_SEED': str(s), 'VERIF_FIRST': str(int(not i))}, history=['session', 'table', 'walk']))
        ctx.parallel(jobs)
    return check


_rss = dict(mcs=[('MCRss', c) for c in RSS_MC], mct=[('MCRss', c) for c in RSS_MC_T])


def prim(modes, spec, mcs, mct=None, nq=1, nt=10, hist=(), flags=(), settings=()):
    """modes: harness modes run with every seed, '!' in front: with the first seed only."""
    def check(ctx):
        exe = ctx.build('h_prim', flags=flags)
        jobs = [J(ctx.mc, s, c) for s, c in ((mct or mcs) if ctx.thorough else mcs)]
        for i, s in enumerate(seeds(ctx, nq, nt)):
            for m in modes:
                if m.startswith('!') and i:
                    continue
                m = m.lstrip('!')
                jobs.append(J(ctx.conform, '%s%d' % (m, i), [exe, '@OUT', m], spec,
                              env={'VERIF_SEED': str(s), 'VERIF_FIRST': str(int(not i))}, history=list(hist)))
        for i, extra in enumerate(settings):      # other settings of the build
            other = ctx.build('h_prim', flags=list(flags) + list(extra))
            for s in seeds(ctx, 1, max(1, nt // 8)):
                jobs.append(J(ctx.conform, '%sset%d' % (modes[0], i), [other, '@OUT', modes[0]], spec,
                              env={'VERIF_SEED': str(s), 'VERIF_FIRST': '0'}, history=list(hist)))
        ctx.parallel(jobs)
    return check


def _prgset(nonce, counter):
    return ['-DPRG_NONCE=' + nonce, '-DPRG_INITIAL_COUNTER=' + counter, '-DVERIF_NONCE=' + nonce, '-DVERIF_COUNTER=' + counter]


FIELD_MC = [('MCMersenneField', 'MCMersenneField_3_2_5'), ('MCMersenneField', 'MCMersenneField_2_3_5'),
            ('MCFieldOverride', 'MCFieldOverride'), ('MCFieldAlgo', 'MCFieldAlgo_3_4'), ('MCFieldAlgo', 'MCFieldAlgo_5_8'),
            ('MCFieldAlgo', 'MCFieldAlgo_7_8')]
FIELD_MC_T = FIELD_MC + [('MCMersenneField', 'MCMersenneField_4_2_7'), ('MCMersenneField', 'MCMersenneField_3_3_7'),
                         ('MCFieldAlgo', 'MCFieldAlgo_7_10')]

def proto(mode, mcs, mct=None, gen=(), gent=None, faulty=(), nq=2, nt=16):
    """gen: (spec, cfg, prefix of the schedule lines, limit)"""
    def check(ctx):
        exe = ctx.build('h_proto')

        def generated(label, spec, cfg, prefix, limit):
            path = ctx.schedules(spec, cfg, prefix, limit)
            ctx.conform(label, [exe, '@OUT', mode, path], 'ProtoTrace', history=['session'])
        jobs = [J(generated, '%s-gen%d' % (mode, i), *g) for i, g in enumerate((gent or gen) if ctx.thorough else gen)]
        jobs += [J(ctx.mc, s, c) for s, c in ((mct or mcs) if ctx.thorough else mcs)]
        jobs += [J(ctx.refuted, *f) for f in faulty]
        for i, s in enumerate(seeds(ctx, nq, nt)):
            jobs.append(J(ctx.conform, '%s%d' % (mode, i), [exe, '@OUT', mode], 'ProtoTrace',
                          env={'VERIF_SEED': str(s), 'VERIF_FIRST': str(int(not i))}, history=['rand', 'dummy'] if mode == 'corr' else ['session']))
        if mode != 'corr':
            jobs.append(J(ctx.conform, mode + '-large', [exe, '@OUT', mode, 'large'], 'ProtoTrace', history=['session']))
        ctx.parallel(jobs)
    return check


MULT = dict(mcs=[('MCMult', 'MCMult_4'), ('MCMult', 'MCMult_4b'), ('MCMult', 'MCMult_7')],
            gen=[('MCMult', 'MCMult_4s', 'mult 4 1 2 2 1', 1000), ('MCMult', 'MCMult_4bs', 'mult 4 1 3 1 0 2', 300)],
            gent=[('MCMult', 'MCMult_4s', 'mult 4 1 2 2 1', 1000), ('MCMult', 'MCMult_4bs', 'mult 4 1 3 1 0 2', 5000),
                  ('MCMult', 'MCMult_7', 'mult 7 2 3 1 0 2', 1000)],
            faulty=[('MCMult', 'MCMult_keep'), ('MCMult', 'MCMult_remask')])
CHECKPH = dict(mcs=[('MCCheck', 'MCCheck_3')], mct=[('MCCheck', 'MCCheck_3'), ('MCCheck', 'MCCheck_4')],
               gen=[('MCCheck', 'MCCheck_3', 'check 3 1 1 2', 250)], gent=[('MCCheck', 'MCCheck_3', 'check 3 1 1 2', 4000)],
               faulty=[('MCCheck', 'MCCheck_hash', ['-simulate', 'num=20', '-depth', '200'])])
INPUT = dict(mcs=[('MCInput', 'MCInput_3'), ('MCInput', 'MCInput_4')],
             gen=[('MCInput', 'MCInput_3s', 'input 3 1 3 2 0 1', 400)],
             gent=[('MCInput', 'MCInput_3s', 'input 3 1 3 2 0 1', 2000), ('MCInput', 'MCInput_4', 'input 4 1 4 2 0 1 1', 3000)])


def race_detector(ctx, h):
    # with the thread sanitizer, where it works
    libs = h != 'h_race'
    exe = ctx.build(h, flags=['-fsanitize=thread', '-g1'], libs=libs)
    rc, _ = ctx.run([exe, '-', 'probe'], 30)
    return exe if rc == 0 else ctx.build(h, libs=libs)


def recorded(modes, mcs, mct=None, faulty=(), gen=(), gent=None, nq=2, nt=16):
    """modes: (harness, mode, trace specification, history events, runs with how many seeds: None = all);
    gen: (spec, cfg, prefix, limit, harness, mode, trace specification)"""
    def check(ctx):
        exes = {h: ctx.build(h) for h in sorted({m[0] for m in modes} - {'h_race'})}
        raced = {h: race_detector(ctx, h) for h in sorted({m[0] for m in modes if m[0] == 'h_race' or m[1].lstrip('!') == 'threads'})}
        guarded = {h: ctx.build(h, flags=['-fsanitize=address', '-fno-omit-frame-pointer']) for h in sorted({m[0] for m in modes if m[1] == '!memory'})}

        def generated(label, spec, cfg, prefix, limit, h, mode, ts):
            path = ctx.schedules(spec, cfg, prefix, limit)
            ctx.conform(label, [exes[h], '@OUT', mode, path], ts, history=['session'])
        jobs = [J(generated, 'gen%d' % i, *g) for i, g in enumerate((gent or gen) if ctx.thorough else gen)]
        jobs += [J(ctx.mc, s, c) for s, c in ((mct or mcs) if ctx.thorough else mcs)]
        jobs += [J(ctx.refuted, *f) for f in faulty]
        for i, sd in enumerate(seeds(ctx, nq, nt)):
            for h, mode, ts, hist in modes:
                if mode.startswith('!') and i:
                    continue
                m = mode.lstrip('!')
                jobs.append(J(ctx.conform, '%s-%s%d' % (h[2:], m, i), [(raced if h == 'h_race' or m == 'threads' else guarded if m == 'memory' else exes)[h], '@OUT', m], ts,
                              env={'VERIF_SEED': str(sd), 'VERIF_FIRST': str(int(not i))}, history=list(hist)))
        ctx.parallel(jobs)
    return check


_ch = lambda c: ('MCChannel', 'MCChannel_%s' % c)
CHANNEL = dict(mcs=[_ch(c) for c in ('0', '2', '4', '3f0', '3f1', '3f2', 'pop')],
               faulty=[_ch(c) for c in ('torn', 'early', 'stuck')],
               gen=[('MCChannel', 'MCChannel_4', '-1 4', 400, 'h_sync', 'chan', 'ChanTrace')] +
                   [('MCChannel', 'MCChannel_3f%d' % f, '%d 3' % f, 400, 'h_sync', 'chan', 'ChanTrace') for f in (0, 1, 2)])
_dq = lambda c: ('MCDeque', 'MCDeque_%s' % c)
DEQUE = dict(mcs=[_dq(c) for c in ('1', '2', '3', '4', '2s', '4s')],
             faulty=[_dq(c) for c in ('if', 'ifs', 'mute', 'empty')],
             gen=[('MCDeque', 'MCDeque_1', 'p1p2 fxfx ss :', 1000, 'h_sync', 'deque', 'DequeTrace'),
                  ('MCDeque', 'MCDeque_2', 'p1p2 x x :', 1000, 'h_sync', 'deque', 'DequeTrace'),
                  ('MCDeque', 'MCDeque_3', 'p1 p2 fxfx :', 1000, 'h_sync', 'deque', 'DequeTrace'),
                  ('MCDeque', 'MCDeque_4', 'p1p2p3 x ff :', 1000, 'h_sync', 'deque', 'DequeTrace')])

def _cfgs(spec, *cs):
    return [(spec, '%s_%s' % (spec, c)) for c in cs]


_session = ['session']
_net = [('h_net', 'net', 'NetTrace', _session), ('h_real', 'net', 'NetTrace', _session)]
_cgen = lambda c, pre, k: ('MCConnect', 'MCConnect_' + c, pre, k, 'h_net', 'net', 'NetTrace')
CONNECT = dict(mcs=_cfgs('MCConnect', '2', '3', '4'), mct=_cfgs('MCConnect', '2', '3', '4', '4c', '5'),
               faulty=_cfgs('MCConnect', 'order', 'sum', 'early'),
               gen=[_cgen('2', '2 3', 300), _cgen('3', '3 2', 300), _cgen('4', '4 1', 200)],
               gent=[_cgen('2', '2 3', 3000), _cgen('3', '3 2', 5000), _cgen('4', '4 1', 5000), _cgen('4c', '4 2', 2000)])
TYPED = dict(mcs=_cfgs('MCTyped', '2', '3'), faulty=_cfgs('MCTyped', 'items', 'once', 'single'))

def experiments(ctx):
    flags = ['-DCLIENT_CONNECT_SLEEP=5ms']
    jobs = [J(ctx.mc, s, c) for s, c in _cfgs('MCExp', 'mult', 'mult0', 'mult5', 'mult7', 'check', 'check5', 'input', 'input5') +
            [('MCExpCount', 'MCExpCount')]]
    jobs += [J(ctx.refuted, s, c) for s, c in _cfgs('MCExp', 'short', 'greedy')]
    ctx.parallel(jobs)
    for x in ('input', 'mult', 'check'):
        exe = ctx.build('exp_' + x, flags=flags, src=os.path.join(engine.REPO, 'src', 'frn', 'exp_%s.cc' % x))
    # one experiment at a time: they use the same ports
    ctx.conform('exp', ['python3', os.path.join(V, 'harness', 'exp.py'), '@OUT', os.path.dirname(exe)], 'ExpTrace',
                timeout=3000 if ctx.thorough else 760, history=['run', 'alone'])


CHECKS = {
    'C01': rss('share', **_rss),
    'C02': rss('share', **_plus(_rss, RANK)),
    'C03': rss('detect', **_rss),
    'C04': rss('linear', **_rss),
    'C05': rss('mul', mcs=[('MCMultTab', 'MCMultTab')], mct=[('MCMultTab', 'MCMultTabT')]),
    'C06': proto('corr', [('MCCorr', 'MCCorr')] + RANK, faulty=[('MCCorr', 'MCCorr_shared')]),
    'C07': proto('mult', **MULT),
    'C08': proto('mult', **_plus(MULT, RANK)),
    'C09': proto('cd', **MULT),
    'C10': proto('check', **CHECKPH),
    'C11': proto('input', **INPUT),
    'C12': proto('input', **_plus(INPUT, RANK)),
    'C13': prim(['prg', '!prgbig'], 'PrgTrace', [('MCAes', None), ('MCPrg', None)], [('MCAes', None), ('MCPrg', 'MCPrgT')],
                nq=6, nt=60, hist=['new', 'copy'],
                settings=[_prgset('0xFEDCBA9876543210', '0xFFFFFFFE'), _prgset('0', '0x1FFFFFFFFFFFF0')]),
    'C14': prim(['hash'], 'HashTrace', [('MCSha3', None), ('MCHash', None)], nq=3, nt=20, hist=['new', 'copy']),
    'C15': prim(['field'], 'FieldTrace', FIELD_MC, FIELD_MC_T, nq=4, nt=40, hist=['bin', 'un', 'int', 'dec', 'const']),
    'C16': prim(['matrix'], 'MatTrace', [('MCMat', None)], nq=4, nt=40, hist=['mset', 'vec', 'vand', 'vandoff'],
                flags=['-fsanitize=address', '-fno-omit-frame-pointer']),
    'C17': recorded([('h_sync', 'chan', 'ChanTrace', _session), ('h_real', '!threads', 'NetTrace', _session)] + _net, nq=3, nt=40, **CHANNEL),
    'C18': recorded([('h_sync', 'chan', 'ChanTrace', _session), ('h_real', '!threads', 'NetTrace', _session)] + _net, nq=3, nt=40, **CHANNEL),
    'C19': recorded([('h_conn', 'tcp', 'TcpTrace', _session), ('h_conn', 'peer', 'TcpTrace', ['peer'])],
                    mcs=_cfgs('MCTcp', '0', '4', '6'), faulty=_cfgs('MCTcp', 'kept', 'once', 'retry', 'silent'), nq=3, nt=40),
    'C20': recorded(_net, nq=3, nt=40, **CONNECT),
    'C21': recorded([('h_conn', 'build', 'BuildTrace', ['bsession'])], mcs=[('MCBuilder', 'MCBuilder')],
                    faulty=[('MCBuilder', 'MCBuilder_forget')], nq=3, nt=40),
    'C22': recorded([('h_sync', 'deque', 'DequeTrace', ['session', 'burst']), ('h_race', 'deque', 'DequeTrace', ['session'])], nq=2, nt=30, **DEQUE),
    'C23': recorded([('h_net', 'typed', 'TypedTrace', _session), ('h_net', '!bulk', 'TypedTrace', _session)], nq=4, nt=40, **TYPED),
    'C24': recorded([('h_net', 'typed', 'TypedTrace', _session), ('h_net', 'serial', 'TypedTrace', ['serial'])], nq=3, nt=40, **TYPED),
    'C25': experiments,
    'C26': recorded([('h_conn', 'log', 'LogTrace', ['log'])], mcs=[('MCLog', 'MCLog')], nq=3, nt=40),
    'C27': rss('comb', mcs=[('MCComb', 'MCComb')], mct=[('MCComb', 'MCComb')]),
    'C29': recorded([('h_text', 'inv2', 'TextTrace', ['inv2'])], mcs=_cfgs('MCInv2', '8', '12') + [('MCWords', 'MCWords')], mct=_cfgs('MCInv2', '8', '12', '14') + [('MCWords', 'MCWords')],
                    faulty=_cfgs('MCInv2', 'early', 'start'), nq=2, nt=40),
    'C30': recorded([('h_text', 'text', 'TextTrace', ['number', 'hex', 'list', 'says'])], mcs=[('MCWords', 'MCWords')], nq=2, nt=40),
    'C28': recorded([('h_circ', 'circ', 'CircTrace', _session), ('h_circ', 'threads', 'CircTrace', _session), ('h_circ', '!memory', 'CircTrace', _session)], mcs=_cfgs('MCCirc', '1', '2', '3'),
                    mct=_cfgs('MCCirc', '1', '2', '3', '4', '5', '5b'), faulty=_cfgs('MCCirc', 'unread', 'short', 'last'), nq=2, nt=24),
}
