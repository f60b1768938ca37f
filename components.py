"""What is run for each property (see check.py for how)."""

COMPONENTS = {
    'delayed': {'kind': 'conform', 'gen': 'DelayedGen.tla', 'worker': 'dworker.py', 'trace': 'DelayedTrace.tla',
                'depth': 14, 'env': {'MAXOPS': '6'}},
    'delayed_all': {'kind': 'conform', 'gen': 'DelayedAll.tla', 'worker': 'dworker.py', 'trace': 'DelayedTrace.tla',
                    'simulate': False},
    'chan': {'kind': 'conform', 'gen': 'ChanGen.tla', 'worker': 'cworker.py', 'trace': 'ChanTrace.tla', 'depth': 40},
    'chan_probe': {'kind': 'conform', 'gen': 'ChanGen.tla', 'worker': 'cworker.py', 'trace': 'ChanTrace.tla',
                   'simulate': False},
    'lazy': {'kind': 'conform', 'gen': 'LazyGen.tla', 'worker': 'lworker.py', 'trace': 'LazyTrace.tla', 'depth': 60},
    'quant': {'kind': 'conform', 'gen': 'QuantGen.tla', 'worker': 'qworker.py', 'trace': 'QuantTrace.tla', 'depth': 60},
    'net': {'kind': 'conform', 'gen': 'NetGen.tla', 'worker': 'nworker.py', 'trace': 'NetTrace.tla', 'depth': 60},
    'net_all': {'kind': 'conform', 'gen': 'NetGen.tla', 'worker': 'nworker.py', 'trace': 'NetTrace.tla',
                'simulate': False},
    'net_model': {'kind': 'model', 'spec': 'NetModel.tla', 'cfg': 'NetModel.cfg', 'thorough_cfg': 'NetModelT.cfg'},
    'net_model_u': {'kind': 'model', 'spec': 'NetModel.tla', 'cfg': 'NetModelU.cfg', 'thorough_cfg': 'NetModelUT.cfg'},
    'cache': {'kind': 'conform', 'gen': 'CacheGen.tla', 'worker': 'kworker.py', 'trace': 'CacheTrace.tla', 'depth': 60},
    'cache_all': {'kind': 'conform', 'gen': 'CacheGen.tla', 'worker': 'kworker.py', 'trace': 'CacheTrace.tla',
                  'simulate': False},
    'optimizer': {'kind': 'model', 'spec': 'Optimizer.tla', 'cfg': 'Optimizer.cfg'},
    'cache_model': {'kind': 'model', 'spec': 'CacheModel.tla', 'cfg': 'CacheModel.cfg',
                    'thorough_cfg': 'CacheModelT.cfg'},
}


def D(profile, quick, thorough=None, shards=4, maxops='6'):
    return {'comp': 'delayed', 'par': {'PROFILE': profile, 'MAXOPS': maxops}, 'quick': quick,
            'thorough': thorough or quick * 8, 'shards': shards}


def Ch(profile, quick, thorough=None, shards=4, maxops='8'):
    return {'comp': 'chan', 'par': {'PROFILE': profile, 'MAXOPS': maxops}, 'quick': quick,
            'thorough': thorough or quick * 8, 'shards': shards}


OPS = ['crop', 'corner', 'band', 'flip', 'half', 'double', 'quart', 'near', 'mirror', 'shift', 'rot', 'fixed', 'ov', 'deq',
       'pad', 'cat', 'part', 'undo', 'opt']


def All(leaf, quick, thorough=None):
    """every chain of operations up to a length: quick, and in the thorough tier"""
    out = []
    for o in ['any'] if quick < 3 else OPS:
        out.append({'comp': 'delayed_all', 'par': {'LEAF': leaf, 'FIRST': o, 'MAXOPS': str(quick)}, 'quick': 1,
                    'thorough': 0, 'shards': 1})
    for o in OPS if thorough else []:
        out.append({'comp': 'delayed_all', 'par': {'LEAF': leaf, 'FIRST': o, 'MAXOPS': str(thorough)}, 'quick': 0,
                    'thorough': 1, 'shards': 1})
    return out


MODEL = {'comp': 'optimizer', 'par': {'LEN': '2', 'WIDE': '0'}, 'tpar': {'LEN': '3', 'WIDE': '0'}}
PROBE = {'comp': 'chan_probe', 'par': {'PROFILE': 'probe', 'MAXOPS': '1'}, 'quick': 1, 'thorough': 1, 'shards': 1}


def L(profile, quick, thorough=None, shards=4, maxops='10'):
    return {'comp': 'lazy', 'par': {'PROFILE': profile, 'MAXOPS': maxops}, 'quick': quick,
            'thorough': thorough or quick * 8, 'shards': shards}


PROPERTIES = {
    'C01': [D('mix', 1200), D('chan', 800), D('crop', 800), D('over', 800), D('chain', 800)] + All('file', 2, 3),
    'C02': [D('geom', 2400), D('param', 800), D('over', 800), D('edge', 400), D('chain', 800)] + All('file', 2, 4),
    'C03': [D('mix', 1600, shards=8), D('edge', 1600), D('quant', 800), D('chain', 1200)] + All('mem', 2, 3),
    'C04': [D('shape', 3000), D('mix', 1600)],
    'C05': [D('hist', 4800, shards=8)],
    'C06': [MODEL, D('geom', 1600), D('param', 1200), D('over', 800), D('mix', 800), D('chain', 800)] + All('ints', 2, 3),
    'C07': [D('param', 3600), D('mix', 1200), D('setp', 2000)],
    'C08': [D('chan', 4800, shards=8)],
    'C09': [D('crop', 2400, shards=8), D('edge', 800)],
    'C10': [D('tfrom', 5600, shards=8)],
    'C11': [D('undo', 4000, shards=8)],
    'C12': [D('over', 3600, shards=6), D('chain', 1600)],
    'C13': [L('read', 2400, shards=5), L('view', 1200, shards=3)],
    'C14': [L('nodata', 3600, shards=5), L('view', 1200, shards=3)],
    'C15': [D('quant', 2000, shards=6), D('chain', 800),
            {'comp': 'quant', 'par': {'MAXOPS': '6'}, 'quick': 2400, 'thorough': 30000, 'shards': 3}],
    'C16': [{'comp': 'cache_model'},
            {'comp': 'cache', 'par': {'MODE': 'rand', 'MAXOPS': '25'}, 'quick': 4000, 'thorough': 40000, 'shards': 6},
            {'comp': 'cache_all', 'par': {'MODE': 'all', 'MAXOPS': '3'}, 'quick': 1, 'thorough': 1, 'shards': 1}],
    'C17': [PROBE, Ch('fused', 2400, shards=8)],
    'C18': [Ch('fused', 2400, shards=6), Ch('multi', 800, shards=2)],
    'C19': [PROBE, Ch('multi', 2400, shards=8)],
    'C20': [PROBE, Ch('sensor', 2400, shards=8)],
    'C21': [Ch('sensor', 2400, shards=8)],
    'C22': [PROBE, Ch('hist', 2400, shards=8, maxops='12')],
    'C23': [D('intro', 4800, shards=8)],
    'C25': [{'comp': 'net_model'}, {'comp': 'net_model_u'},
            {'comp': 'net', 'par': {'MODE': 'rand', 'MAXOPS': '6'}, 'quick': 3000, 'thorough': 40000, 'shards': 6},
            {'comp': 'net_all', 'par': {'MODE': 'all', 'MAXOPS': '1'}, 'quick': 1, 'thorough': 1, 'shards': 1}],
    'C26': [D('canvas', 3600, shards=6), D('shape', 800, shards=2)],
    'C27': [D('known', 4800, shards=8)],
    'C24': [D('lazy', 4000, shards=8)],
}

NOTES = {
    '*': 'Every generated behaviour of the specification (bounded number of views, sizes and transforms) is '
         'performed on the real library and each recorded observation is decided by TLC against the specification. '
         'Assumes the worker reports faithfully; tolerances for resampled values are written in the specification.',
}
NOT_APPLICABLE = {}
