"""One function per property. Each builds, drives the real code and validates the recordings."""
import json
import os

KEYSPACE_RULE = ('every reply of the real server must be one that Keyspace.tla allows in the state its '
                 'predecessors imply; transitions enumerated by TLC are replayed, random ones recorded')

CHECKS = {}


def check(prop, level='model_checking', rule=''):
    def deco(fn):
        CHECKS[prop] = (fn, level, rule)
        return fn
    return deco


def keyspace_paths(c, family, maxlen, maxpath):
    out = c.path('paths-%s.txt' % family)
    c.model('KeyspaceModel', '''CONSTANTS Family = "%s"
  MaxLen = %d
  MaxPath = %d
  Emit = TRUE
SPECIFICATION Spec
VIEW View
CONSTRAINT Bounded
ACTION_CONSTRAINT EmitPath
INVARIANT TypeOK
PROPERTY Always
CHECK_DEADLOCK FALSE
''' % (family, maxlen, maxpath), '%s, lengths <= %d' % (family, maxlen), workers=1, out=out)
    t = c.drive('paths', 1000000, mode=family, inp=out)
    c.validate(t, what='replay of every %s transition' % family)


def keyspace_random(c, mode, n, scale, seed=None):
    t = c.drive('seq', n, scale=scale, mode=mode, seed=seed)
    c.validate(t, what='random ' + mode)


@check('C01', rule=KEYSPACE_RULE)
def c01(c):
    keyspace_random(c, 'string', c.n(24, 400), c.n(400, 800))
    keyspace_random(c, 'string,string,counter', c.n(8, 100), c.n(300, 600), seed=c.seed + 1000)
    keyspace_paths(c, 'string', c.n(2, 4), 20)


@check('C02', rule=KEYSPACE_RULE)
def c02(c):
    keyspace_random(c, 'counter', c.n(32, 500), c.n(500, 1000))
    keyspace_paths(c, 'counter', 3, c.n(4, 6))


@check('C03', rule=KEYSPACE_RULE)
def c03(c):
    keyspace_random(c, 'list', c.n(32, 500), c.n(400, 800))
    keyspace_paths(c, 'list', c.n(3, 4), 20)


@check('C04', rule=KEYSPACE_RULE)
def c04(c):
    keyspace_random(c, 'hash', c.n(32, 500), c.n(400, 800))
    keyspace_paths(c, 'hash', 3, 20)


@check('C05', rule=KEYSPACE_RULE)
def c05(c):
    keyspace_random(c, 'set', c.n(32, 500), c.n(400, 800))
    keyspace_paths(c, 'set', 3, 20)


@check('C06', rule=KEYSPACE_RULE + '; all keys of all kinds are read around a third of the requests')
def c06(c):
    keyspace_random(c, 'string,counter,list,hash,set+frame', c.n(24, 300), c.n(120, 250))
    keyspace_random(c, 'string,counter,list,hash,set+frame+odd', c.n(16, 300), c.n(120, 250), seed=c.seed + 1000)


SERVER_PKGS = 'real:pkg/network,pkg/db,pkg/concurrency,pkg/log,pkg/replication,pkg/types,pkg/container,pkg/command'


def perturb(c, k=0):
    return {'VSCHED_SEED': str(c.seed * 1000 + k)}


@check('C07', rule='every request gets exactly one well-formed reply that Keyspace.tla allows')
def c07(c):
    t = c.drive('fuzz', c.n(24, 300), scale=c.n(300, 600))
    c.validate(t, what='all kinds of requests')
    keyspace_random(c, 'string,counter,list,hash,set+odd+log', c.n(16, 200), c.n(300, 500), seed=c.seed + 500)


@check('C09', rule='the replies on every connection are those of Keyspace.tla to its own requests in order')
def c09(c):
    t = c.drive('pipe', c.n(40, 500), scale=c.n(300, 600))
    c.validate(t, what='pipelines')
    t = c.drive('pipe', c.n(40, 400), scale=c.n(300, 500), instrument=SERVER_PKGS, env=perturb(c), seed=c.seed + 500)
    c.validate(t, what='pipelines, perturbed schedules')


@check('C10', rule='the concurrent history must be linearizable with respect to Store.tla')
def c10(c):
    t = c.drive('lin', c.n(120, 2000), scale=c.n(40, 60))
    c.validate(t, what='concurrent clients')
    t = c.drive('lin', c.n(180, 3000), scale=c.n(40, 60), instrument=SERVER_PKGS, env=perturb(c), seed=c.seed + 500)
    c.validate(t, what='concurrent clients, perturbed schedules')


@check('C25', rule='the replies to everybody, and late ones to stalled clients, are those of Store.tla')
def c25(c):
    t = c.drive('stall', c.n(12, 100), scale=c.n(20, 40))
    c.validate(t, what='stalled clients')


@check('C11', rule='what the real reader and writer do with every string must be what Resp.tla says')
def c11(c):
    c.model('RespModel', '''CONSTANTS Mode = "values"
  MaxLen = 1
  Emit = FALSE
SPECIFICATION Spec
INVARIANT Sound
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
''', 'values', workers=1)
    out = c.path('strings.txt')
    c.model('RespModel', '''CONSTANTS Mode = "bytes"
  MaxLen = %d
  Emit = TRUE
SPECIFICATION Spec
INVARIANT Sound
INVARIANT EmitString
CHECK_DEADLOCK FALSE
''' % c.n(7, 9), 'byte strings', out=out)
    t = c.record('zzresp', ['-n', c.n(1000, 20000), '-in', out])
    c.validate(t, spec='RespTrace', what='reader and writer')


@check('C08', rule='the requests before a defect may take effect in order, nothing else does')
def c08(c):
    t = c.drive('malformed', c.n(400, 4000), scale=3)
    c.validate(t + '.resp', spec='RespTrace', what='streams with a defect')
    c.validate(t, what='clients with a defect')
    t = c.drive('malformed', c.n(80, 1000), scale=3, instrument=SERVER_PKGS, env=perturb(c), seed=c.seed + 500)
    c.validate(t, what='clients with a defect, perturbed schedules')


def lives(c, acts, steps, cap):
    """Replays the lives that StoreModel generates."""
    text = ''.join('INVARIANT %s\n' % i for i in ('Rebuildable', 'SafeIs', 'Sent'))
    text += ''.join('PROPERTY %s\n' % i for i in ('Apart', 'Stops', 'Crashes', 'Replicas', 'Unharmed', 'Rest'))
    inp = c.scripts('StoreModel', steps, True, text, cap, consts='  Acts = {%s}\n' % ', '.join('"%s"' % a for a in acts),
                    acts=[a for a in acts if a != 'go'])
    t = c.drive('script', 0, inp=inp)
    c.validate(t, what='replay of lives')


@check('C12', rule='after every graceful stop and restart the state is the one Store.tla keeps')
def c12(c):
    t = c.drive('graceful', c.n(60, 800), scale=c.n(60, 100))
    c.validate(t, what='graceful restarts')
    t = c.drive('graceful', c.n(40, 500), scale=c.n(60, 100), instrument=SERVER_PKGS, env=perturb(c), seed=c.seed + 500)
    c.validate(t, what='graceful restarts, perturbed schedules')
    lives(c, ['stop', 'go'], c.n(5, 6), c.n(800, 12000))


@check('C13', rule='after every SIGKILL and restart the state is that after a prefix of the effects, see Store.tla')
def c13(c):
    t = c.drive('kill', c.n(80, 1000), scale=c.n(25, 40))
    c.validate(t, what='killed servers')
    t = c.drive('kill', c.n(60, 600), scale=c.n(25, 40), instrument=SERVER_PKGS, env=perturb(c), seed=c.seed + 500)
    c.validate(t, what='killed servers, perturbed schedules')
    lives(c, ['kill', 'stop', 'go'], c.n(5, 6), c.n(800, 12000))


@check('C14', rule='after a cut or garbage tail or an unreadable record, the state is that of the complete records, and it lasts')
def c14(c):
    t = c.drive('cut', c.n(24, 60), scale=c.n(8, 20))
    c.validate(t, what='damaged files')
    lives(c, ['cut', 'damage', 'kill'], c.n(5, 6), c.n(800, 12000))
    if not c.quick:
        t = c.drive('cut', 8, scale=1, mode='all', seed=c.seed + 500)
        c.validate(t, what='files cut at every byte')


@check('C15', rule='a replica has its own log and then a cut of the log of the master that holds all acknowledged writes')
def c15(c):
    t = c.drive('repl', c.n(40, 600), scale=c.n(20, 30))
    c.validate(t, what='replicas')
    t = c.drive('heavy', c.n(4, 40), scale=c.n(60, 100), workers=4, instrument=SERVER_PKGS, env=perturb(c))
    c.validate(t, what='replicas while large records are written')
    t = c.drive('repl', c.n(24, 300), scale=c.n(15, 25), instrument=SERVER_PKGS, env=perturb(c), seed=c.seed + 500)
    c.validate(t, what='replicas, perturbed schedules')
    lives(c, ['fetch', 'kill', 'stop', 'go'], c.n(5, 6), c.n(800, 12000))


@check('C16', rule='a failed synchronisation leaves the replica with its own log, and the master as it was')
def c16(c):
    t = c.drive('breaks', c.n(40, 400), scale=c.n(8, 15))
    c.validate(t, what='failing synchronisation')
    lives(c, ['fetch', 'break', 'kill'], c.n(5, 6), c.n(800, 12000))


@check('C17', rule='what is seen of a server that is started and stopped is a behaviour of Life.tla')
def c17(c):
    t = c.drive('life', c.n(160, 2000))
    c.validate(t, spec='LifeTrace', what='lives of servers')
    t = c.drive('life', c.n(120, 1200), instrument=SERVER_PKGS, env=perturb(c), seed=c.seed + 500)
    c.validate(t, spec='LifeTrace', what='lives of servers, perturbed schedules')
    t = c.drive('main', 2, inp=c.program('server'))
    c.validate(t, spec='LifeTrace', what='the program cmd/server')
    if os.path.exists(t + '.store'):
        c.validate(t + '.store', what='data of the program cmd/server')


MODELS = {  # model, invariants, properties, steps in any schedule and calm (quick, thorough)
    'conn': ('ConnModel', 'InOrder Written First Reason', 'Silent NeverOpen', (3, 4), (5, 6)),
    'future': ('FutureModel', 'Agree Known', 'Kept Rest', (3, 5), (5, 6)),
    'chan': ('ChannelModel', 'Once Conserved Bounded Ended', 'Rest', (4, 5), (6, 8)),
    'bus': ('BusModel', 'Once Right Ordered Gone', 'Rest', (3, 4), (6, 7)),
    'cast': ('BroadcastModel', 'Sound', 'Rest', (5, 7), (7, 10)),
    'map': ('DataMapModel', 'Sound Exact', 'Rest', (3, 3), (4, 5)),
    'file': ('BufFileModel', 'Allows Conserved Whole', 'Rest', (3, 4), (4, 5)),
}


def primitive(prop, driver, spec, rule, n=6000):
    @check(prop, rule=rule)
    def fn(c):
        use_primitive(c, driver, spec, n)


def use_primitive(c, driver, spec, n):
    t = c.prim(driver, c.n(n // 2, 8 * n), False)
    c.validate(t, spec=spec, what=driver)
    t = c.prim(driver, c.n(n, 15 * n), True, seed=c.seed + 500)
    c.validate(t, spec=spec, what=driver + ', perturbed schedules')
    t = c.prim(driver, c.n(n // 4, 4 * n), False, seed=c.seed + 700, race=True)
    c.validate(t, spec=spec, what=driver + ', built with the race detector')
    model, inv, prop, free, calm = MODELS[driver]
    text = ''.join('INVARIANT %s\n' % i for i in inv.split()) + ''.join('PROPERTY %s\n' % i for i in prop.split())
    c.scripts(model, c.n(*free), False, text, 0)
    inp = c.scripts(model, c.n(*calm), True, text, c.n(2500, 30000))
    t = c.prim(driver, 0, False, inp=inp)
    c.validate(t, spec=spec, what=driver + ' replayed')
    t = c.prim(driver, 0, True, inp=inp, seed=c.seed + 600)
    c.validate(t, spec=spec, what=driver + ' replayed in perturbed schedules')


primitive('C18', 'conn', 'ConnTrace', 'what a connection does over a scripted socket is a behaviour of Conn.tla', 4000)
primitive('C19', 'future', 'FutureTrace', 'what concurrent users of a future see is a behaviour of Future.tla')
primitive('C20', 'chan', 'ChannelTrace', 'what concurrent users of a data channel see is a behaviour of Channel.tla')
primitive('C21', 'bus', 'BusTrace', 'what publishers and subscribers of the event bus see is a behaviour of Bus.tla', 4000)
primitive('C22', 'cast', 'BroadcastTrace', 'what concurrent users of a broadcaster see is a behaviour of Broadcast.tla')
primitive('C23', 'map', 'DataMapTrace', 'the concurrent history must be linearizable with respect to DataMap.tla')


@check('C24', rule='requests, printed replies and sessions of the console client are those of Client.tla')
def c24(c):
    cfg = """CONSTANTS Mode = "%s"
  MaxLen = %d
  Emit = %s
SPECIFICATION Spec
INVARIANT Sound
INVARIANT Steps
%sCHECK_DEADLOCK FALSE
"""
    c.model('ClientModel', cfg % ('words', c.n(4, 5), 'FALSE', ''), 'words')
    c.model('ClientModel', cfg % ('session', c.n(2, 3), 'FALSE', 'PROPERTY Rests\n'), 'sessions')
    out = c.path('lines.txt')
    c.model('ClientModel', cfg % ('lines', c.n(6, 8), 'TRUE', 'INVARIANT EmitLine\n'), 'lines', out=out)
    t = c.record('zzclient', ['-n', c.n(800, 20000), '-sessions', c.n(120, 2000), '-in', out, '-bin', c.program('client')])
    c.validate(t, spec='ClientTrace', what='client')



@check('C26', rule='what a process uses while nobody is connected, and when nobody is served, is what Resources.tla allows')
def c26(c):
    c.model('ResourcesModel', """CONSTANTS MaxSteps = %d
  Visitors = {1, 2, 3}
SPECIFICATION Spec
INVARIANT TypeOK
INVARIANT Allowed
INVARIANT Blamed
INVARIANT Ends
PROPERTY Freed
CHECK_DEADLOCK FALSE
""" % c.n(7, 9), 'lives of a process')
    t = c.drive('leave', c.n(12, 120), scale=c.n(5, 12))
    c.validate(t, spec='ResourcesTrace', what='visitors come and leave')
    t = c.drive('leave', c.n(4, 40), scale=c.n(3, 8), mode='many', seed=c.seed + 700)
    c.validate(t, spec='ResourcesTrace', what='very many visitors come and leave')
    t = c.drive('leave', c.n(8, 60), scale=c.n(5, 8), mode='slow', instrument=SERVER_PKGS, env=perturb(c), seed=c.seed + 500)
    c.validate(t, spec='ResourcesTrace', what='visitors come and leave, perturbed schedules')


@check('C27', rule='what is packed, written through the buffered file and read back is what LogFile.tla and BufFile.tla say')
def c27(c):
    out = c.path('files.txt')
    c.model('LogFileModel', """CONSTANTS MaxLen = %d
  Emit = TRUE
SPECIFICATION Spec
INVARIANT Sound
INVARIANT Cuts
INVARIANT Repairs
INVARIANT Grows
INVARIANT EmitFile
CHECK_DEADLOCK FALSE
""" % c.n(8, 11), 'files', out=out)
    t = c.record('zzlog', ['-n', c.n(400, 8000), '-in', out])
    c.validate(t, spec='LogFileTrace', what='log files')
    use_primitive(c, 'file', 'BufFileTrace', 2000)
