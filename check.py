#!/usr/bin/env python3
"""check.py ID [--replay FILE]

Decides one property of properties.jsonl: model checks the specification in
spec/, drives the code in /repo through its public API with harness/, and
validates what was recorded against the specification with TLC.  See
DESIGN.md.  Exit 0: held; 1: VIOLATION; 2: the check itself failed."""
import concurrent.futures, glob, hashlib, json, os, random, re, resource, shutil
import subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(VERIF, 'spec')
REPO = '/repo'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
THOROUGH = TIER == 'thorough'
CORES = os.cpu_count() or 4


class Broken(Exception):
    """The check, not the code, failed."""


def go_env():
    e = dict(os.environ)
    e.update(PATH='/opt/veriftools/go1.27.3/bin:' + e.get('PATH', '/usr/bin:/bin'),
             HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod',
             GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod',
             GOCACHE=e.get('GOCACHE', '/root/.cache/go-build'), GOWORK='off', GOSUMDB='off')
    return e


# ---------------------------------------------------------------- TLC

def tlc(work, module, cfg, workers=1, heap='2g', env=None, args=(), timeout=800):
    """Runs TLC; gives its output and exit code."""
    n = tempfile.mkdtemp(dir=work)
    with open(os.path.join(n, module + '.cfg'), 'w') as f:
        f.write(cfg)
    gc = '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC'
    cmd = ['java', '-Xss256m', '-Xmx' + heap, gc, '-XX:TieredStopAtLevel=4', '-Djava.io.tmpdir=' + n,
           '-cp', JARS, 'tlc2.TLC', '-noGenerateSpecTE', '-deadlock', '-workers', str(workers),
           '-metadir', os.path.join(n, 'meta'), '-config', os.path.join(n, module + '.cfg'),
           *args, module + '.tla']
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors='replace', timeout=timeout)
    shutil.rmtree(n, ignore_errors=True)
    return p.returncode, p.stdout


def cfg(consts=(), subst=(), inv=(), props=(), spec='Spec', post=None, constraint=None):
    out = ['SPECIFICATION ' + spec]
    out += ['CONSTANT %s = %s' % c for c in consts]
    out += ['CONSTANT %s <- %s' % c for c in subst]
    out += ['INVARIANT ' + i for i in inv]
    out += ['PROPERTY ' + p for p in props]
    if constraint:
        out.append('CONSTRAINT ' + constraint)
    if post:
        out.append('POSTCONDITION ' + post)
    return '\n'.join(out) + '\n'


def model(work, name, m):
    """Model checks one configuration.  With m['fails'] the model has a known
    fault, and it is a failure of the check if TLC does not find it."""
    t = time.time()
    code, out = tlc(work, m['module'], cfg(m.get('consts', ()), m.get('subst', ()), m.get('inv', ()),
                                           m.get('props', ()), spec=m.get('spec', 'Spec')), workers=m.get('workers', 4),
                    heap=m.get('heap', '5g'), timeout=m.get('timeout', 800))
    g = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
    gen, dist = (int(x.replace(',', '')) for x in g[-1]) if g else (0, 0)
    ok = code == 0 and 'No error has been found' in out
    if m.get('fails'):
        violated = re.search(r'(Invariant|Action property|Temporal properties|property) .*violated|Temporal properties were violated', out)
        if ok or not violated:
            raise Broken('model %s: the planted fault was not found\n%s' % (name, out[-2000:]))
    elif not ok or dist == 0:
        raise Broken('model %s does not have its properties, or TLC failed:\n%s' % (name, out[-3000:]))
    return {'model': name, 'distinct': dist, 'generated': gen, 'seconds': round(time.time() - t, 1),
            'expected': 'violation' if m.get('fails') else 'no error'}


def validate(work, path):
    """Validates one trace; gives (events matched, events)."""
    module = os.path.basename(path).split('-')[0]
    code, out = tlc(work, module, cfg(post='Report'), env={'TRACE': path}, heap='3g')
    m = re.search(r'<<"MATCHED", (\d+), (\d+)>>', out)
    if m is None:
        raise Broken('no answer from %s about %s:\n%s' % (module, path, out[-3000:]))
    n, total = int(m.group(1)), int(m.group(2))
    # an event that the specification cannot even evaluate is not one it has
    if code != 0 and n >= total:
        raise Broken('TLC failed on %s:\n%s' % (path, out[-3000:]))
    err = ''
    if code != 0:
        e = [l for l in out.splitlines() if 'rror' in l]
        err = ' '.join(e)[:500]
    return n, total, err



def behaviours(work, g, seed):
    """Behaviours of the specification, as TLC generates them, to a file."""
    args = list(g.get('args', ()))
    if g.get('num'):
        args += ['-simulate', 'num=%d' % g['num'], '-depth', '200', '-seed', str(seed), '-aril', '0']
    code, out = tlc(work, g['module'], cfg(g.get('consts', ()), g.get('subst', ()), inv=['Emit'],
                                           spec=g.get('spec', 'GenSpec'), constraint=g.get('constraint')),
                    workers=1, heap='3g', args=args)
    lines = set()
    for l in out.splitlines():
        if l.startswith('"BEHAVIOUR '):
            lines.add(json.loads(l)[len('BEHAVIOUR '):])
    lines = sorted(lines)
    # a behaviour that goes on is in the list again
    kept = [l for i, l in enumerate(lines) if not (i + 1 < len(lines) and lines[i + 1].startswith(l[:-2]))]
    if not kept:
        raise Broken('%s generated nothing:\n%s' % (g['module'], out[-3000:]))
    if g.get('sample') and len(kept) > g['sample']:
        kept = sorted(random.Random(seed).sample(kept, g['sample']))
    path = os.path.join(work, g['module'] + '.behaviours')
    with open(path, 'w') as f:
        f.write('\n'.join(kept) + '\n')
    return path, len(kept)


# ---------------------------------------------------------------- harness

def build(work, race=False):
    src = os.path.join(work, 'harness-src')
    try:
        shutil.copytree(os.path.join(VERIF, 'harness'), src)
    except FileExistsError:
        pass
    exe = os.path.join(work, 'harness-race' if race else 'harness')
    p = subprocess.run(['go', 'build', *(['-race'] if race else []), '-o', exe, '.'], cwd=src, env=go_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if p.returncode != 0:
        raise Broken('go build failed:\n' + p.stdout[-3000:])
    return exe


def ours(text):
    return 'go_hangul' in text or REPO + '/' in text


# what a program may find around it
SURROUNDINGS = [
    {}, {'GOMAXPROCS': '1'}, {'GOMAXPROCS': '2'}, {'GOGC': '1'}, {'GOGC': 'off'}, {'GOMEMLIMIT': '64MiB'},
    {'LANG': 'C', 'LC_ALL': 'C'}, {'LANG': 'ko_KR.eucKR', 'LC_ALL': 'ko_KR.eucKR'}, {'LANG': 'ko_KR.CP949'},
    {'LC_ALL': 'ko_KR.UTF-8', 'LANGUAGE': 'ko', 'TZ': 'Asia/Seoul'}, {'LC_ALL': '', 'LANG': ''},
    {'LC_CTYPE': 'en_US.UTF-8', 'LANG': 'en_US.UTF-8', 'TZ': 'UTC'}, {'HOME': '/nonexistent', 'TMPDIR': '/nonexistent'},
    {'DEBUG': '1', 'VERBOSE': '1'}, {'GODEBUG': 'gccheckmark=1'}, {'GODEBUG': 'asyncpreemptoff=1'}, {'TERM': 'dumb', 'CI': '1'},
]


def calibrate(work, exe):
    """How long the inputs are that the code can handle in a second, as a
    power of two: code may be slow."""
    try:
        p = subprocess.run([exe, '-out', work, '-stall', '60s', 'calibrate'], env=go_env(), stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, text=True, timeout=120)
        m = re.search(r'TOP (\d+)', p.stdout)
        return int(m.group(1)) if m else 16
    except subprocess.TimeoutExpired:
        return 16


LIMITS = ['-deadline', '2400s' if THOROUGH else '240s']


def run_once(exe, out, prop, seed, scen, race, stall, part=None):
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    env = go_env()
    if prop.endswith('first'):
        env.update(SURROUNDINGS[seed % len(SURROUNDINGS)])
    elif prop.startswith('C25'):
        env.update({0: {}, 1: {'GOMAXPROCS': '2'}, 2: {'GOGC': '10'}}[seed % 3])
    env['GOTRACEBACK'] = 'all'
    env['GORACE'] = 'log_path=%s/race exitcode=0 halt_on_error=0' % out
    cmd = [exe, '-out', out, '-seed', str(seed), '-stall', '%ds' % stall, *LIMITS]
    if THOROUGH:
        cmd.append('-thorough')
    if scen:
        cmd += ['-scen', scen]
    if part:
        cmd += ['-part', str(part[0]), '-parts', str(part[1])]

    def limit():
        if not race:
            resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    with open(os.path.join(out, 'stderr'), 'w') as err:
        p = subprocess.run(cmd + [prop], env=env, stdout=err, stderr=err, preexec_fn=limit, timeout=3600 if THOROUGH else 800)
    with open(os.path.join(out, 'stderr'), errors='replace') as f:
        text = f.read()
    return p.returncode, text


def run(exe, out, prop, seed, scen=None, race=False, stall=60, enough=None, part=None):
    """Drives the code once.  The traces are in out; what went wrong beyond
    any trace is added to them as an event that no specification has, and
    then enough is set: there is no need to run it again and again."""
    if enough is None:
        enough = threading.Event()
    if enough.is_set():
        return {'stats': {}, 'notes': {}, 'skipped': True}
    code, text = run_once(exe, out, prop, seed, scen, race, stall, part)
    if code not in (0, 4):
        # a hang or crash: it has to happen again (concurrent runs aside,
        # where what is seen once is seen)
        first = code, text
        if not (prop.startswith('C25') and code == 2):
            code, text = run_once(exe, out, prop, seed, scen, race, 2 * stall, part)
            if code == 0:
                sys.stderr.write('note: run ended with %s at first:\n%s\n' % (first[0], first[1][-1500:]))
    if code == 4 or code not in (0, 3) and not (ours(text) or code < 0):
        raise Broken('the harness failed (%s):\n%s' % (code, text[-3000:]))
    if code != 0:
        enough.set()
    if code not in (0, 3):
        frames = [l.strip() for l in text.splitlines() if ours(l)][:8]
        extra(out, prop, {'op': 'crash', 'code': code, 'msg': text[:600], 'stack': frames})
    for log in sorted(glob.glob(os.path.join(out, 'race.*'))):
        with open(log, errors='replace') as f:
            for report in f.read().split('=================='):
                if 'DATA RACE' in report and ours(report):
                    extra(out, prop, {'op': 'race', 'msg': report.strip()[:3000]})
                    break
    stats = {'stats': {}, 'notes': {}}
    if os.path.exists(os.path.join(out, 'stats.json')):
        with open(os.path.join(out, 'stats.json')) as f:
            stats = json.load(f)
    return stats


MAIN_TRACE = {'C27': 'TraceChain', 'C01': 'TraceHangul', 'C25': 'TraceCalls', 'C24': 'TraceCalls',
              'C25first': 'TraceCalls', 'C24first': 'TraceCalls', 'C24after': 'TraceCalls'}


def extra(out, prop, event):
    files = sorted(glob.glob(os.path.join(out, '*.ndjson')), key=os.path.getmtime)
    if event['op'] == 'race' or not files:
        name = os.path.join(out, MAIN_TRACE.get(prop, 'TraceCodec') + '-999.ndjson')
    else:
        name = files[-1]
        with open(name, 'rb') as f:     # the crash may have cut the last line
            data = f.read()
        cut = data.rfind(b'\n') + 1
        with open(name, 'wb') as f:
            f.write(data[:cut])
    with open(name, 'a') as f:
        f.write(json.dumps(event) + '\n')


# ---------------------------------------------------------------- properties

def mc(module, inv=(), props=(), fails=False, **kw):
    consts, subst, opts = [], [], {}
    for k, v in kw.items():
        if k in ('workers', 'heap', 'timeout', 'spec'):
            opts[k] = v
        elif isinstance(v, str) and v.startswith('<-'):
            subst.append((k, v[2:]))
        else:
            consts.append((k, v))
    return dict(module=module, inv=inv, props=props, consts=consts, subst=subst, fails=fails, **opts)


def hangul(*inv):
    return {'runes': mc('MC_Hangul', inv, Starts='<-All' if THOROUGH else '<-Near', Width='<-MCWidth', workers=4)}


def joins():
    return {'triples': mc('MC_Join', ('Legality', 'Result'), Ls='<-AllL', Ms='<-SomeM', Ts='<-AllT', workers=4)}


def words():
    return {'words': mc('MC_Words', ('LastOnly', 'NoInfluence', 'Chosen'), Alphabet='<-MCAlphabet',
                        MaxLen=6 if THOROUGH else 5, Posts='<-MCPosts', workers=4)}


def hanja():
    return {'texts': mc('MC_Hanja', ('OneByOne',), ('Concatenates',), Pieces='<-MCPieces',
                        MaxPieces=5 if THOROUGH else 4, workers=4)}


def codec():
    return {'texts': mc('MC_Codec', ('Cuttable', 'Homomorphic', 'Blocks', 'PartIsShort', 'DecodesToUtf8', 'Errors', 'Lossless', 'Fast'),
                        ('Incremental',), Alphabets='<-MCAlphabets', MaxLen=7 if THOROUGH else 5, workers=4)}


ENDS = '{"EOF","boom"}'


def reader(fails=False, bugs='{}', **kw):
    a = dict(Alphabet='<-MCAlphabet', MaxSrc=3, Endings=ENDS, MaxBlank=2, Bufs='{0,1,2}', MaxReads=5,
             MaxEmpty=100, Bugs=bugs, workers=4)
    a.update(kw)
    return mc('ReaderImpl', ('Consistent', 'EndsComplete'), ('Refines', 'Returns', 'Prompt'), fails, **a)


def reader_forever(**kw):
    m = reader(MaxSrc=2, MaxBlank=1, MaxReads=1, **kw)
    m.update(module='ReaderForever', spec='SpecForever', inv=m['inv'] + ('Bounded',))
    return m


def readers():
    m = {'reader': reader(), 'no progress': reader(MaxEmpty=2, NoProgressMin='<-MCNoProgress'), 'reader for ever': reader_forever()}
    if THOROUGH:
        m['reader for ever, longer'] = reader_forever(Bufs='{0,1,2,3,4}', workers=6)
        m['reader, longer'] = reader(MaxSrc=4, MaxReads=6, Bufs='{0,1,2,3}', workers=6, timeout=3000)
        for bugs in ('DropRest', 'ErrorOnce', 'Retry', 'EmptyIsEOF', 'TruncDrops', 'LosePart', 'TruncSilent', 'Greedy'):
            m['reader with fault ' + bugs] = reader(True, '{"%s"}' % bugs)
        m['reader with fault EmptyReadEnds'] = reader(True, '{"EmptyReadEnds"}', MaxEmpty=2, NoProgressMin='<-MCNoProgress')
    return m


def writer(fails=False, bugs='{}', **kw):
    a = dict(Alphabet='<-MCAlphabet', MaxText=4, MaxFail=2, MaxWrites=4, Bugs=bugs, workers=4)
    a.update(kw)
    return mc('WriterImpl', ('Consistent', 'Exact', 'Short'), ('Refines', 'Returns'), fails, **a)


def writer_forever(n):
    m = writer(MaxText=n, MaxFail=1, MaxWrites=1)
    m.update(module='WriterForever', spec='SpecForever')
    return m


def writers():
    m = {'writer': writer(), 'writer for ever': writer_forever(2)}
    if THOROUGH:
        m['writer for ever, longer'] = writer_forever(3)
        m['writer, longer'] = writer(MaxText=5, MaxWrites=5, workers=6)
        for bugs in ('NoCarry', 'KeepFailed', 'FailCounts'):
            m['writer with fault ' + bugs] = writer(True, '{"%s"}' % bugs)
    return m


def transform(fails=False, bugs='{}', inv=('Contract', 'Eager', 'Enough'), **kw):
    a = dict(Alphabets='<-MCAlphabets', MaxSrc=4, MaxDst=7, Bugs=bugs, workers=4)
    a.update(kw)
    return mc('TransformImpl', inv, ('Ends',), fails, **a)


def transforms():
    m = {'transform': transform(), 'two forms of the contract': transform(inv=('SameContract',), MaxSrc=3)}
    if THOROUGH:
        m['transform, longer'] = transform(MaxSrc=5, MaxDst=9, workers=6)
        for bugs in ('IgnoreEOF', 'OffByOne', 'EatsShort'):
            m['transform with fault ' + bugs] = transform(True, '{"%s"}' % bugs)
    return m


def pipes():
    r = dict(MaxSrc=3, Endings=ENDS, MaxBlank=1, Bufs='{0,1,3}', MaxReads=4, SrcCap=4, DstCap=4,
             Alphabets='<-MCAlphabets', workers=4)
    w = dict(MaxText=4, MaxWrites=3, SrcCap=4, DstCap=4, Alphabets='<-MCAlphabets', workers=4)
    if THOROUGH:
        r.update(MaxReads=5, MaxSrc=4, workers=6, timeout=3000)
        w.update(MaxText=5, MaxWrites=4, workers=6, timeout=3000)
    rf = dict(r, MaxSrc=2, MaxReads=1, Bufs='{0,1,3}' if THOROUGH else '{1}', SrcCap=4 if THOROUGH else 3, DstCap=4 if THOROUGH else 3)
    wf = dict(w, MaxText=3 if THOROUGH else 2, MaxWrites=1)
    return {'transform.Reader for ever': mc('PipeReaderForever', ('EndsComplete',), ('Refines', 'Returns'), spec='SpecForever', **rf),
            'transform.Writer for ever': mc('PipeWriterForever', (), ('Refines', 'Returns'), spec='SpecForever', **wf),
            'transform.Reader': mc('PipeReader', ('EndsComplete',), ('Refines', 'Returns'), **r),
            'transform.Writer': mc('PipeWriter', (), ('Refines', 'Returns'), **w)}


def calls(policy='fresh', fails=False, **kw):
    a = dict(Clients='{1,2}', Values='{1,2}', MaxCalls=3, MaxWrites=1, Policy='"%s"' % policy, Expect='<-Pure', workers=4)
    a.update(kw)
    return mc('CallsImpl', ('Owned',), ('Refines',), fails, **a)


def calls_forever(policy='fresh', fails=False, **kw):
    m = calls(policy, fails, MaxCalls=1, **dict(dict(MaxLive=2), **kw))
    m.update(module='CallsForever', spec='SpecForever')
    return m


def memory():
    m = {'calls': calls(), 'calls for ever': calls_forever(), 'calls for ever, one caller': calls_forever(Clients='{1}', MaxLive=3)}
    if THOROUGH:
        m['calls for ever, longer'] = calls_forever(Values='{1}', MaxLive=3, workers=6, heap='8g', timeout=3000)
        m['calls for ever with policy pool'] = calls_forever('pool', True)
        m['calls for ever with policy memo'] = calls_forever('memo', True)
        m['calls, three callers'] = calls(Clients='{1,2,3}', workers=6, heap='8g')
        for p in ('table', 'scratch', 'lock', 'pool', 'memo', 'alias'):
            m['calls with policy ' + p] = calls(p, True)
    return m


def chain(fails=False, **kw):
    a = dict(Alphabets='<-MCAlphabets', MaxText=3, Bufs='{1,3}', MaxReads=4, MaxWrites=2, Endings=ENDS, Prompt='TRUE', workers=4)
    a.update(kw)
    return mc('ChainImpl', ('Identity', 'OnTheWay'), ('Keeps',), fails, **a)


def chain_forever(**kw):
    m = chain(MaxReads=2, MaxWrites=2, **kw)
    m.update(module='ChainForever', spec='SpecForever', inv=())
    return m


def chains():
    m = {'chain': chain(), 'chain for ever': chain_forever(MaxText=1, MaxFlight=1)}
    if THOROUGH:
        m['chain for ever, longer'] = chain_forever(MaxText=2, MaxFlight=2, workers=6, heap='8g')
        m['chain, longer'] = chain(MaxText=4, MaxReads=5, MaxWrites=3, workers=6, heap='8g', timeout=3000)
        m['chain with a Reader that waits'] = chain(True, Prompt='FALSE')
    return m


def gen(module, n, **kw):
    g = dict(module=module, num=n, consts=[], subst=[])
    for k, v in kw.items():
        if k in ('sample', 'constraint', 'spec'):
            g[k] = v
        elif isinstance(v, str) and v.startswith('<-'):
            g['subst'].append((k, v[2:]))
        else:
            g['consts'].append((k, v))
    return g


def gen_reader():
    return gen('GenReader', 8000 if THOROUGH else 1500, Alphabet='<-MCAlphabet', MaxSrc=5, Endings=ENDS, MaxBlank=2,
               Bufs='{0,1,2,3,5}', MaxReads=10, MaxEmpty=100, Bugs='{}')


def gen_writer():
    return gen('GenWriter', 8000 if THOROUGH else 1000, Alphabet='<-MCAlphabet', MaxText=5, MaxFail=2, MaxWrites=8, Bugs='{}')


def gen_transform():
    return gen('GenTransform', 0, spec='Spec', Alphabets='<-MCAlphabets', MaxSrc=4 if THOROUGH else 3, MaxDst=7, Bugs='{}')


def gen_calls():
    return gen('GenCalls', 600 if THOROUGH else 120, Clients='{1,2}', Values='{1,2}', MaxCalls=6, MaxWrites=4, MaxHist=24,
               Policy='"fresh"', Expect='<-Pure', constraint='Short', sample=4000 if THOROUGH else 800)


PROPS = {
    'C01': (lambda: hangul('Classes', 'OutsideDefault'), None),
    'C02': (lambda: {**hangul('SplitJoin'), **joins()}, None),
    'C03': (lambda: {**joins(), **hangul('OutsideDefault')}, None),
    'C04': (lambda: hangul('NonSyllables', 'OutsideDefault'), None),
    'C05': (lambda: hangul('Conversions', 'OutsideDefault'), None),
    'C06': (lambda: hangul('Compounds', 'OutsideDefault'), None),
    'C07': (lambda: hangul('Strokes', 'OutsideDefault'), None),
    'C08': (words, None),
    'C09': (words, None),
    'C10': (lambda: hangul('ConstantsAtStart', 'Conversions'), None),
    'C11': (hanja, None),
    'C12': (hanja, None),
    'C13': (codec, None),
    'C14': (codec, None),
    'C15': (codec, None),
    'C16': (codec, None),
    'C17': (readers, gen_reader),
    'C18': (readers, gen_reader),
    'C19': (writers, gen_writer),
    'C20': (writers, gen_writer),
    'C21': (transforms, gen_transform),
    'C22': (transforms, gen_transform),
    'C23': (pipes, None),
    'C24': (memory, gen_calls),
    'C25': (memory, None),
    'C26': (readers, gen_reader),
    'C27': (chains, None),
}

ASSUMPTIONS = [
    'The functions are driven through the public API on the inputs that the harness enumerates or draws; '
    'TLC judges every recorded result, it does not extend to inputs that were not tried.',
    'The code tables and readings of the specification are data (spec/data), made once and cross-checked '
    'against the Unicode Character Database, the CP949 codecs of Python and glibc, and the order of KS X 1001.',
    'Go, its runtime and race detector, golang.org/x/text/transform, TLC and the CommunityModules are trusted.',
]


def findings(prop):
    """Open findings of the property."""
    path = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for l in f:
                m = re.match(r'known: property=(\S+) match=(".*") (.*)', l.strip())
                if m and m.group(1) == prop:
                    out.append((json.loads(m.group(2)), m.group(3)))
    return out


def context(path, n):
    """The scenario of the event that was not accepted, and the event."""
    with open(path, errors='replace') as f:
        lines = f.read().splitlines()
    bad = lines[n] if n < len(lines) else ''
    lo = n
    while lo > 0 and n - lo < 4000 and not re.match(r'\{"op":"(new|scan)"', lines[lo]):
        lo -= 1
    return lines[lo:n], bad


def sample(path, k=2, width=400):
    with open(path, errors='replace') as f:
        lines = f.read().splitlines()
    step = max(1, len(lines) // (k + 1))
    return [l[:width] for l in lines[step::step][:k]]


def check(prop):
    t0 = time.time()
    make_models, make_gen = PROPS[prop]
    work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    pool = concurrent.futures.ThreadPoolExecutor(max_workers=max(2, CORES))
    try:
        exe = pool.submit(build, work)
        scen = pool.submit(behaviours, work, make_gen(), SEED) if make_gen else None
        models = [pool.submit(model, work, name, m) for name, m in make_models().items()]
        exe = exe.result()
        longest = calibrate(work, exe)
        LIMITS[2:] = ['-top', str(longest)]
        scen_path, scen_n = scen.result() if scen else (None, 0)
        runs = []
        if prop == 'C25':
            n = 12 if THOROUGH else 3
            for k in range(n):
                runs.append((exe, SEED * 1000 + k, False, prop))
            race = build(work, race=True)
            for k in range(3 * n):
                runs.append((race, SEED * 1000 + 500 + k, True, prop))
            for k in range(3):
                runs.append((exe, SEED * 1000 + 600 + k, False, 'C25holds'))
            runs.append((race, SEED * 1000 + 650, True, 'C25holds'))
        else:
            for k in range(4 if THOROUGH else 1):
                runs.append((exe, SEED * 1000 + k, False, prop))
        if prop == 'C24':
            for k in range(4 if THOROUGH else 1):
                runs.append((exe, SEED * 1000 + 900 + k, False, 'C24after'))
                runs.append((exe, SEED * 1000 + 950 + k, False, 'C24holds'))
        # programs that have just started; what they record is put together
        firsts = []
        if prop in ('C24', 'C25'):
            n = 400 if THOROUGH else 60
            firsts = [(exe, SEED * 100000 + k, False) for k in range(n)]
            if prop == 'C25':
                firsts += [(race, SEED * 100000 + 50000 + k, True) for k in range(n)]
        enough = threading.Event()
        started = [pool.submit(run, x, os.path.join(work, 'first%d' % i), prop + 'first', seed, None, r, 30, enough)
                   for i, (x, seed, r) in enumerate(firsts)]
        # every two characters next to each other, a part of them in each run
        parts = 4 if prop in ('C08', 'C09', 'C11', 'C16') else 0
        rows = [(prop + 'pairs', (k, parts)) for k in range(parts)]
        # every row of some characters
        if prop in ('C08', 'C09', 'C11', 'C15', 'C16', 'C17', 'C19', 'C21', 'C22', 'C23'):
            rows.append((prop + 'windows', None))
        rows = [pool.submit(run, exe, os.path.join(work, 'rows%d' % k), driver, SEED * 1000 + 800, None, False, 60, enough, part)
                for k, (driver, part) in enumerate(rows)]
        stats, done = {}, []
        for i, (x, seed, race, driver) in enumerate(runs):
            if i > 0 and time.time() - t0 > (2400 if THOROUGH else 450):
                stats['runs_left_out'] = stats.get('runs_left_out', 0) + 1
                continue
            # the concurrent runs have the machine for themselves
            out = os.path.join(work, 'run%d' % i)
            s = run(x, out, driver, seed, scen_path, race, 60, enough)
            for k, v in s['stats'].items():
                stats[k] = stats.get(k, 0) + v
            done += [(p, seed) for p in sorted(glob.glob(os.path.join(out, '*.ndjson')))]
        for i, s in enumerate(rows):
            for k, v in s.result()['stats'].items():
                stats[k] = stats.get(k, 0) + v
            done += [(p, SEED * 1000 + 800) for p in sorted(glob.glob(os.path.join(work, 'rows%d' % i, '*.ndjson')))]
        for s in started:
            for k, v in s.result()['stats'].items():
                stats[k] = stats.get(k, 0) + v
        if started:
            together = os.path.join(work, 'together')
            os.makedirs(together)
            for i, (_, seed, _) in enumerate(firsts):
                for p in sorted(glob.glob(os.path.join(work, 'first%d' % i, '*.ndjson'))):
                    name = os.path.join(together, '%s-%03d.ndjson' % (os.path.basename(p).split('-')[0], i * 4 // len(firsts)))
                    with open(p, 'rb') as f, open(name, 'ab') as g:
                        g.write(f.read())
            done += [(p, firsts[0][1]) for p in sorted(glob.glob(together + '/*.ndjson'))]
            stats['fresh_programs'] = len(firsts)
        if not done:
            raise Broken('no traces')
        checks = [(p, seed, pool.submit(validate, work, p)) for p, seed in done]
        events, bad, samples, modules = 0, [], [], {}
        for p, seed, c in checks:
            n, total, err = c.result()
            events += min(n, total)
            name = os.path.basename(p).split('-')[0]
            modules[name] = modules.get(name, 0) + total
            if n < total:
                bad.append((p, seed, n, total, err))
            elif len(samples) < 6:
                samples += sample(p)
        models = [m.result() for m in models]
        known, violations = findings(prop), []
        for p, seed, n, total, err in bad:
            before, event = context(p, n)
            hit = [what for pattern, what in known if pattern in event]
            if hit:
                print('KNOWN-FINDING: property=%s %s' % (prop, hit[0]))
                continue
            violations.append((p, seed, n, total, err, before, event))
        for what in sorted({w for _, w in known}):
            print('KNOWN-FINDING: property=%s %s' % (prop, what))
        evidence = {
            'property': prop, 'tier': TIER, 'seed': SEED, 'level': 'model_checking',
            'coverage': {
                'states': sum(m['distinct'] for m in models),
                'transitions': sum(m['generated'] for m in models),
                'traces_validated_against_impl': stats.get('scenarios', 0),
                'samples': samples[:6],
                'models': models,
                'trace_files': len(done), 'trace_events': modules, 'events_matched': events,
                'behaviours_of_the_specification_replayed': scen_n,
                'harness': stats,
                'runs': [{'driver': d, 'seed': s, 'race_detector': r} for _, s, r, d in runs],
            },
            'assumptions': ASSUMPTIONS,
            'wall_s': round(time.time() - t0, 1), 'violations': len(violations),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1, ensure_ascii=False)
        if not violations:
            print('%s: held; %d states, %d events of %d scenarios in %.1f s' %
                  (prop, evidence['coverage']['states'], events, stats.get('scenarios', 0), time.time() - t0))
            return 0
        p, seed, n, total, err, before, event = violations[0]
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        replay = os.path.join('replays', '%s-%s.json' % (prop, hashlib.sha1(event.encode()).hexdigest()[:10]))
        with open(os.path.join(VERIF, replay), 'w') as f:
            json.dump({'property': prop, 'tier': TIER, 'VERIF_SEED': SEED, 'harness_seed': seed,
                       'module': os.path.basename(p).split('-')[0],
                       'rejected': event[:20000], 'tlc': err,
                       'scenario': before if sum(map(len, before)) < 2000000 else before[:1] + before[-20:],
                       'others': [v[6][:300] for v in violations[1:10]]}, f, indent=1, ensure_ascii=False)
        print('%s: the specification does not have this event: %s' % (prop, event[:1500]))
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    finally:
        pool.shutdown(wait=True, cancel_futures=True)
        shutil.rmtree(work, ignore_errors=True)


def replay(path):
    """Shows that the specification still rejects what a replay file holds,
    then makes the same run again against /repo as it is now."""
    global SEED, TIER, THOROUGH
    with open(path) as f:
        r = json.load(f)
    work = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        p = os.path.join(work, r['module'] + '-000.ndjson')
        with open(p, 'w') as f:
            f.write('\n'.join(r['scenario'] + [r['rejected']]) + '\n')
        n, total, err = validate(work, p)
        print('recorded: %d of %d events are accepted %s' % (n, total, err))
    except (Broken, ValueError) as e:
        print('recorded: %s' % e)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    SEED, TIER = r['VERIF_SEED'], r['tier']
    THOROUGH = TIER == 'thorough'
    return check(r['property'])


def main():
    a = sys.argv[1:]
    try:
        if len(a) > 1 and a[0] == 'validate':
            w = tempfile.mkdtemp()
            try:
                for p in a[1:]:
                    t = time.time()
                    print(p, validate(w, os.path.abspath(p)), round(time.time() - t, 1))
            finally:
                shutil.rmtree(w)
            return 0
        if len(a) == 1 and a[0] in PROPS:
            return check(a[0])
        if len(a) == 3 and a[1] == '--replay' or len(a) == 2 and a[0] == '--replay':
            return replay(a[-1])
    except Broken as e:
        print('CHECK-FAILED: %s' % e)
        return 2
    except subprocess.TimeoutExpired as e:
        print('CHECK-FAILED: out of time: %s' % (e,))
        return 2
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main())
