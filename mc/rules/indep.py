"""C42: instances are independent of each other and of the process around them."""
import re
from ..core import *

SHARED = re.compile(r'\b(Mutex|RwLock|ReentrantLock|Cell|RefCell|UnsafeCell|SyncUnsafeCell|Atomic\w*|OnceLock|OnceCell|DashMap|Condvar|Barrier|Sender|Receiver|Addr|Recipient|Box<dyn|Arc<dyn)\b')
LAZY = re.compile(r'(?:^|::)(LazyLock|LazyCell|Lazy)<')
ONCE = re.compile(r'(?:^|::)(OnceLock|OnceCell)<')
PROCESS = [
    (re.compile(r'^std::env::(?!temp_dir)'), 'reads or changes the environment'),
    (re.compile(r'^(std|tokio|async_std)::fs::'), 'uses files'),
    (re.compile(r'^std::path::Path::(exists|try_exists|is_file|is_dir|is_symlink|metadata|symlink_metadata|read_dir|read_link|canonicalize)'), 'looks at files'),
    (re.compile(r'^std::os::'), 'goes to the operating system'),
    (re.compile(r'^(std|tokio)::process::(Command|exit|abort)'), 'starts or ends a process'),
    (re.compile(r'^core::intrinsics::abort'), 'ends the process'),
    (re.compile(r'^(std|tokio)::net::'), 'opens a network connection of its own'),
    (re.compile(r'^std::io::(stdio::)?(stdin|Stdin)'), 'reads the standard input'),
    (re.compile(r'^std::panic(king)?::(set_hook|take_hook|update_hook)'), 'changes how the process reports panics'),
    (re.compile(r'^(log::set_|(pretty_)?env_logger::)'), 'sets up logging for the whole process'),
    (re.compile(r'^(actix_rt|actix)::(\w+::)*(System|SystemRunner|Arbiter|ArbiterHandle)::stop(_with_code)?$'), 'stops an executor that others run on'),
    (re.compile(r'^num_cpus::'), 'depends on the machine'), (re.compile(r'^std::thread::(functions::)?available_parallelism'), 'depends on the machine'),
]

def plain(p):
    p = re.sub(r'^<(?:&(?:mut )?)?', '', p)
    return p

def calls(b):
    for blk in b['blocks']:
        t = blk[1]
        if t['k'] == 'call' and t['f'][0] == 'k' and 'fn' in t['f'][1]: yield t, t['f'][1]['fn']

def closures(b):
    """{local: what it captures} of the closures a body makes"""
    out = {}
    for blk in b['blocks']:
        for s in blk[0]:
            if isinstance(s, dict) and 'r' in s and s['r'][0] == 'agg' and isinstance(s['r'][1], dict) and s['r'][1].get('k') == 'closure' and len(s['p']) == 1: out[s['p'][0]] = s['r'][2]
    return out

def c42(ck):
    e = ck.e
    ss = e.F['statics']
    for s in ss:
        if s['freeze'] and not s['mut'] and not s['thread_local']: good = True
        elif s['mut']: good = False
        elif LAZY.search(s['ty']) and not s['thread_local']:
            good = not SHARED.search(LAZY.sub('', s['ty'], 1))       # worked out once, from nothing
        elif ONCE.search(s['ty']) and not s['thread_local']: good = not SHARED.search(ONCE.sub('', s['ty'], 1))   # how it is set is judged below
        elif s['thread_local']: good = 'Rng' in s['ty']      # a generator per thread
        else: good = False
        ck.ob('nothing changeable outlives the objects the user made', s['path'], good, 'the static %s of type %s is shared by everything in the process' % (s['path'], s['ty']), s['span'])
    n = nb = 0
    for k, b in e.bodies.items():
        if not b.get('local'): continue
        nb += 1
        cl = None
        for t, fn in calls(b):
            n += 1
            p = plain(fn.get('rpath') or fn['path']); q = plain(fn['path'])
            for rx, what in PROCESS:
                if rx.search(p) or rx.search(q):
                    ck.ob('depends only on what it is given', '%s calls %s' % (k, q), False, '%s %s (%s)' % (b['path'], what, q), t.get('s'))
            m = re.search(r'(?:OnceLock|OnceCell)(?:::<[^>]*>|<[^>]*>)?>?::(set|get_or_init|get_or_try_init|try_insert)', q)
            if m:
                cl = closures(b) if cl is None else cl
                a = t['args'][1] if len(t['args']) > 1 else None
                good = m.group(1).startswith('get_or') and (a is None or a[0] == 'k' or a[0] in ('m', 'c') and isinstance(a[1], list) and not cl.get(a[1][0], ()))
                if any(ONCE.search(s['ty']) for s in ss):
                    ck.ob('nothing changeable outlives the objects the user made', '%s sets a value kept for good' % k, good, '%s keeps a value for the whole process that depends on the request' % b['path'], t.get('s'))
        ck.ob('depends only on what it is given', k, True)
    ck.need(nb, 'functions of the crate')
    ck.notes['statics'] = len(ss); ck.notes['functions'] = nb; ck.notes['calls judged'] = n
