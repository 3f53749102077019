"""C39: what can be shared between threads (auto traits, as the compiler decides them)."""
from ..core import *

SYS = 'crate::system::System'
# values an application hands from thread to thread
BOTH = (SYS, 'crate::defense::Level', 'crate::defense::Defense', 'crate::mcaptcha::MCaptcha', 'crate::pow::PoWConfig', 'crate::pow::Work', ERR,
        'crate::master::AddVisitorResult', 'crate::master::CreateMCaptcha', CM + 'CachedPoWConfig')
SEND = ('crate::system::SystemBuilder', 'crate::mcaptcha::MCaptchaBuilder', 'crate::defense::DefenseBuilder', 'crate::defense::LevelBuilder', 'crate::redis::RedisConfig')

def c39(ck):
    items = {i['path']: i for i in ck.e.F['items']}
    ck.need(items.get(SYS), 'type ' + SYS)
    for p in BOTH + SEND:
        i = items.get(p)
        if i is None: continue
        ck.ob('can be sent to another thread', p, i['send'], '%s is not Send: it cannot be handed to another thread' % p, i['span'])
        if p in BOTH:
            ck.ob('can be shared between threads', p, i['sync'], '%s is not Sync: it cannot be shared between threads' % p, i['span'])
    n = 0
    for f in ck.e.fns:
        im = f.get('impl') or {}
        if im.get('self_adt') != SYS or not f.get('pub') or 'future_send' not in f: continue
        n += 1
        ck.ob('a request can be awaited on any thread', f['key'], f['future_send'], 'the future of %s is not Send: it holds something bound to one thread while it waits' % f['path'], f['span'])
    ck.need(n, 'asynchronous operations of ' + SYS)
    ck.notes['types judged'] = len([p for p in BOTH + SEND if p in items]); ck.notes['futures judged'] = n
