"""Which properties does a difference between specification and library concern?"""


def properties(m, r, guess=False):
    """m: a difference (class, detail, tags); r: the report it belongs to, whose tags say
    without what the first difference is gone. guess: if there was no time to find that out,
    take it to depend on the way the behaviour was replayed."""
    cl = m['class']
    tags = set(m.get('tags') or [])
    if guess and 'unablated' in (r.get('tags') or []):
        r = dict(r, tags=['needs-' + w for w in (r.get('cfg') or '').split(',')] + ['needs-reload', 'needs-rej'])
    needs = {t for t in (r.get('tags') or []) if t.startswith('needs-')} if m is r['mism'][0] or \
        m['step'] == r['mism'][0]['step'] else set()
    P = set()
    if r['kind'] == 'session':
        P |= session(cl, tags)
        P |= session_needs(needs, cl)
    elif r['kind'] == 'group':
        P |= group(cl, tags)
        P |= group_needs(needs, cl)
    else:
        P |= cases(r['kind'], cl, tags)
    if cl.startswith('panic') or cl == 'hang':
        P.add('C18')
    if cl == 'hang':
        P |= {'session': {'C09', 'C04'}, 'group': {'C25', 'C26'}}.get(r['kind'], set())
    return P


def cases(kind, cl, tags):
    if kind == 'kex':
        return {'C15'} if cl == 'kex:persist' else {'C27'}
    if kind == 'prov':
        return {'C28', 'C18'} if cl.startswith('prov:accept') else {'C28'}
    if kind == 'keygen':
        return {'C30'}
    if kind in ('records', 'grecords', 'values'):
        return {'C33'} | ({'C25' if kind == 'grecords' else 'C09'} if 'full' in tags else set()) | (
            {'C26', 'C15'} if 'needs-reload' in tags and kind == 'grecords' else {'C15'} if 'needs-reload' in tags else set())
    if kind == 'conc':
        return {'C32'}
    if kind == 'addr':
        return {'C17'}
    if kind == 'prim':
        return {'C31'}
    if kind == 'sched':
        group = cl.split(':')[-1] in ('gchain', 'gmk', 'begin')
        return ({'C23'} if group else {'C05'}) | ({'C19'} if ':changed:' in cl else set())
    if kind == 'safety':
        return {'C29'}
    if kind == 'sign':
        return {'C11', 'C19'} if cl == 'sign:alias' else {'C11'}
    P = {'C18'}
    if kind == 'wire':
        if cl in ('wire:reload',):
            P |= {'C15'}
        if cl == 'wire:input':
            P |= {'C19'}
        # what is done to a message on its way, and has an effect
        if cl.startswith(('wire:effect:', 'wire:spoilt:')):
            P |= {'C26'} if cl.endswith(('gmsg', 'dist')) else {'C04'}
        if cl in ('wire:accept:msg', 'wire:accept:pre', 'wire:text:msg', 'wire:text:pre'):
            P |= {'C03'}
        if cl in ('wire:accept:gmsg', 'wire:text:gmsg'):
            P |= {'C22'}
        if cl in ('wire:reject:msg', 'wire:reject:pre'):
            P |= {'C01'}
        if cl == 'wire:reject:gmsg':
            P |= {'C20'}
        if cl in ('wire:twice:msg', 'wire:twice:pre'):
            P |= {'C02'}
        if cl == 'wire:twice:gmsg':
            P |= {'C21'}
        if cl.startswith('wire:reject:') and cl.split(':')[2] in ('session', 'state', 'prekey', 'signedprekey'):
            P |= {'C15'}
        if cl.startswith('wire:reject:sender'):
            P |= {'C26'}
    return P


def session_needs(needs, cl):
    P = set()
    if 'needs-ser' in needs:
        P |= {'C15'}
    if 'needs-live' in needs:
        P |= {'C04'}
    if 'needs-reuse' in needs:
        P |= {'C19'}
    if 'needs-key' in needs:
        P |= {'C19'}
    if 'needs-long' in needs:
        P |= {'C15', 'C19'}
    if needs & {'needs-proto', 'needs-json', 'needs-nilotk'}:
        P |= {'C15', 'C13'}
    if needs & {'needs-rej', 'needs-own'}:
        P |= {'C04'}
    if 'needs-reload' in needs:
        P |= {'C15'}
    if needs & {'needs-third', 'needs-addr'}:
        P |= {'C17'}
    if 'needs-dup' in needs:
        P |= {'C02', 'C04'}
    return P


def session(cl, tags):
    P = set()
    if 'crashed' in tags or 'crash' in tags and (
            cl in ('keyreuse', 'otk') or cl == 'reject:msg' and 'genuine' in tags or
            cl.startswith('accept:') and 'replay' in tags):
        P.add('C16')
    if cl.startswith('panic:'):
        P.add('C18')
        if 'genuine' in tags and 'first' in tags:
            P.add('C01')
        if 'pre' in tags:
            P.add('C13')
    if cl == 'reject:msg':
        if 'genuine' in tags:
            P.add('C01')
        if 'tam:none' in tags or not any(t.startswith('tam:') for t in tags):
            P.add('C01')
        if 'pre' in tags:
            P |= {'C13'}
        if tags & {'arch', 'new'}:
            P.add('C14')
        if tags & {'skipped', 'gap', 'oldchain'}:
            P |= {'C09'}
        if 'nootk' in tags:
            P |= {'C10'}
        if 'ratchet' in tags:
            P |= {'C08', 'C05'}
        if 'pinned' in tags:
            P |= {'C12'}
    if cl == 'reject:bundle':
        P |= {'C11', 'C13', 'C14', 'C12'}
    if cl == 'reject:enc':
        P |= {'C01', 'C12'}
    if cl == 'reject:archive':
        P |= {'C14', 'C15'}
    if cl.startswith('accept:'):
        why = cl.split(':')[2]
        if 'replay' in tags:
            P.add('C02')
        if 'foreign' in tags:
            P.add('C03')
        if why == 'old':
            P.add('C02')
        if why in ('mac', 'version'):
            P.add('C03')
        if why == 'future':
            P.add('C09')
        if why == 'envelope':
            P |= {'C03', 'C10', 'C12'}
        if why == 'untrusted':
            P.add('C12')
        if why == 'badsig':
            P.add('C11')
        if why == 'nospk':
            P |= {'C11', 'C18', 'C10'}
        if why == 'nootk':
            P |= {'C10', 'C18'}
        if why == 'nosession':
            P |= {'C18', 'C03'}
        if tags & {'redirected', 'reflected'}:
            P |= {'C17', 'C03'}
    if cl == 'plaintext':
        P |= {'C01', 'C05'}
        if 'foreign' in tags:
            P.add('C03')
    if cl in ('state:root', 'state:sndchain', 'state:rcvchain', 'state:skippedkey'):
        P |= {'C05', 'C08'}
    if cl == 'state:sndkey':
        P |= {'C05', 'C08'}
    if cl == 'state:base':
        P |= {'C05', 'C13', 'C14'}
    if cl in ('state:sndidx', 'state:prevctr', 'wire:ctr', 'wire:prev'):
        P |= {'C06'}
    if cl == 'keyreuse':
        P |= {'C06'}
    if cl == 'state:rcvidx':
        P |= {'C02', 'C07', 'C09', 'C01'}
    if cl == 'state:skipped+':
        P |= {'C07', 'C09', 'C02'}
    if cl == 'state:skipped-':
        P |= {'C09', 'C01'}
    if cl in ('state:rcvset', 'state:rcvset-'):
        P |= {'C09', 'C01', 'C08'}
    if cl in ('state:rcvset', 'state:rcvset+'):
        P |= {'C09', 'C07'}
    if cl in ('state:prevs-', 'state:prevs+'):
        P |= {'C14', 'C09'}
    if cl == 'state:current':
        P |= {'C14', 'C01'}
    if cl in ('state:pend', 'wire:env'):
        P |= {'C13'}
    if cl in ('state:ident', 'state:reg', 'state:version'):
        P |= {'C05', 'C12', 'C13'} if cl == 'state:ident' else {'C13', 'C15'} if cl == 'state:reg' else {'C03', 'C05'}
    if cl.startswith('noeffect:'):
        P |= {'C04'}
        if cl == 'noeffect:pin':
            P |= {'C12'}
        if cl in ('noeffect:otk', 'noeffect:spk'):
            P |= {'C10'}
        if cl == 'noeffect:session' and 'bundle' in tags:
            P |= {'C11'}
        if 'reload' in tags:
            P |= {'C15'}
        if 'again' in tags:
            P |= {'C19'}
        if 'panic' in tags or 'nobuilder' in tags:
            P |= {'C18'}
        if 'bundle' in tags:
            P |= {'C11'}
        if 'enc' in tags:
            P |= {'C06', 'C12'}
    if cl == 'otk':
        P |= {'C10'}
    if cl == 'isolation':
        P |= {'C17'}
    if cl in ('wire:ct', 'wire:mac', 'wire:rk'):
        P |= {'C05'}
        if cl == 'wire:mac':
            P |= {'C03'}
    if cl in ('wire:ver', 'wire:type'):
        P |= {'C05', 'C13'}
    if cl in ('wire:roundtrip', 'wire:encoding', 'wire:object'):
        P |= {'C15'}
        if 'env' in tags:
            P |= {'C13'}
    if cl == 'fresh-key':
        P |= {'C08', 'C06'}
    if cl == 'erasure':
        P |= {'C07'}
    if cl in ('alias', 'again'):
        P |= {'C19'}
    if cl == 'crash:nohit':
        P |= {'C16'}
        if 'otk' in tags:
            P |= {'C10'}
    if cl.startswith('persist:'):
        P |= {'C15'}
    if cl == 'pin':
        P |= {'C12'}
    if cl in ('prekeyid', 'lastresort'):
        P |= {'C10'}
    if cl == 'order':
        P |= {'C16', 'C10'}
    return P


def group_needs(needs, cl):
    P = set()
    if needs & {'needs-ser', 'needs-reload', 'needs-long', 'needs-live', 'needs-rej'}:
        P |= {'C26'}
    if needs & {'needs-ser', 'needs-reload', 'needs-proto', 'needs-json'}:
        P |= {'C15'}
    if 'needs-reuse' in needs:
        P |= {'C19'}
    if needs & {'needs-third', 'needs-addr'}:
        P |= {'C26', 'C20'}
    if 'needs-repeat' in needs:
        P |= {'C24', 'C21'}
    return P


def group(cl, tags):
    P = set()
    if 'crashed' in tags or 'crash' in tags and (
            cl in ('keyreuse', 'wire:iter') or cl == 'reject:msg' and 'genuine' in tags or
            cl.startswith('accept:') and 'replay' in tags):
        P.add('C26')
    if cl.startswith('panic:'):
        P.add('C18')
        if 'genuine' in tags:
            P.add('C20')
    if cl == 'reject:msg':
        P.add('C20')
        if tags & {'skipped', 'gap'}:
            P.add('C25')
        if 'oldid' in tags:
            P.add('C24')
    if cl in ('reject:create', 'reject:process'):
        P |= {'C24', 'C20'}
    if cl == 'reject:enc':
        P |= {'C20', 'C24'}
    if cl.startswith('accept:'):
        why = cl.split(':')[2]
        if 'replay' in tags or 'own' in tags:
            P.add('C21')
        if 'foreign' in tags or why in ('sig', 'version', 'noid', 'nopriv', 'nokey'):
            P.add('C22')
        if why == 'old':
            P |= {'C21'}
            if 'first' in tags:
                P |= {'C23'}
        if why == 'future':
            P.add('C25')
        if why == 'garbage':
            P |= {'C22', 'C26'}
        if why == 'nokey':
            P |= {'C18'}
        if 'redirected' in tags:
            P |= {'C22', 'C26'}
    if cl == 'plaintext':
        P |= {'C20', 'C23'}
        if 'foreign' in tags:
            P.add('C22')
    if cl in ('state:chain', 'state:skippedkey', 'wire:ct'):
        P |= {'C23', 'C20'}
    if cl in ('wire:iter', 'keyreuse'):
        P |= {'C23'}
    if cl in ('wire:id', 'wire:ver', 'wire:type'):
        P |= {'C20', 'C22'}
    if cl == 'wire:sig':
        P |= {'C22', 'C11'}
    if cl in ('dist', 'dist:chain'):
        P |= {'C23', 'C24'}
    if cl == 'state:iter':
        P |= {'C23'}
        if 'create' in tags:
            P |= {'C24'}
        if 'process' in tags:
            P |= {'C21', 'C24'}
        if 'dlv' in tags:
            P |= {'C21', 'C20', 'C25'}
    if cl in ('state:sig', 'state:own'):
        P |= {'C22', 'C24'}
    if cl == 'state:skipped+':
        P |= {'C25', 'C21', 'C23'}
    if cl == 'state:skipped-':
        P |= {'C25', 'C20'}
    if cl in ('state:states-', 'state:states+', 'state:states'):
        P |= {'C24', 'C25'}
        if 'repeat' in tags:
            P |= {'C21'}
    if cl.startswith('noeffect:'):
        P |= {'C26'}
        if 'reload' in tags:
            P |= {'C15'}
        if 'panic' in tags:
            P |= {'C18'}
    if cl == 'isolation':
        P |= {'C26'}
    if cl in ('wire:roundtrip', 'wire:encoding', 'wire:object'):
        P |= {'C15', 'C24'} if 'dist' in tags else {'C15', 'C20'}
    if cl == 'fresh-key':
        P |= {'C23', 'C24'}
    if cl == 'erasure':
        P |= {'C23'}
    if cl == 'alias':
        P |= {'C19', 'C20'}
    if cl == 'crash:nohit':
        P |= {'C26'}
    if cl.startswith('persist:'):
        P |= {'C26', 'C15'}
    return P


def key(m, r):
    """Identifies a finding: the kind of difference and the call it happened in."""
    return ('%s/%s/%s' % (r['kind'], m['class'], ','.join(sorted(m.get('tags') or [])))).replace(' ', '')
