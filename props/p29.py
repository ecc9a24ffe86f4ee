import re
from .common import *
from fw.spec import Broken
from fw.terms import support, show
META = dict(
 title='Transaction ids and hash table keys: equality and hashing agree',
 statement='A transaction id keeps its bytes, equals another exactly when length and every byte agree, and a generated one has 12 bytes (16 for RFC 3489), every one of them drawn from the generator. The hash of a key is its 64-bit Murmur hash: it depends on its bytes and the seed only, on every one of its bytes, and reads nothing beside them; equal ids and equal names hash alike whichever hasher instance is asked, and so do equal attribute types.',
 text='every id of 12 and 16 bytes and every pair of them, every output of the generator, every key content of 0-8, 12, 16, 23 and 24 bytes and every seed, every pair of names of five characters',
 over=['inputs'],
 why='tests hash a few ids; a byte that is compared but not hashed consistently, or never drawn, loses or confuses transactions only for particular ids',
 files=['src/stun/stun_attribute_type.hpp', 'src/stun/stun_transaction_id.hpp', 'src/stun/stun_transaction_id_hash.hpp', 'src/util/util_hash_murmur.cpp', 'src/util/util_hash_murmur.hpp', 'src/util/util_hash_dynamic.hpp', 'src/precis/precis_opaque_string.hpp', 'src/precis/precis_opaque_string_hash.hpp', 'src/util/util_tagged_type.hpp'],
 mechanism=[('ids', 'src/stun/stun_transaction_id.hpp'), ('hash of bytes', 'src/util/util_hash_murmur.cpp'), ('hasher choice', 'src/util/util_hash_dynamic.hpp')],
 technique=TECH + '; data dependence of the hash value on every key byte', note=NOTE + '; key lengths as listed')
EXPLANATION = 'Abstract interpretation of id construction, comparison, generation and hashing on symbolic bytes; the support of the abstract hash value is compared with the bytes of the key.'
F = ['p29.cpp']
def run(c):
    c.statics = True
    c.all(F, 'transaction ids and hashes')
    deps = sorted(n for n in c.mod(F).fns if n.startswith('fw_e_k_dep'))
    if len(deps) < 5: raise Broken('hash dependence entries missing')
    for n in deps:
        N = int(re.search(r'\d+$', n)[0]); E = c.engine(F)
        args, outs = c.run(E, n)
        base = args[0]
        for o in outs:
            used = set()
            for x in support(o.ret):
                if x.k == 'm' and x.a[0] == E.objs[base].name: used |= set(range(x.a[2], x.a[2] + x.w // 8))
            miss = [i for i in range(N) if i not in used]
            c.ob('every byte of a key takes part in its hash', not miss, 'src/util/util_hash_murmur.cpp', 'murmur', f'key of {N} bytes: bytes {miss} are not hashed', trail=o.trail)
            read = set()
            for (name, ver), tab in E.init.items():
                if name == E.objs[base].name:
                    for off, (m, t) in tab.items(): read |= set(range(off, off + m))
            out = sorted(i for i in read if not 0 <= i < N)
            c.ob('hashing reads nothing beside the key', not out, 'src/util/util_hash_murmur.cpp', 'murmur', f'key of {N} bytes: bytes {out} are read', trail=o.trail)
            c.ob('the seed takes part in the hash', args[1] in support(o.ret), 'src/util/util_hash_murmur.cpp', 'murmur', f'key of {N} bytes', trail=o.trail)
