"""Registry of the verification units."""
UNITS = []
PROPS = {}
TRUSTED = {}

def U(props, name, file, **kw):
    UNITS.append(dict(props=props.split(), name=name, file=file, **kw))

def loop(file, fn, n, text):
    return dict(file=file, fn=fn, n=n, text=text)

VIRT = 'server_time get_module_tag_name read_queue write_queue'.split()
TB = 'server/tagbase.c'

# ------------------------------------------------------------------ S01 / S02 / S04 tag data
U('S01 S03', 'tag_write', 'tag_write.c', enforce='tag_write', cost=30, bmc_unwind=16, 
  replace=['tag_get_size', 'event_check', 'ret_tag_write', 'special_tag_write', *VIRT])
U('S01 S04', 'tag_read', 'tag_read.c', enforce='tag_read', cost=30, bmc_unwind=16,
  replace=['tag_get_size', 'special_tag_read', *VIRT],
  loops=[loop(TB, 'tag_read', 0, '''
    __CPROVER_assigns(n, x, y, __CPROVER_object_whole(data))
    __CPROVER_loop_invariant(0 <= n && n <= size)
    __CPROVER_loop_invariant(!(g_k >= offset && g_k - offset < n) || ((uint8_t *)data)[g_k - offset] == g_eff)
    __CPROVER_decreases(size - n)''')])
U('S02', 'tag_mask_write', 'tag_mask_write.c', enforce='tag_mask_write', cost=30, bmc_unwind=16, flags=['--sat-solver', 'cadical'],
  replace=['tag_get_size', 'event_check', 'ret_tag_write', 'special_tag_mask_write'],
  loops=[loop(TB, 'tag_mask_write', 0, '''
    __CPROVER_assigns(n, __CPROVER_object_whole(db))
    __CPROVER_loop_invariant(0 <= n && n <= size)
    __CPROVER_loop_invariant(_db[idx].data[g_k] == ((g_k >= offset && g_k - offset < n) ?
       (uint8_t)((((uint8_t *)data)[g_k - offset] & ((uint8_t *)mask)[g_k - offset]) | (g_old & ~((uint8_t *)mask)[g_k - offset])) : g_old))
    __CPROVER_decreases(size - n)''')])
U('S01 S02', 'tag_get_size', 'tag_get_size.c', enforce='tag_get_size/vp_tag_get_size', cost=20, replace=['type_size'], flags=['--sat-solver', 'cadical'])

SMALL = dict(defines=['VP_SMALLDB', 'DAX_MSGMAX=256'], thorough=dict(defines=['VP_SMALLDB'], flags=['--sat-solver', 'cadical']))
U('S01 S03', 'msg_tag_write', 'msg_tag_write.c', enforce='msg_tag_write', cost=40, bmc_unwind=32, **SMALL,
  replace=['tag_write', '_message_send', 'map_check'])
U('S02 S03', 'msg_tag_mask_write', 'msg_tag_mask_write.c', enforce='msg_tag_mask_write', cost=40, bmc_unwind=44, **SMALL,
  replace=['tag_mask_write', '_message_send', 'map_check'])
U('S01', 'msg_tag_read', 'msg_tag_read.c', enforce='msg_tag_read', cost=40, bmc_unwind=32, **SMALL,
  replace=['tag_read', '_message_send'])

U('S03', 'special_tag_write', 'special_tag.c', enforce='special_tag_write/vp_special', replace=['module_find_fd'])
U('S03', 'special_tag_mask_write', 'special_tag.c', enforce='special_tag_mask_write/vp_special', replace=['module_find_fd'], defines=['MASKED'])

# ------------------------------------------------------------------ S04 overrides
OVSET = dict(replace=['tag_get_size', 'tag_write/vp_status_write', 'vp_bzero'], bmc_replace=['event_check', 'ret_tag_write'], bmc_unwind=16, cost=40, bound='the tag is at index 10 of a table of 12 or its index is negative; type, size, data, offset, length are not bounded')
U('S04', 'override_add', 'override.c', enforce='override_add', defines=['ADD', 'VP_SMALLDB', 'VP_FIXIDX'], **OVSET,
  loops=[loop(TB, 'override_add', 0, '''
    __CPROVER_assigns(n, __CPROVER_object_whole(_db[idx].odata), __CPROVER_object_whole(_db[idx].omask))
    __CPROVER_loop_invariant(0 <= n && n <= size)
    __CPROVER_loop_invariant(_db[idx].omask[g_k] == ((g_k >= offset && g_k - offset < n) ? (uint8_t)(g_oldom | ((uint8_t *)mask)[g_k - offset]) : g_oldom))
    __CPROVER_loop_invariant((_db[idx].odata[g_k] & _db[idx].omask[g_k]) == ((g_k >= offset && g_k - offset < n) ?
       (uint8_t)((((uint8_t *)data)[g_k - offset] & ((uint8_t *)mask)[g_k - offset]) | (g_oldod & g_oldom & ~((uint8_t *)mask)[g_k - offset])) : (g_oldod & g_oldom)))
    __CPROVER_decreases(size - n)''')])
U('S04', 'override_del', 'override.c', enforce='override_del', defines=['DEL', 'VP_SMALLDB', 'VP_FIXIDX'], **OVSET,
  loops=[loop(TB, 'override_del', 0, '''
    __CPROVER_assigns(n, __CPROVER_object_whole(_db[idx].odata), __CPROVER_object_whole(_db[idx].omask))
    __CPROVER_loop_invariant(0 <= n && n <= size)
    __CPROVER_loop_invariant(_db[idx].omask[g_k] == ((g_k >= offset && g_k - offset < n) ? (uint8_t)(g_oldom & ~((uint8_t *)mask)[g_k - offset]) : g_oldom))
    __CPROVER_loop_invariant((_db[idx].odata[g_k] & _db[idx].omask[g_k]) == (g_oldod & _db[idx].omask[g_k]))
    __CPROVER_decreases(size - n)'''),
    loop(TB, 'override_del', 1, '''
    __CPROVER_assigns(n)
    __CPROVER_loop_invariant(0 <= n && n <= tag_size && (n <= g_k || _db[idx].omask[g_k] == 0))
    __CPROVER_decreases(tag_size - n)''')])
U('S04', 'override_get', 'override.c', enforce='override_get', defines=['GET', 'VP_SMALLDB', 'VP_FIXIDX'], **{**OVSET, 'replace': ['tag_get_size', 'tag_write/vp_status_write']})
U('S04', 'override_set', 'override.c', enforce='override_set', defines=['SET', 'VP_SMALLDB', 'VP_FIXIDX'], **OVSET)
for n, r in (('ADD', 'add'), ('DEL', 'del'), ('GET', 'get'), ('SET', 'set')):
    U('S04', f'msg_{r}_override', 'msg_override.c', enforce=f'msg_{r}_override', replace=[f'override_{r}', '_message_send'], bmc_unwind=44,
      defines=[n, 'VP_SMALLDB', 'DAX_MSGMAX=256'], thorough=dict(defines=[n, 'VP_SMALLDB']))

# ------------------------------------------------------------------ S05 queues
for c in 1, 2, 4:
    U('S05', f'queue_step_{c}', 'queue.c', mode='bounded', defines=['STEP', f'QCAP={c}', 'QSZ=2'], bmc_unwind=8, stub=['event_check', 'ret_tag_write', 'server_time', 'get_module_tag_name'], about='write_queue, read_queue',
      bound=f'a queue of {c} slots in any state, items of 2 bytes, one operation and then the queue is emptied')
U('S05', 'queue_new', 'queue.c', helper='_queue_add', mode='bounded', defines=['NEW', 'VP_SMALLDB'], bmc_unwind=20, stub=['event_check', 'ret_tag_write', 'server_time', 'get_module_tag_name'], about='_queue_add',
  bound='items of 1 to 6 bytes, two items')
U('S05', 'read_queue', 'queue.c', enforce='read_queue/vp_read_queue', defines=['READ', 'VP_SMALLDB'], bmc_unwind=16)
U('S05', 'write_queue', 'queue.c', enforce='write_queue/vp_write_queue', defines=['WRITE', 'VP_SMALLDB'], replace=['event_check'], bmc_unwind=16)

# ------------------------------------------------------------------ S06 atomic operations
AT = 'server/atomic.c'
DK = '_db[h.index].data[g_k]'
def byteloop(fn, n, expr, lim='h.size', src='((dax_byte *)data)'):
    le = f'__CPROVER_loop_entry({DK})'
    return loop(AT, fn, n, f'''
    __CPROVER_assigns(n, __CPROVER_object_whole(_db[h.index].data))
    __CPROVER_loop_invariant(0 <= n && n <= {lim})
    __CPROVER_loop_invariant({DK} == ((g_k >= h.byte && g_k - h.byte < n) ? (uint8_t)({expr.format(a=le, b=src + '[g_w]')}) : {le}))
    __CPROVER_decreases({lim} - n)''')
LS = loop(AT, '_left_shift', 0, '''
    __CPROVER_assigns(n, __CPROVER_object_whole(dest))
    __CPROVER_loop_invariant(0 <= n && n < size)
    __CPROVER_loop_invariant(!(g_w > n && g_w < size) || dest[g_w] == (uint8_t)((src[g_w-1] >> (8-bit)) | (src[g_w] << bit)))
    __CPROVER_decreases(n)''')
NB = '((((int64_t)g_k - h.byte) * 8 + g_bit - h.bit) >= 0 && (((int64_t)g_k - h.byte) * 8 + g_bit - h.bit) < n)'
NOTB = loop(AT, '_atomic_not', 0, f"""
    __CPROVER_assigns(n, byte, bit, __CPROVER_object_whole(_db[h.index].data))
    __CPROVER_loop_invariant(0 <= n && (uint32_t)n <= h.count && bit == (int)(((uint32_t)h.bit + n) % 8) && byte == (int)(h.byte + ((uint32_t)h.bit + n) / 8))
    __CPROVER_loop_invariant((({DK} >> g_bit) & 1) == (((__CPROVER_loop_entry({DK}) >> g_bit) & 1) ^ ({NB} ? 1 : 0)))
    __CPROVER_decreases(h.count - n)""")
ALLVS = {1: 3, 2: 4, 4: 5, 8: 6}
def AOP(name, op, *loops, vs=(1,), defines=[], **kw):
    for v in (1, 2, 4, 8, 'BOOLS'):
        if v == 'BOOLS' and name in ('inc', 'dec', 'refuse', 'unknown'): continue
        U('S06', f'atomic_{name}_{v}'.replace('BOOLS', 'bool'), 'atomic.c', enforce='atomic_op/vp_atomic', replace=['tag_get_size', 'event_check', 'ret_tag_write'],
          defines=[f'OP={op}', 'VP_SMALLDB', 'VP_FIXIDX', v if v == 'BOOLS' else f'VS={v}'] + defines, loops=list(loops), bmc_unwind=18,
          tier='quick' if v == 'BOOLS' or v in vs else 'thorough', cost={1: 30, 2: 30, 4: 30, 8: 80, 'BOOLS': 60}[v], bound='the tag is at index 10 of a table of 12 or its index is negative', **kw)
def trip(fn, e, e2=None):
    return [LS, byteloop(fn, 0, e, 'size', 'temp'), byteloop(fn, 1, '{a} ^ 0xFF', 'size', 'temp'), byteloop(fn, 2, f'~({e})')]
def pair(fn, e): return [LS, byteloop(fn, 0, e, src='temp'), byteloop(fn, 1, e)]
AOP('or', 'ATOMIC_OP_OR', *pair('_atomic_or', '{a} | {b}'), vs=(1,))
AOP('and', 'ATOMIC_OP_AND', *pair('_atomic_and', '{a} & {b}'), vs=(2,))
AOP('xor', 'ATOMIC_OP_XOR', *pair('_atomic_xor', '{a} ^ {b}'), vs=(4,))
AOP('nor', 'ATOMIC_OP_NOR', *trip('_atomic_nor', '{a} | {b}'), vs=(8,))
AOP('nand', 'ATOMIC_OP_NAND', *trip('_atomic_nand', '{a} & {b}'), vs=(1,))
AOP('xnor', 'ATOMIC_OP_XNOR', *trip('_atomic_xnor', '{a} ^ {b}'), vs=(2,))
AOP('not', 'ATOMIC_OP_NOT', NOTB, byteloop('_atomic_not', 1, '~{a}'), vs=(4,))
AOP('inc', 'ATOMIC_OP_INC', vs=(1, 2, 4, 8), defines=['INCDEC'])
AOP('dec', 'ATOMIC_OP_DEC', vs=(1, 2, 4, 8), defines=['INCDEC'])
NEVER = [f'_atomic_{o}/vp_never' for o in 'inc dec not or and nor nand xor xnor'.split()]
for n, d in ('type', ['ANYOP']), ('op', ['BADOP']):
    U('S06', f'atomic_bad_{n}', 'atomic.c', enforce='atomic_op/vp_atomic', replace=['tag_get_size', 'event_check', 'ret_tag_write', 'type_size', *NEVER], defines=['OP=0', *d, 'VP_SMALLDB', 'VP_FIXIDX'],
      bmc_replace=['tag_get_size', 'event_check', 'ret_tag_write'], bmc_unwind=18)

# ------------------------------------------------------------------ S07 when events fire
STUBS = ['ret_tag_write', 'server_time', 'get_module_tag_name', 'read_queue', 'write_queue']
B1 = [('DAX_BYTE', 1), ('DAX_SINT', 1), ('DAX_CHAR', 1)]; B2 = [('DAX_WORD', 2), ('DAX_INT', 2), ('DAX_UINT', 2)]
B4 = [('DAX_DWORD', 4), ('DAX_DINT', 4), ('DAX_UDINT', 4)]; B8 = [('DAX_LWORD', 8), ('DAX_LINT', 8), ('DAX_ULINT', 8), ('DAX_TIME', 8)]; BR = [('DAX_REAL', 4), ('DAX_LREAL', 8)]
def EVT(name, ev, groups, more=[], **kw):
    for g, (types, *args) in groups.items():
        U('S07', f'event_{name}_{g}', 'event_fire.c', mode='bounded', stub=STUBS, flags=['--slice-formula', '--sat-solver', 'cadical'], about='event_check, event_add', bmc_unwind={'*': 13, 'event_check.0': 2},
          defines=[f'EV=EVENT_{ev}', 'VP_SMALLDB', 'DAX_MSGMAX=64', 'VP_CAPTURE', 'TYPES=' + ' '.join(f'RUN({t},{s},{a})' for t, s in types for a in args), *more],
          bound=f'a tag of 6 bytes, events on (items, byte, bit, extra bytes) {" / ".join(args)}, two writes after it was added', **kw)
BB = ([('DAX_BOOL', 0)], '10,2,3,0', '6,1,2,1')
EVT('write', 'WRITE', dict(w=(B2[:1], '2,1,0,0')))
EVT('change', 'CHANGE', dict(w=(B2[1:2], '2,1,0,0'), bool=BB))
EVT('set', 'SET', dict(bool=BB))
EVT('reset', 'RESET', dict(bool=BB))
EVT('equal', 'EQUAL', dict(w=(B2[2:], '2,1,0,0'), b=(B1[:1], '3,2,0,0')))
EVT('less', 'LESS', dict(many=(B1[:1], '9,1,0,0')), more=['NB=11'])
EVT('greater', 'GREATER', dict(b=(B1[1:2], '3,1,0,0'), d=(B4[1:2], '1,2,0,0')))
EVT('less', 'LESS', dict(b=(B1[1:2], '3,1,0,0'), d=(B4[2:], '1,2,0,0')))
EVT('deadband', 'DEADBAND', dict(w=(B2[1:2], '2,1,0,0'), d=(B4[1:2], '1,1,0,0')))
for f in 0, 1:
    U('S07', 'event_compare' + '_real' * f, 'event_val.c', helper='_generic_compare', enforce='_generic_compare/vp_compare', defines=['CMP'] + ['FP'] * f)
    U('S07', 'event_deadband' + '_real' * f, 'event_val.c', helper='_generic_deadband', enforce='_generic_deadband/vp_deadband', defines=['DB'] + ['FP'] * f, bound='integral values of 8 bits' if f else '')

# ------------------------------------------------------------------ S08 the event registry
CAD = ['--slice-formula', '--sat-solver', 'cadical']
for n, d in ('del', 'DELOP'), ('opt', 'OPTOP'), ('cleanup', 'CLEANOP'):
    U('S08', f'event_reg_{n}', 'event_reg.c', mode='bounded', stub=STUBS, flags=CAD, about={'del': 'event_add, event_del', 'opt': 'event_opt', 'cleanup': 'events_cleanup'}[n],
      bmc_unwind={'*': 13, 'event_check.0': 5, 'event_del.0': 5, '_find_event.0': 5, 'events_cleanup.1': 5}, defines=[d, 'DAX_MSGMAX=64', 'VP_CAPTURE'], bound='four events of two modules on two tags, one operation')
for n in 1, 2, 3, 4, 5:
    U('S08', f'event_add_{n}', 'event_add.c', tier='quick' if n > 2 else 'thorough', bmc_plain=True, stub=STUBS, cost=90, helper='_set_event_data', enforce='event_add/vp_event_add', replace=['tag_get_size', '_set_event_data/vp_set_data'], unwind=9, objbits=11, flags=CAD, bmc_unwind=16, bmc_defines=['VP_FIXMALLOC=128', 'VP_LOOPCPY=12'], defines=['VP_SMALLDB', 'VP_FIXIDX', f'PART={n}'],
  bound='the tag is at index 10 of a table of 12 or its index is negative; type, size, handle and event are not bounded')

V_, Q_ = 'TAG_ATTR_VIRTUAL', 'DAX_QUEUE|DAX_INT'
for n, items in dict(ok=['DAX_BYTE,6,0,EVENT_CHANGE,DAX_INT,2,4,0,1', 'DAX_BYTE,6,0,EVENT_SET,DAX_BOOL,10,2,3,1', 'DAX_BYTE,6,0,EVENT_LESS,DAX_DINT,1,4,0,1', 'DAX_BYTE,6,0,EVENT_EQUAL,DAX_SINT,3,3,0,1', Q_ + ',2,' + V_ + ',EVENT_WRITE,DAX_INT,1,2,0,1'],
                     size=['DAX_BYTE,6,0,EVENT_CHANGE,DAX_INT,2,3,0,0', 'DAX_BYTE,6,0,EVENT_CHANGE,DAX_INT,2,5,0,0', 'DAX_BYTE,6,0,EVENT_CHANGE,DAX_INT,0,4,0,0', 'DAX_BYTE,6,0,EVENT_SET,DAX_BOOL,10,1,0,0', 'DAX_BYTE,6,0,EVENT_RESET,DAX_BOOL,2,1,8,0', 'DAX_BYTE,6,0,EVENT_WRITE,DAX_INT,1,0,0,0', 'DAX_BYTE,6,0,EVENT_EQUAL,DAX_INT,32769,2,0,0'],
                     type=['DAX_BYTE,6,0,EVENT_SET,DAX_BYTE,1,1,0,0', 'DAX_BYTE,6,0,EVENT_EQUAL,DAX_REAL,1,4,0,0', 'DAX_BYTE,6,0,EVENT_GREATER,DAX_BOOL,1,1,0,0', 'DAX_BYTE,6,0,EVENT_LESS,DAX_CUSTOM|3,1,4,0,0', 'DAX_BYTE,6,0,20,DAX_INT,1,2,0,0', 'DAX_BYTE,6,0,EVENT_DEADBAND,DAX_BOOL,1,1,0,0',
                           Q_ + ',2,' + V_ + ',EVENT_CHANGE,DAX_INT,1,2,0,0', 'DAX_QUEUE|DAX_DINT,4,' + V_ + ',EVENT_WRITE,DAX_INT,1,2,0,0', 'DAX_BYTE,6,' + V_ + ',EVENT_WRITE,DAX_INT,1,2,0,0']).items():
    U('S08', f'event_given_{n}', 'event_addb.c', mode='bounded', stub=STUBS, flags=CAD, about='event_add', bmc_unwind=9, defines=['DAX_MSGMAX=64', 'ITEMS=' + ' '.join(f'X({i})' for i in items)], bound='given handles at any offset of a tag of 6 bytes')

# ------------------------------------------------------------------ S09 data mappings
MB = dict(mode='bounded', flags=CAD, bmc_unwind={'*': 13, 'map_check.1': 3, 'map_add.0': 3, 'map_get.0': 3, 'map_del.0': 3})
MST = ['event_check', *STUBS]
for n, hs in dict(bytes=['DAX_BYTE,1,3,1,0,2,0,3', 'DAX_INT,2,2,0,0,1,0,4', 'DAX_DINT,4,1,1,0,0,0,5'], bits=['DAX_BOOL,0,10,1,3,2,5,3', 'DAX_BOOL,0,3,4,5,0,7,2'], bit=['DAX_BOOL,0,1,0,7,4,0,1', 'DAX_BOOL,0,8,2,0,1,0,1', 'DAX_BOOL,0,12,0,6,1,2,3']).items():
    U('S09', f'map_{n}', 'mapping.c', stub=MST, about='map_add, map_check, map_get, map_del', defines=['PARTIAL', 'DAX_MSGMAX=64', 'HANDLES=' + ' '.join(f'M({x})' for x in hs)], bound='two tags of 5 bytes, given handles, two writes of any range', **MB)
RO, SP = 'TAG_ATTR_READONLY', '0'
for n, hs in dict(ok=['10,2,11,2,0,0,DAX_INT,0,0,1,1', '10,2,11,4,0,0,DAX_INT,0,0,1,1', '10,2,11,2,0,TAG_ATTR_READONLY,DAX_BOOL,3,7,9,1', '10,5,11,5,0,0,DAX_BYTE,0,0,5,1'],
                  refused=['-1,2,11,2,0,0,DAX_INT,0,0,1,0', '12,2,11,2,0,0,DAX_INT,0,0,1,0', '10,2,12,2,0,0,DAX_INT,0,0,1,0', '10,2,-2147483648,2,0,0,DAX_INT,0,0,1,0', '10,4,11,2,0,0,DAX_INT,0,0,2,0', '10,2,11,2,TAG_ATTR_READONLY,0,DAX_INT,0,0,1,0',
                           '10,2,11,2,TAG_ATTR_VIRTUAL,0,DAX_INT,0,0,1,0', '10,2,11,2,0,TAG_ATTR_VIRTUAL,DAX_INT,0,0,1,0', '10,0,11,2,0,0,DAX_INT,0,0,1,0', '10,4294967295u,11,4294967295u,0,0,DAX_INT,0,0,1,0',
                           '10,1,11,2,0,0,DAX_BOOL,3,3,6,0', '10,1,11,1,0,0,DAX_BOOL,0,3,6,0', '10,1,11,1,0,0,DAX_BOOL,0,0,0,0', '10,2,11,2,0,0,DAX_BOOL,8,0,2,0', '10,2,11,2,0,0,DAX_BOOL,0,255,2,0']).items():
    U('S09', f'map_given_{n}', 'mapping.c', stub=MST, about='map_add', defines=['DAX_MSGMAX=64', 'HANDLES=' + ' '.join(f'G({x})' for x in hs)], bound='given handles at any offset of two tags of 5 bytes', **MB)

_B = 'DAX_BOOL,1,2,2,1,2,3,1,'
U('S09', 'map_two', 'mapping.c', stub=MST, about='map_add, map_check, map_get, map_del', defines=['DAX_MSGMAX=64', 'HANDLES=' + ' '.join(f'T({x})' for x in [_B + 'DAX_BOOL,1,4,2,1,2,3,1,0', _B + 'DAX_BOOL,1,4,2,1,2,3,1,1', _B + 'DAX_BOOL,0,2,2,1,2,3,1,0', _B + 'DAX_BOOL,1,2,3,1,2,3,1,1',
   _B + 'DAX_BOOL,1,2,2,1,2,4,1,0', _B + 'DAX_BOOL,1,2,2,1,3,3,1,1', _B + 'DAX_BOOL,1,2,2,1,2,3,2,0', 'DAX_INT,0,0,1,2,1,0,2,DAX_UINT,0,0,1,2,1,0,2,0', 'DAX_BYTE,0,0,2,2,1,0,2,DAX_BYTE,0,0,3,3,1,0,3,1'])], bound='two given mappings that differ in one or two fields', **dict(MB, bmc_unwind={'*': 13, 'map_check.1': 4, 'map_add.0': 4, 'map_get.0': 4, 'map_del.0': 4}))

# ------------------------------------------------------------------ S10 tag groups
for n, gs in dict(ok=['10,1,3,11,2,4,0', '11,0,6,10,5,1,0', '10,0,2,10,1,2,0', '11,3,1,10,0,6,2', '10,2,2,11,2,2,2'], bad=['10,1,3,11,2,5,0', '12,0,1,11,0,1,0', '10,0,1,11,6,1,0', '10,0,4,11,4294967295u,2,0', '10,0,2,11,0,2,1', '11,0,2,10,0,2,1', '10,0,2,4294967295u,0,2,0']).items():
    U('S10 S03', f'group_{n}', 'group.c', mode='bounded', stub=MST, flags=CAD, bmc_unwind={'*': 17, 'map_check.1': 2}, about='group_add, group_read, group_write, group_del', defines=['RW', 'DAX_MSGMAX=64', 'GROUPS=' + ' '.join(f'R({x})' for x in gs)], bound='groups of two given members in two tags of 6 bytes')
for n in 16, 40:
    U('S10', f'group_many_{n}', 'group.c', mode='bounded', stub=MST, flags=CAD + ['--max-field-sensitivity-array-size', '1024'], bmc_unwind={'*': n + 2, 'map_check.1': 2}, objbits=11, about='group_add, group_read, group_write', defines=['RW', 'DAX_MSGMAX=256', f'MAXC={n}', f'GROUPS=MANY({n})'], bound=f'a group of {n} given members of one byte')
U('S10', 'group_table', 'group.c', mode='bounded', stub=MST, flags=CAD, bmc_unwind=34, about='group_add, group_del, groups_cleanup', defines=['DAX_MSGMAX=64'], bound='a table of 16 groups in any state')

# ------------------------------------------------------------------ S11 the message stream
HANDLERS = ['msg_' + x for x in 'mod_register tag_add tag_del tag_get tag_list tag_read tag_write tag_mask_write evnt_add evnt_del evnt_get evnt_opt cdt_create cdt_get map_add map_del map_get group_add group_del group_read group_write group_mask_write atomic_op add_override del_override get_override set_override'.split()]
U('S11', 'xwrite', 'stream.c', enforce='xwrite/vp_xwrite', replace=['vp_write'], bmc_replace=[], bmc_unwind=8, defines=['XW'],
  loops=[loop('server/func.c', 'xwrite', 0, """
    __CPROVER_assigns(result, left, sbuff, g_wr, g_fail, vp_errno)
    __CPROVER_loop_invariant(left <= nbyte && g_wr == nbyte - left && sbuff == (const void *)(g_base + g_wr) && !g_fail)""")])
U('S11', 'message_send', 'stream.c', helper='_message_send', enforce='_message_send/vp_send', replace=['xwrite/vp_xw'], defines=['SEND', 'DAX_MSGMAX=256'], flags=CAD, bmc_unwind=24, thorough=dict(defines=['SEND']))
U('S11', 'msg_dispatcher', 'stream.c', defines=['DISP', 'DAX_MSGMAX=256'], flags=CAD, unwind=30, bmc_unwind=40, thorough=dict(defines=['DISP']), about='msg_dispatcher', stub=[*STUBS, *HANDLERS], stub_proof=True)
U('S11', 'msg_table', 'stream.c', mode='bounded', defines=['TABLE'], bmc_unwind=130, about='msg_setup', stub=STUBS, bound='none: the table is constant')
for i, (a, b, c, lo, hi, t) in enumerate([(8, 12, 11, 0, 0, 0), (8, 12, 11, 1, 2, 1), (8, 12, 11, 3, 4, 1), (8, 12, 11, 5, 7, 1), (11, 8, 16, 3, 3, 0), (11, 8, 16, 9, 9, 0), (16, 9, 8, 9, 15, 1)]):
    U('S11', f'framing_{i}', 'stream.c', mode='bounded', tier='thorough' if t else 'quick', objbits=11, defines=['FRAME', 'DAX_MSGMAX=16', f'S1={a}', f'S2={b}', f'S3={c}', f'KLO={lo}', f'KHI={hi}', f'RET1={-1 if a == 11 else 0}'], flags=CAD, stub=[*STUBS, *HANDLERS], bmc_unwind=30, about='buff_read, find_buff_slot, buff_free, buff_freeall, msg_dispatcher', bound=f'two sockets, messages of {a}, {b}, {a} / {c} bytes, the first cut after {lo} to {hi} bytes and the second one anywhere, buffers of 16 bytes')

for a, b, c, k in (8, 12, 11, 3), (11, 8, 16, 9):
    U('S11', f'framing_close_{k}', 'stream.c', mode='bounded', objbits=11, defines=['FRAME', 'CLOSE', 'DAX_MSGMAX=16', f'S1={a}', f'S2={b}', f'S3={c}', f'KLO={k}', f'KHI={k}', 'RET1=0'], flags=CAD, stub=[*STUBS, *HANDLERS], bmc_unwind=30, about='buff_read, find_buff_slot, buff_free, buff_freeall, msg_dispatcher', bound=f'two sockets, given messages of {a}, {b}, {a} / {c} bytes, cut after {k} bytes and anywhere, one of them closed in the middle of a message')

# ------------------------------------------------------------------ S13 names and indexes of tags
FS = ['--max-field-sensitivity-array-size', '4096']
TB = dict(mode='bounded', flags=CAD + FS, stub=MST, objbits=11, bmc_unwind=60, timeout=300)
for n, items in dict(life_a=['L(1,0,0)', 'L(2,0,1)', 'L(2,1,0)', 'L(3,0,1)', 'L(3,1,2)', 'L(3,2,0)'], life_b=['L(5,2,0)', 'L(5,4,4)', 'L(6,0,3)', 'L(6,3,5)'], life_c=['L(9,4,2)', 'L(8,7,7)']).items():
    U('S13', f'tag_{n}', 'tagnames.c', about='tag_add, tag_del, tag_get_name, tag_get_index', defines=['VP_POOL=60','DAX_MSGMAX=64', 'ITEMS=' + ' '.join(items)], bound='given sets of up to nine names, added in given orders, one deleted and added again', **TB)
for n, items in dict(a='N(0,-1) N(1,-1) N(2,-1) N(31,-1) N(32,-1) N(33,-1) N(34,-1)', b='N(1,0)', c='N(3,1)').items():
    U('S13', f'tag_name_{n}', 'tagnames.c', about='tag_add, _validate_name', defines=['VP_POOL=20', 'DAX_MSGMAX=64', 'ITEMS=' + items], bound='given names of 0 to 34 characters', **TB)
U('S13', 'validate_name', 'tagnames.c', mode='bounded', helper='_validate_name', about='_validate_name', flags=CAD, stub=MST, bmc_unwind=38, defines=['VAL', 'VP_POOL=20', 'DAX_MSGMAX=64', 'ITEMS='], bound='all strings of up to 36 characters')
U('S13', 'tag_life_long', 'tagnames.c', about='tag_add, tag_del, tag_get_name, tag_get_index', defines=['LONGN', 'VP_POOL=60', 'DAX_MSGMAX=64', 'ITEMS=L(3,1,2)'], bound='names of 31 and 32 characters that differ at the end', **TB)
U('S13', 'tag_messages', 'tagnames.c', about='msg_tag_add, msg_tag_get, msg_tag_del, tag_add, tag_del, tag_get_name, tag_get_index', defines=['MSGS', 'VP_CAPTURE', 'VP_POOL=40', 'DAX_MSGMAX=128'], bound='one given sequence of messages of two modules', **TB)
U('S13', 'tag_type', 'tagnames.c', about='tag_add, _checktype, type_size, tag_get_size', defines=['VP_POOL=30', 'DAX_MSGMAX=64', 'ITEMS=' + ' '.join(f'Y({x})' for x in ['DAX_BOOL,1,1', 'DAX_BOOL,7,1', 'DAX_BOOL,17,3', 'DAX_BYTE,3,3', 'DAX_SINT,2,2', 'DAX_CHAR,5,5', 'DAX_WORD,3,6', 'DAX_INT,2,4', 'DAX_UINT,1,2', 'DAX_DWORD,2,8', 'DAX_DINT,1,4', 'DAX_UDINT,3,12', 'DAX_REAL,2,8',
   'DAX_LWORD,1,8', 'DAX_LINT,2,16', 'DAX_ULINT,3,24', 'DAX_TIME,1,8', 'DAX_LREAL,2,16', 'DAX_INT,0,-1', '0,1,-1', '1,4,-1', '0x33,1,-1', '0x16000,1,-1', 'DAX_CUSTOM,1,-1', 'DAX_CUSTOM|5,1,-1', 'DAX_LREAL,0x10000000u,-1', 'DAX_LREAL,0x20000001u,-1', 'DAX_INT,0x80000001u,-1', 'DAX_BYTE,0x80000000u,-1', 'DAX_BYTE,0xFFFFFFFFu,-1'])], bound='given types and counts', **TB)
U('S13', 'tag_again', 'tagnames.c', about='tag_add', defines=['VP_POOL=30', 'DAX_MSGMAX=64', 'ITEMS=' + ' '.join(f'W({x})' for x in ['DAX_INT,2,DAX_INT,5,0,6,0,1', 'DAX_BOOL,7,DAX_BOOL,24,0,6,0,1', 'DAX_BYTE,3,DAX_BYTE,2,0,6,0,1', 'DAX_LREAL,1,DAX_LREAL,4,0,5,1,1', 'DAX_BYTE,2,DAX_BYTE,9,0,7,1,1', 'DAX_INT,2,DAX_UINT,2,0,5,0,0', 'DAX_INT,2,DAX_UINT,4,0,5,0,0', 'DAX_INT,2,DAX_INT,4,TAG_ATTR_OWNED,5,0,1', 'DAX_INT,2,DAX_INT,4,TAG_ATTR_OWNED,6,0,0',
   'DAX_INT,2,DAX_INT,2,TAG_ATTR_OWNED,6,0,0', 'DAX_INT,2,DAX_INT,0,0,5,0,0', 'DAX_QUEUE|DAX_INT,2,DAX_QUEUE|DAX_INT,3,0,5,0,0', 'DAX_QUEUE|DAX_INT,2,DAX_QUEUE|DAX_INT,2,0,6,0,1', 'DAX_QUEUE|DAX_INT,2,DAX_INT,2,0,5,0,0', 'DAX_LREAL,2,DAX_LREAL,0x20000001u,0,5,0,0'])], bound='given tags', **TB)

# ------------------------------------------------------------------ S12 custom datatypes
CD = dict(TB, bmc_unwind=70, flags=CAD + ['--max-field-sensitivity-array-size', '16384'])
DD = lambda *a: ' '.join(f'D("{d}",{s})' if d else 'L' for d, s in a)
for n, items in dict(ok=DD(('A:x,INT,1', 2), ('b:x,BOOL,1', 1), ('', 0), ('C:x,BOOL,8:y,BOOL,1', 2), ('A:x,INT,1', 2), ('D_1:x,BOOL,3:y,DINT,2:z,BOOL,1', 10), ('E:a,A,3:b,b,2:c,D_1,1', 18)),
                     bad=DD(('A:x,INT,1', 2), ('A:x,INT,2', -1), ('A:x,UINT,1', -1), ('A', -1), ('', 0), ('a:x,INT,1', -1), ('B:x,INT,0', -1), ('B:x,INT,-1', -1), ('B:x,INT', -1), ('B:x', -1), ('B:', -1), ('B', -1), ('B:x,B,1', -1), ('B:x,C,1', -1), ('B:y,INT,1:x,INTX,1', -1)),
                     names=DD((':', -1), ('1B:x,INT,1', -1), ('B:1x,INT,1', -1), ('B:x-,INT,1', -1), ('B :x,INT,1', -1), ('INT:x,INT,1', -1), ('B:x,INT,1:y,INT,1:x,BOOL,1', -1), ('B:x,INT,1:X,INT,1', -1), ('_B:_x,INT,1:x1,SINT,1', 3), ('_b:q,INT,1', -1), ('_B1:q,INT,1', 2)),
                     types=DD(('A:a,BOOL,1:b,BYTE,1:c,SINT,1:d,CHAR,1', 4), ('B:a,WORD,1:b,INT,1:c,UINT,1', 6)),
                     types4=DD(('C:a,DWORD,1:b,DINT,1:c,UDINT,1:d,REAL,1', 16)), types8=DD(('D:a,LWORD,1:b,LINT,1:c,ULINT,1', 24), ('E:a,TIME,1:b,LREAL,1', 16)),
                     big=DD(('A:x,LREAL,268435455', 2147483640), ('B:x,LREAL,268435456', -1), ('B:x,LREAL,2147483647', -1), ('B:x,A,1:y,BYTE,6', 2147483646), ('C:x,A,2', -1), ('D:x,BOOL,2147483647:y,BOOL,1', 268435456), ('E:x,BYTE,4294967297', -1), ('E:x,BYTE,2147483648', -1))).items():
    U('S12', f'cdt_{n}', 'cdt.c', about='cdt_create, cdt_append, type_size, serialize_datatype, cdt_get_type, cdt_get_name', defines=['VP_POOL=60', 'VP_CDT', 'DAX_MSGMAX=64', 'ITEMS=' + items], bound='given definitions', **CD)
U('S12', 'cdt_many', 'cdt.c', about='cdt_create, type_size, serialize_datatype', defines=['VP_POOL=60', 'VP_CDT', 'DAX_DATATYPE_SIZE=3', 'DAX_MSGMAX=64', 'ITEMS=' + DD(*[(f'{c}:x,BOOL,{8 * i + 1}', i + 1) for i, c in enumerate('ABC')], ('X:y,C,1:z,A,2', 5), ('Y:q,X,2', 10))], bound='a table of three types at first; five given definitions', **CD)
U('S12', 'cdt_messages', 'cdt.c', about='msg_cdt_create, msg_cdt_get', defines=['MSGS', 'VP_POOL=60', 'VP_CDT', 'VP_CAPTURE', 'DAX_MSGMAX=128', 'ITEMS='], bound='one given sequence of messages', **CD)
for i in range(3):
    U('S12', f'cdt_size_{i}', 'cdt.c', about='type_size', defines=['SIZES', 'VP_POOL=60', 'VP_CDT', 'DAX_MSGMAX=64', 'ITEMS=' + ' '.join(f'one({a});' for a in (['0,0,0', '0,1,0', '2,0,3'], ['0,4,0', '1,0,5', '0,5,0'], ['0,6,0', '5,0,1', '3,2,6'])[i])], bound='three members of given types with any number of items', **CD)

# ------------------------------------------------------------------ messages of several modules
for n, d, ps, ab in ('maps', 'MAPS', 'S09', 'msg_map_add, msg_map_del, msg_map_get, msg_tag_write, msg_tag_mask_write'), ('groups', 'GROUPS', 'S10 S03', 'msg_group_add, msg_group_del, msg_group_read, msg_group_write'), ('events', 'EVENTS', 'S07 S08', 'msg_evnt_add, msg_evnt_del, msg_evnt_opt, msg_tag_write'), ('atomic', 'ATOMIC', 'S06 S03 S09', 'msg_atomic_op, map_check'):
    U(ps, f'messages_{n}', 'messages.c', about=ab, defines=[d, 'VP_CAPTURE', 'VP_POOL=40', 'DAX_MSGMAX=128'], bound='one given sequence of messages of several modules with arbitrary data', **{**TB, 'stub': STUBS})

for p in 'S01 S02 S03 S04 S05 S06 S07 S08 S09 S10 S11 S12 S13'.split(): PROPS[p] = {}
# what decides these is (mostly) a bounded run of the real functions, so they are not counted as proofs
for p in 'S05 S07 S09 S10 S11 S12 S13'.split():
    PROPS[p] = dict(level='other', note='The deciding units are bounded symbolic executions of the unchanged functions against the same kind of assertions: exhaustive over all values inside of the bounds that are listed with each unit, not over larger ones; what is discharged without a bound is counted separately.')
