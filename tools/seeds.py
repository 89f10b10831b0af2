"""The planted bugs: edits against /repo and demonstrations."""
SEEDS = {}
S = SEEDS
T = 'src/server/tagbase.c'; M = 'src/server/message.c'
S['read_offset_high'] = dict(property='S01', edits=[(T, 'memcpy(data, &(_db[idx].data[offset]), size);', 'memcpy(data, &(_db[idx].data[(uint16_t)offset]), size);')],
  needs='a read at an offset above 65535 of a tag larger than that', breaks='a read returns other bytes than the ones that were written there',
  demo_py='''
s = Server(); m = Mod(s)
i = m.add('big', DINT, 20000)
m.write(i, 0, b'\\x01\\x02\\x03\\x04'); m.write(i, 65536, b'\\x11\\x12\\x13\\x14')
check(m.read(i, 65536, 4) == b'\\x11\\x12\\x13\\x14', 'a write is read back at a high offset')
check(m.read(i, 0, 4) == b'\\x01\\x02\\x03\\x04', 'low offset')
''')
S['mask_keep_bits'] = dict(property='S02', edits=[(T, 'db[n] = (newdata[n] & newmask[n]) | (db[n] & ~newmask[n]);', 'if(newmask[n]) db[n] = newdata[n] | (db[n] & ~newmask[n]);')],
  needs='a masked write whose data has bits outside of the mask', breaks='bits outside of the mask are changed by a masked write',
  demo_py='''
s = Server(); m = Mod(s)
i = m.add('t', BYTE, 4)
m.write(i, 0, b'\\x00\\x00\\x00\\x00')
m.mwrite(i, 1, b'\\xff\\xff', b'\\x0f\\x00')
check(m.read(i, 0, 4) == b'\\x00\\x0f\\x00\\x00', 'only the masked bits change')
''')
S['readonly_owner_any'] = dict(property='S03', edits=[(T, 'return (_db[idx].attr & TAG_ATTR_OWNED && _db[idx].fd == fd);', 'return (_db[idx].attr & TAG_ATTR_OWNED && _db[idx].fd <= fd);')],
  needs='a read-only owned tag and a second module that connected after the owner', breaks='a module that is not the owner writes a read-only tag',
  demo_py='''
s = Server(); a = Mod(s, 'a'); b = Mod(s, 'b')
i = a.add('t', INT, 1, 0x0001 | 0x0020)
a.write(i, 0, b'\\x05\\x00')
check(b.err(WRITE, struct.pack('<ii', i, 0) + b'\\x09\\x09') < 0, 'a stranger may not write')
check(a.read(i, 0, 2) == b'\\x05\\x00', 'the value is still the one of the owner')
''')
S['ovr_del_end'] = dict(property='S04', edits=[(T, 'for(n=0;n<tag_size;n++) {\n        if(_db[idx].omask[n])  return 0;', 'for(n=0;n<size+offset;n++) {\n        if(_db[idx].omask[n])  return 0;')],
  needs='two overrides in one tag, of which the lower one is deleted', breaks='deleting one override drops another one behind it',
  demo_py='''
s = Server(); m = Mod(s)
i = m.add('t', INT, 4)
m.write(i, 0, bytes(range(8)))
def ovr(off, data, mask): m.call(OADD, struct.pack('<iii', i, off, len(data)) + data + mask)
ovr(0, b'\\xa1', b'\\xff'); ovr(6, b'\\xa6\\xa7', b'\\xff\\xff')
m.call(OSET, struct.pack('<iB', i, 1))
check(m.read(i, 0, 8) == b'\\xa1\\1\\2\\3\\4\\5\\xa6\\xa7', 'both overrides are visible')
m.call(ODEL, struct.pack('<ii', i, 0) + b'\\xff')
check(m.read(i, 0, 8) == b'\\0\\1\\2\\3\\4\\5\\xa6\\xa7', 'the other override stays')
''')
S['queue_grow_one'] = dict(property='S05', edits=[('src/server/virtualtag.c', 'if(q->qread > 0) {', 'if(q->qread > 1) {')],
  needs='a queue that grows while exactly one item has wrapped around', breaks='an item is lost when the queue grows',
  demo_py='''
s = Server(); m = Mod(s)
i = m.add('q', INT | QUEUE, 1)
n = 1; want = []
def put():
    global n
    m.write(i, 0, struct.pack('<H', n)); want.append(n); n += 1
def get(): return struct.unpack('<H', m.read(i, 0, 2))[0]
for first in range(0, 6):
    for k in range(first): put()
    for k in range(first): check(get() == want.pop(0), 'order')
    for k in range(3): put()
    check(get() == want.pop(0), 'order')
    for k in range(first * 7 + 40): put()
    while want: check(get() == want.pop(0), 'every item in order')
# every position of the read index at the moment at which the queue grows
for start in range(1, 4):
    q = m.add('q%d' % start, INT | QUEUE, 1); c = 100; w = []
    for k in range(start): m.write(q, 0, struct.pack('<H', 1)); m.read(q, 0, 2)
    for k in range(300): m.write(q, 0, struct.pack('<H', c + k))
    for k in range(300): 
        try: v = struct.unpack('<H', m.read(q, 0, 2))[0]
        except Error: v = None
        check(v == c + k, 'item %d of a queue that grew' % k)
''')
S['xor_shifted_bytes'] = dict(property='S06', edits=[('src/server/atomic.c', "h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {\n        _left_shift(temp, data, h.size, h.bit);\n\n        hmask = _high_mask(h);\n        lmask = 0xFF >> (8-h.bit);\n\n        temp[h.size-1] &= ~hmask;\n        temp[0]      &= ~lmask;\n\n        for(n=0; n<h.size; n++) {\n            ((dax_byte *)_db[h.index].data)[h.byte+n] ^= temp[n];", "h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit <= 1)) {\n        _left_shift(temp, data, h.size, h.bit);\n\n        hmask = _high_mask(h);\n        lmask = 0xFF >> (8-h.bit);\n\n        temp[h.size-1] &= ~hmask;\n        temp[0]      &= ~lmask;\n\n        for(n=0; n<h.size; n++) {\n            ((dax_byte *)_db[h.index].data)[h.byte+n] ^= temp[n];")],
  needs='an atomic XOR of a whole number of bytes of BOOL items that starts at bit 1', breaks='the operand is applied at the wrong bits',
  demo_py='''
s = Server(); m = Mod(s)
i = m.add('b', BOOL, 32)
for bit in range(8):
    for count in (1, 3, 7, 8, 9, 15, 16):
        old = 0x96A53C1F; new = 0xFFFF & ((1 << count) - 1)
        m.write(i, 0, struct.pack('<IB', old, 0))
        size = (bit + count - 1) // 8 + 1
        m.call(ATOMIC, struct.pack('<iIIIBHH', i, 1, count, BOOL, bit, 8, 0) + struct.pack('<I', new)[:size])
        got = struct.unpack('<I', m.read(i, 0, 4))[0]
        check(got == old ^ (new << (8 + bit)), 'xor of %d bits at bit %d' % (count, bit))
''')

EV = 'src/server/events.c'; MP = 'src/server/mapping.c'; GR = 'src/server/groups.c'; BU = 'src/server/buffer.c'
S['uint_deadband_wrap'] = dict(property='S07', edits=[(EV, 'diff.dax_dint = *(dax_uint *)data1 - *(dax_uint *)data2;', 'diff.dax_dint = (dax_int)(*(dax_uint *)data1 - *(dax_uint *)data2);')],
  needs='a deadband event on a UINT tag and a jump of more than 32767', breaks='a large jump is taken for a small one and the event does not fire',
  demo_py='''
s = Server(); m = Mod(s)
i = m.add('t', UINT, 1)
DEADBAND = 9
m.call(EADD, struct.pack('<iIIIiI', i, 0, 1, UINT, DEADBAND, 2) + b'\\0' + struct.pack('<H', 1000))
def put(v): m.write(i, 0, struct.pack('<H', v)); return len(m.poll())
check(put(10) == 0, 'inside of the deadband')
check(put(2000) == 1, 'a jump of 2000')
check(put(2500) == 0, 'inside of the deadband')
check(put(65500) == 1, 'a jump of 63500')
check(put(100) == 1, 'and back')
''')
S['event_opt_younger'] = dict(property='S08', edits=[(EV, "    if(event->notify != module) {\n    \tdax_log(DAX_LOG_ERROR, \"Module cannot modify another module's event\");", "    if(event->notify != module && event->notify->event_count <= module->event_count) {\n    \tdax_log(DAX_LOG_ERROR, \"Module cannot modify another module's event\");")],
  needs='a module with fewer events than the owner of the event', breaks='a module changes the options of an event of another module',
  demo_py='''
s = Server(); a = Mod(s, 'a'); b = Mod(s, 'b')
i = a.add('t', INT, 2)
e = struct.unpack('<i', a.call(EADD, struct.pack('<iIIIiI', i, 0, 2, INT, 2, 4) + b'\\0'))[0]
a.call(EADD, struct.pack('<iIIIiI', i, 0, 1, INT, 2, 2) + b'\\0')
check(b.err(EOPT, struct.pack('<iII', i, e, 1)) < 0, 'a stranger may not change the options')
check(a.err(EOPT, struct.pack('<iII', i, e, 1)) == 0, 'the owner may')
''')
S['map_same_bytes'] = dict(property='S09', edits=[(MP, '           h1.byte == h2.byte &&\n           h1.bit == h2.bit &&\n', '           h1.byte == h2.byte &&\n')],
  needs='two mappings between the same bytes of which the bits differ', breaks='the second mapping is taken for a duplicate of the first one',
  demo_py='''
s = Server(); m = Mod(s)
i = m.add('src', BOOL, 32); j = m.add('dst', BOOL, 32)
def hd(idx, byte, bit, n): return struct.pack('<iIBIII', idx, byte, bit, n, 1, BOOL)
m.call(MADD, hd(i, 1, 0, 2) + hd(j, 2, 3, 2))
m.call(MADD, hd(i, 1, 4, 2) + hd(j, 2, 5, 2))
m.write(i, 1, b'\x30')
check(m.read(j, 2, 1) == b'\x60', 'the second mapping moves its bits')
''')
S['group_many_members'] = dict(property='S10', edits=[(GR, '        offset = 21*n;\n', '        offset = (uint8_t)(21*n);\n')],
  needs='a group of more than twelve members', breaks='the later members of a large group stand for other tags',
  demo_py='''
s = Server(); m = Mod(s)
t = [m.add('t%d' % k, BYTE, 1) for k in range(16)]
for k in range(16): m.write(t[k], 0, bytes([k + 1]))
g = struct.unpack('<i', m.call(GADD, bytes([16, 0]) + b''.join(struct.pack('<iIBIII', x, 0, 0, 1, 1, BYTE) for x in t)))[0]
check(m.call(GREAD, struct.pack('<I', g)) == bytes(range(1, 17)), 'all members in their order')
''')
S['buff_free_stale'] = dict(property='S11', edits=[(BU, '            node->fd = 0;\n            node->index = 0;\n            return;', '            node->fd = 0;\n            return;')],
  needs='a connection that is closed in the middle of a message, and another one afterwards', breaks='the next connection starts with the rest of the message of the last one',
  demo_py='''
import time
s = Server(); m = Mod(s)
i = m.add('t', INT, 1); m.write(i, 0, b'\\x34\\x12')
for k in range(3):
    c = Mod(s, 'c%d' % k)
    c.s.sendall(struct.pack('>II', 20, READ) + b'\\1\\0'); time.sleep(0.1)
    c.s.close(); time.sleep(0.2)
    try:
        d = Mod(s, 'd%d' % k)
        check(d.read(i, 0, 2) == b'\\x34\\x12', 'a new connection works')
    except (Error, OSError) as e: check(False, 'a new connection works: %s' % e)
''')
S['name_last_char'] = dict(property='S13', edits=[(T, '        i = strcmp(name, _index[try].name);\n        if(i > 0) {\n            min = try + 1;\n        } else if(i < 0) {\n            max = try - 1;\n        } else {\n            return _index[try].tag_idx;', '        i = strncmp(name, _index[try].name, DAX_TAGNAME_SIZE - 1);\n        if(i > 0) {\n            min = try + 1;\n        } else if(i < 0) {\n            max = try - 1;\n        } else {\n            return _index[try].tag_idx;')],
  needs='two names of 32 characters that differ in the last one', breaks='the second name stands for the tag of the first one',
  demo_py='''
s = Server(); m = Mod(s)
p = 'abcdefghijklmnopqrstuvwxyz01234'
i = m.add(p + '1', INT, 1); j = m.add(p + '2', INT, 1)
check(i != j, 'two names are two tags')
m.write(i, 0, b'\\1\\0'); m.write(j, 0, b'\\2\\0')
check(m.read(i, 0, 2) == b'\\1\\0', 'and have their own values')
g = m.call(GET, b'\\1' + (p + '2').encode() + b'\\0')
check(struct.unpack('<i', g[:4])[0] == j, 'the name is found')
''')
S['nested_align'] = dict(property='S12', edits=[(T, 'if(pos % 8 != 0) { /* Do nothing if already aligned */', 'if(pos % 8 != 0 && !IS_CUSTOM(this->type)) { /* Do nothing if already aligned */')],
  needs='a type with BOOLs in front of and behind a member of another custom type', breaks='the size of the type is too small, its last bits are outside of the tag',
  demo_py='''
s = Server(); m = Mod(s)
CDT = 0x000D
n = struct.unpack('<I', m.call(CDT, b'Inner:a,INT,1:b,BYTE,1\\0'))[0]
t = struct.unpack('<I', m.call(CDT, b'Outer:a,BOOL,3:b,Inner,1:c,BOOL,5\\0'))[0]
i = m.add('t', t, 1)
m.write(i, 0, b'\\x07\\x01\\x02\\x03\\x1f')
check(m.read(i, 0, 5) == b'\\x07\\x01\\x02\\x03\\x1f', 'five bytes')
check(m.err(READ, struct.pack('<iii', i, 0, 6)) < 0, 'and not six')
''')
