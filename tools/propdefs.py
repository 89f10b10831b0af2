"""The properties."""
P = []; NA = {}; CLAIM = []
def prop(id, title, statement, over, for_, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, over=over, why=why, files=files, mech=mech, **{'for': for_}))
SV = 'src/server/'
prop('S01', 'Tag reads and writes touch exactly the addressed bytes',
  'A write that the server accepts changes exactly the addressed bytes of the addressed tag to the bytes that were sent, and a later read of any range returns those bytes; nothing else in the tag changes. A read or write whose range is not completely inside of an existing tag is refused with an error, changes nothing and discloses nothing.',
  ['inputs', 'histories'], 'every tag type, count, index, offset, length and message a module can send, in every state of the tag database',
  'the tests write a handful of tags at small offsets; wrong offsets, sizes near the limits, negative values and short messages are not sampled, and no test looks at all of the other bytes',
  [SV + 'tagbase.c', SV + 'message.c'], [('range check', SV + 'tagbase.c: tag_read, tag_write, tag_get_size'), ('messages', SV + 'message.c: msg_tag_read, msg_tag_write')])
prop('S02', 'A masked write changes exactly the selected bits',
  'A masked write that the server accepts sets every bit whose mask bit is one to the data bit and leaves every other bit of the tag as it was. One that does not fit into the tag, or that addresses a tag without storage of its own, is refused and changes nothing.',
  ['inputs'], 'every tag, offset, data, mask and length, and every message that carries them',
  'tests use a few masks on a few tags; they cannot show that no other bit moves for every combination of data, mask, offset and odd message length',
  [SV + 'tagbase.c', SV + 'message.c'], [('merge', SV + 'tagbase.c: tag_mask_write'), ('message', SV + 'message.c: msg_tag_mask_write')])
prop('S03', 'Read-only tags and module status tags can be changed by nobody else',
  'No write or masked write message changes a read-only tag, except for plain writes of the module that owns it, whatever module sends it. The status tag of a module can be written only by that module and only behind its start time and id, with the exception of the single command byte that everybody may write; every refused write is answered with an error.',
  ['inputs', 'histories'], 'every message, every connected module, every combination of tag attributes and owner',
  'the tests try one writer on one read-only tag; the rule has to hold for every module, attribute combination, offset and kind of write',
  [SV + 'message.c', SV + 'tagbase.c', SV + 'virtualtag.c'], [('handlers', SV + 'message.c: msg_tag_write, msg_tag_mask_write'), ('module tag hook', SV + 'virtualtag.c: special_tag_write, special_tag_mask_write')])
prop('S04', 'Overrides mask what readers see and never lose the real value',
  'While an override is set, every reader of a tag sees the override data in the bits that the override mask selects and the stored value in all others, for each bit of the tag; writes go on changing the stored value underneath. Adding, deleting, fetching and switching an override touch exactly the bits of the range they name, deleting the last bit of the mask ends the override, clearing it makes the stored value visible again, and a request whose range is not inside of the tag, or whose message is too short, is refused and changes nothing.',
  ['inputs', 'histories'], 'every tag, every state of its override data and mask, every offset, length, data and mask, every message',
  'the tests put a few overrides on small tags; they do not look at all of the other bits, at partly deleted overrides, at ranges at the end of a tag or at malformed requests',
  [SV + 'tagbase.c', SV + 'message.c'], [('override table', SV + 'tagbase.c: override_add, override_del, override_get, override_set, tag_read'), ('messages', SV + 'message.c: msg_add_override, msg_del_override, msg_get_override, msg_set_override')])
prop('S05', 'Queues deliver every item once and in order',
  'A queue tag hands out exactly the items that were written to it, each once, complete and in the order of the writes, whatever the mix of reads and writes and however often the queue grows; a read of an empty queue and a write that is not one item are refused and change nothing; a write checks the events of the tag.',
  ['inputs', 'histories'], 'every reachable state of the ring (any read and write position, including the wrap-around and the moment at which it grows), every item size and content',
  'a test fills and empties a queue a few times; the growth of a wrapped ring, and every position of the two pointers, is not sampled',
  [SV + 'virtualtag.c', SV + 'tagbase.c'], [('ring', SV + 'tagbase.c: read_queue, write_queue, _queue_add')])
prop('S06', 'Atomic operations compute their result in place and touch nothing else',
  'An atomic operation that the server accepts replaces the addressed items by the result of the operation on their old value and the operand - addition and subtraction modulo the width of the type, the bit operations bit by bit, for BOOL arrays at any bit offset and count - and leaves every other bit of the tag as it was; the events of the range are checked. Operations that are not defined (real types for bit operations, BOOL for arithmetic, unknown operations, custom types, queues, ranges outside of the tag, handles whose size does not fit their type and count) are refused and change nothing.',
  ['inputs'], 'every operation, type, handle, old value and operand',
  'the tests try each operation on a few values; neighbours of an odd bit range, carries, and malformed handles are not sampled',
  [SV + 'atomic.c'], [('operations', SV + 'atomic.c: atomic_op and the functions it selects')])

prop('S07', 'Events fire exactly when the data says so',
  'A module that registered an event gets one message for every write that touches the range of the event and meets its condition - WRITE always, CHANGE when the value of the range differs from the last one, SET and RESET when a bit turns on or off, EQUAL, GREATER and LESS when an item starts to meet the condition by the rules of its type, DEADBAND when an item moved by at least the given distance - and none otherwise. The message goes to that module, names the tag and the event and carries the data of the range if the module asked for it.',
  ['inputs', 'histories'], 'every event type, data type, position and bit offset, every sequence of writes of any range and value',
  'the tests fire each kind of event a few times on the first item of a tag; edges of ranges, bits that cross bytes, partial writes, extreme values and the state kept between writes are not sampled',
  [SV + 'events.c'], [('conditions', SV + 'events.c: event_check, _event_hit and the comparisons behind it'), ('message', SV + 'events.c: _send_event')])
prop('S08', 'The event registry accepts what makes sense and belongs to its owners',
  'An event is accepted exactly if the tag exists, its range is inside of the tag, its item count, size and bit offset fit together and the kind of event is defined for the data type; a refused one leaves nothing behind. Ids of the events of a tag are distinct. Only the module that registered an event can delete it or set its options; deleting one removes just that event, and when a module goes away exactly its events go with it.',
  ['inputs', 'histories'], 'every handle, event type, tag and module, every list of events and every operation on it',
  'the tests register sensible events and a few bad ones; handles that do not fit together, foreign ids, and lists with events of several modules are not sampled',
  [SV + 'events.c', SV + 'message.c'], [('registry', SV + 'events.c: event_add, event_del, event_opt, events_cleanup')])
prop('S09', 'Data mappings copy exactly the mapped bits whenever the source is written',
  'A mapping is accepted exactly if both ranges are inside of existing, non-virtual tags, the data fits into the destination and the destination is not read-only. From then on a write that touches the source range puts the bytes of the source, or for BOOL exactly the mapped bits at their bit offsets, into the destination and changes nothing else; other writes move nothing. A mapping can be fetched as it was given and deleted, the same mapping is not added twice, and it ends when its destination tag is deleted.',
  ['inputs', 'histories'], 'every pair of handles, every write to the source',
  'the tests map a few values between tags; neighbours of odd bit ranges, writes that only touch the edge of the source and malformed handles are not sampled',
  [SV + 'mapping.c'], [('mappings', SV + 'mapping.c: map_add, map_check, map_get, map_del')])
prop('S10', 'Tag groups read and write exactly their members',
  'Reading a group returns the data of its members one behind the other in the order in which they were given, and writing it gives each member its part of the data, in order, up to the first one that may not be written; nothing else changes. A group belongs to the module that made it: its index differs from the indexes of the other groups of that module, adding and deleting leaves the other groups as they are, and a group that does not exist can be neither read, written nor deleted.',
  ['inputs', 'histories'], 'every list of members, every data, every state of the table of groups',
  'the tests use a few groups of a few sensible members; bad members, full tables and many members are not sampled',
  [SV + 'groups.c', SV + 'message.c'], [('groups', SV + 'groups.c: group_add, group_del, group_read, group_write, groups_cleanup')])
prop('S11', 'Every message is handled once, whole and for the right connection',
  'However the bytes of a connection arrive - in single bytes, several messages at once, interleaved with other connections, with pauses - the server handles each message exactly once, in order, as soon as it is complete, with exactly the bytes that were sent; what a closed connection left does not reach another one. A message with a bad size or command reaches no handler. Every answer is one well formed message and is written completely even if the socket takes it in parts.',
  ['schedules', 'inputs', 'fault_sequences'], 'every segmentation of every stream of messages on several connections, every size and command field, every sequence of partial writes',
  'a local socket delivers a short message in one piece, so the tests never see a cut or merged message, a partial write or a signal in between',
  [SV + 'buffer.c', SV + 'message.c', SV + 'func.c'], [('reassembly', SV + 'buffer.c: buff_read, find_buff_slot, buff_free, buff_freeall'), ('dispatch', SV + 'message.c: msg_dispatcher, msg_setup'), ('answers', SV + 'message.c: _message_send; ' + SV + 'func.c: xwrite')])
prop('S12', 'A custom datatype is what its definition says, and stays so',
  'A definition of a custom datatype is accepted exactly if its name and the names of its members are valid, no member name occurs twice (letter case does not count), it has at least one member, every member has a type that exists and a count of at least 1, and the whole is not too big; a refused one leaves nothing behind. An accepted one gets a new type number; the name and the number stand for it from then on and give its definition as it was written. Its size follows from the members: BOOL members are packed bit by bit, all others start at a byte. The same definition again is the same type, another one under its name is refused, and no type changes when others are added.',
  ['inputs', 'histories'], 'every definition, every count, every sequence of definitions',
  'the tests make some types with few members; sizes near the limit, BOOLs in front of and behind other types, refused definitions in between and a growing table are not sampled',
  [SV + 'tagbase.c', SV + 'message.c'], [('datatypes', SV + 'tagbase.c: cdt_create, cdt_append, type_size, serialize_datatype, cdt_get_type, cdt_get_name'), ('messages', SV + 'message.c: msg_cdt_create, msg_cdt_get')])
prop('S13', 'A name and an index stand for one tag for as long as the server runs',
  'A tag is added exactly if its name is 1 to 32 letters, digits and underscores that do not start with a digit (nor with an underscore, for modules), its type exists, its count is not 0 and it is not too big; it starts with zeros and gets an index that was never used before. From then on its name and its index find this tag, with its type and count, whatever other tags are added and deleted and however the database grows. Adding the name again with the same type gives the same tag, which grows when the count is larger and keeps its values; with another type, by somebody else if it is owned, or if a queue would have to grow, it is refused. A deleted tag is found neither by name nor by index, its index is never given to another tag, and nothing but this tag goes. The system tags count and announce the tags.',
  ['inputs', 'histories'], 'every name, type and count, every sequence of additions and deletions',
  'the tests add some tags in a few orders; a lookup that goes wrong for one position in the sorted index, a name that differs in its last character or a deletion in the middle is not sampled',
  [SV + 'tagbase.c', SV + 'message.c'], [('names and indexes', SV + 'tagbase.c: tag_add, tag_del, tag_get_name, tag_get_index, _validate_name, _checktype'), ('messages', SV + 'message.c: msg_tag_add, msg_tag_del, msg_tag_get')])
prop('S14', 'Retained tags survive restarts',
  'A tag that is marked as retained has, after the server was stopped or crashed at any point and was started again, the value of the last write that was answered before, and no other tag is changed by the restart.',
  ['crash_points', 'histories'], 'every crash point, every history of additions and writes of retained tags',
  'the tests restart the server in an orderly way once or twice; they cannot crash it between two statements of a transaction',
  [SV + 'retain.c'], [('retention', SV + 'retain.c: ret_init, ret_add_tag, ret_tag_write')])
prop('S15', 'Calls of the client library from several threads do not mix',
  'Several threads of a module that use one connection get each the answer to their own request, and the cache of tags stays consistent.',
  ['schedules'], 'every interleaving of the calls of any number of threads',
  'a test sees a few interleavings out of all',
  ['src/lib/libdata.c', 'src/lib/libmsg.c'], [('lock', 'src/lib/libdata.c, src/lib/libmsg.c: ds->lock')])
NA['S14'] = 'The property is about what SQLite leaves in a file at a crash. SQLite is an external dependency without source here; a contract for sqlite3_step that says enough to conclude the property would assume it, and crash points are not expressible in a contract of a sequential function.'
NA['S15'] = 'Contracts as CBMC/dfcc checks them are sequential: there is no ownership or lock logic with which a function could be verified against other threads.'
