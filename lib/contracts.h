/* Contracts of the server functions.
 * A clause is a macro over the arguments and the ghost state, the same macro is
 * evaluated by VP_CHECK on a native replay.  Statements about "every byte" are
 * made about one arbitrary byte (the witness g_k, g_sk): the harness draws it
 * without any restriction, so the proof covers all of them. */
#ifndef CONTRACTS_H
#define CONTRACTS_H

/* ---------------------------------------------------------------- tag data */

#define is_plain(idx) (spec_valid_idx(idx) && !(_db[idx].attr & TAG_ATTR_VIRTUAL) && _db[idx].data != NULL)
#define in_win(k, offset, size) ((k) >= (offset) && (k) - (offset) < (size))

/* A write changes exactly the addressed bytes of the addressed tag, if and only if
 * the tag exists, the range is inside of it and the hook has no objection. */
#define post_tag_write(r, idx, offset, data, size) ( \
    (spec_valid_idx(idx) && (_db[idx].attr & TAG_ATTR_VIRTUAL)) ? 1 : \
    !is_plain(idx) ? (r) < 0 : \
    !spec_inside(offset, size, g_tagsize) ? ((r) < 0 && _db[idx].data[g_k] == g_old) : \
    ((_db[idx].attr & TAG_ATTR_SPECIAL) && g_special != 0) ? ((r) == g_special && _db[idx].data[g_k] == g_old) : \
    (r) == 0 && _db[idx].data[g_k] == (in_win(g_k, offset, size) ? ((uint8_t *)(data))[g_k - (offset)] : g_old))
/* after a successful write the events of the tag were checked for that range and a
 * retained tag was handed to the retention */
#define post_notified(r, idx, offset, size) ( \
    (is_plain(idx) && (r) == 0) ? (g_evchk == 1 && g_evchk_off == (offset) && g_evchk_size == (size) && \
        g_retained == ((_db[idx].attr & TAG_ATTR_RETAIN) ? 1 : 0)) : g_evchk == 0)

#define post_tag_mask_write(r, idx, offset, data, mask, size) ( \
    !spec_valid_idx(idx) ? (r) < 0 : \
    (_db[idx].attr & TAG_ATTR_VIRTUAL) ? (r) < 0 : \
    _db[idx].data == NULL ? (r) < 0 : \
    !spec_inside(offset, size, g_tagsize) ? ((r) < 0 && _db[idx].data[g_k] == g_old) : \
    ((_db[idx].attr & TAG_ATTR_SPECIAL) && g_special != 0) ? ((r) == g_special && _db[idx].data[g_k] == g_old) : \
    (r) == 0 && _db[idx].data[g_k] == (in_win(g_k, offset, size) ? \
        (uint8_t)((((uint8_t *)(data))[g_k - (offset)] & ((uint8_t *)(mask))[g_k - (offset)]) | (g_old & ~((uint8_t *)(mask))[g_k - (offset)])) : g_old))

#define post_tag_read(r, idx, offset, data, size) ( \
    (spec_valid_idx(idx) && (_db[idx].attr & TAG_ATTR_VIRTUAL)) ? 1 : \
    (!is_plain(idx) || !spec_inside(offset, size, g_tagsize)) ? (r) < 0 : \
    (r) == 0 && (!in_win(g_k, offset, size) || ((uint8_t *)(data))[g_k - (offset)] == g_eff))

VP_CONTRACT(
int tag_get_size(tag_index idx)
__CPROVER_requires(idx == g_idx && spec_valid_idx(idx))
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_return_value == g_tagsize);

int tag_write(int fd, tag_index idx, int offset, void *data, int size)
__CPROVER_requires(idx == g_idx || !spec_valid_idx(idx))
__CPROVER_requires(size <= 0 || __CPROVER_r_ok(data, size))
__CPROVER_assigns(is_plain(idx): __CPROVER_object_whole(_db[idx].data))
__CPROVER_assigns(g_evchk, g_evchk_off, g_evchk_size, g_retained)
__CPROVER_ensures(post_tag_write(__CPROVER_return_value, idx, offset, data, size))
__CPROVER_ensures(post_notified(__CPROVER_return_value, idx, offset, size));

int tag_mask_write(int fd, tag_index idx, int offset, void *data, void *mask, int size)
__CPROVER_requires(idx == g_idx || !spec_valid_idx(idx))
__CPROVER_requires(size <= 0 || (__CPROVER_r_ok(data, size) && __CPROVER_r_ok(mask, size)))
__CPROVER_assigns(is_plain(idx): __CPROVER_object_whole(_db[idx].data))
__CPROVER_assigns(g_evchk, g_evchk_off, g_evchk_size, g_retained)
__CPROVER_ensures(post_tag_mask_write(__CPROVER_return_value, idx, offset, data, mask, size))
__CPROVER_ensures(post_notified(__CPROVER_return_value, idx, offset, size));

int tag_read(int fd, tag_index idx, int offset, void *data, int size)
__CPROVER_requires(idx == g_idx || !spec_valid_idx(idx))
__CPROVER_requires(size <= 0 || __CPROVER_w_ok(data, size))
__CPROVER_assigns(size > 0: __CPROVER_object_upto(data, size))
__CPROVER_ensures(post_tag_read(__CPROVER_return_value, idx, offset, data, size));

/* hooks of the write functions, observed by ghost state */
void event_check(tag_index idx, int offset, int size)
__CPROVER_requires(idx == g_idx)
__CPROVER_assigns(g_evchk, g_evchk_off, g_evchk_size)
__CPROVER_ensures(g_evchk == __CPROVER_old(g_evchk) + 1 && g_evchk_off == offset && g_evchk_size == size);

int ret_tag_write(int index)
__CPROVER_requires(index == g_idx)
__CPROVER_assigns(g_retained)
__CPROVER_ensures(g_retained == __CPROVER_old(g_retained) + 1);

int special_tag_write(int fd, tag_index index, int offset, void *data, int size)
__CPROVER_requires(1) __CPROVER_assigns() __CPROVER_ensures(__CPROVER_return_value == g_special);
int special_tag_mask_write(int fd, tag_index index, int offset, void *data, void *mask, int size)
__CPROVER_requires(1) __CPROVER_assigns() __CPROVER_ensures(__CPROVER_return_value == g_special);
int special_tag_read(int fd, tag_index index, int offset, void *data, int size)
__CPROVER_requires(1) __CPROVER_assigns() __CPROVER_ensures(__CPROVER_return_value == 0);

int type_size(tag_type type)
__CPROVER_requires(1)
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_return_value == spec_typesize(type));

/* The functions behind virtual tags.  Whoever calls them through the tag may only rely on this. */
int server_time(int fd, tag_index idx, int offset, void *data, int size, void *userdata)
__CPROVER_requires(size < 0 || __CPROVER_w_ok(data, size))
__CPROVER_assigns(size > 0: __CPROVER_object_upto(data, size)) __CPROVER_ensures(__CPROVER_return_value <= 0);
int get_module_tag_name(int fd, tag_index idx, int offset, void *data, int size, void *userdata)
__CPROVER_requires(size < 0 || __CPROVER_w_ok(data, size))
__CPROVER_assigns(size > 0: __CPROVER_object_upto(data, size)) __CPROVER_ensures(__CPROVER_return_value <= 0);
int read_queue(int fd, tag_index idx, int offset, void *data, int size, void *userdata)
__CPROVER_requires(1) __CPROVER_assigns() __CPROVER_ensures(1);
int write_queue(int fd, tag_index idx, int offset, void *data, int size, void *userdata)
__CPROVER_requires(1) __CPROVER_assigns() __CPROVER_ensures(1);
)

/* ---------------------------------------------------------------- messages */
VP_CONTRACT(
int _message_send(int fd, int command, void *payload, size_t size, int response)
__CPROVER_requires(size <= MSG_DATA_SIZE && (size == 0 || __CPROVER_r_ok(payload, size)))
__CPROVER_assigns(g_sent, g_sfd, g_scmd, g_skind, g_ssize, g_sbyte)
__CPROVER_ensures(g_sent == __CPROVER_old(g_sent) + 1 && g_sfd == fd && g_scmd == command && g_skind == response && g_ssize == size)
__CPROVER_ensures(!(g_sk >= 0 && g_sk < size) || g_sbyte == ((uint8_t *)payload)[g_sk]);

int map_check(tag_index idx, int offset, int size)
__CPROVER_requires(1) __CPROVER_assigns() __CPROVER_ensures(1);
)
/* exactly one answer to the sender, and an error answer exactly when it failed */
#define answered(msg, cmd, ok) (g_sent == 1 && g_sfd == (msg)->fd && g_scmd == (cmd) && g_skind == ((ok) ? RESPONSE : ERROR))
#define answered_any(msg, cmd) (g_sent == 1 && g_sfd == (msg)->fd && g_scmd == (cmd) && (g_skind == RESPONSE || g_skind == ERROR))
#endif
