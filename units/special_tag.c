/* who may write where in the tag of a module */
#include "tag_data.h"
static dax_module vp_mod;
static int g_havemod;
VP_CONTRACT(
dax_module *module_find_fd(int fd)
__CPROVER_requires(1) __CPROVER_assigns()
__CPROVER_ensures(g_havemod ? __CPROVER_pointer_equals(__CPROVER_return_value, &vp_mod) : __CPROVER_return_value == NULL);
)
/* everybody may write the command byte, the module itself may also write everything
 * behind its start time and id, nobody else may write anything */
#define spec_special(index, offset, size) ( \
    _db[index].type != _module_tag_type || ((offset) == 77 && (size) == 1) || \
    (g_havemod && vp_mod.tagindex == (index) && (offset) >= 12))
#ifdef MASKED
VP_CONTRACT(
int vp_special(int fd, tag_index index, int offset, void *data, void *mask, int size)
__CPROVER_requires(1) __CPROVER_assigns()
__CPROVER_ensures(spec_special(index, offset, size) ? __CPROVER_return_value == 0 : __CPROVER_return_value < 0);
)
#else
VP_CONTRACT(
int vp_special(int fd, tag_index index, int offset, void *data, int size)
__CPROVER_requires(1) __CPROVER_assigns()
__CPROVER_ensures(spec_special(index, offset, size) ? __CPROVER_return_value == 0 : __CPROVER_return_value < 0);
)
#endif
#ifdef VP_NATIVE
/* the real module list with at most this module in it */
static void vp_install(int fd) {
    _current_mod = NULL; _module_count = 0;
    if(g_havemod) { vp_mod.fd = fd; vp_mod.next = vp_mod.prev = &vp_mod; _current_mod = &vp_mod; _module_count = 1; }
}
#else
#define vp_install(fd)
#endif
void h(void) {
    int fd = vp_int();
    vp_make_db();
    int idx = vp_range(0, 11);
    VP_ASSUME(idx < _tagnextindex);
    _db[idx].type = vp_u32();
    _module_tag_type = vp_u32();
    VP_ASSUME(_db[idx].type == _module_tag_type || vp_u8() == 0);
    g_havemod = vp_u8() & 1;
    vp_mod.tagindex = vp_int();
    vp_mod.fd = fd;
    vp_install(fd);
    int offset = vp_int();
    int size = vp_int();
#ifdef MASKED
    int r = special_tag_mask_write(fd, idx, offset, NULL, NULL, size);
#else
    int r = special_tag_write(fd, idx, offset, NULL, size);
#endif
    VP_CHECK(spec_special(idx, offset, size) ? r == 0 : r < 0, "the tag of a module is protected");
    VP_REACH(r == 0 && _db[idx].type == _module_tag_type && offset == 12, "own status");
    VP_REACH(r == 0 && offset == 77 && !g_havemod, "command byte");
    VP_REACH(r < 0 && offset == 77 && size == 2, "refused");
}
