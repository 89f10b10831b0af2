From 67e8198482235f9df85b1ffbf10677c9564422e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:37 +0000
Subject: [PATCH 01/20] fix: refuse tag accesses whose offset or size is
 negative or overflows

The offset and size of a read, write or masked write come from the module.
A negative value, or a pair whose sum overflows, passed the bounds check and
reached memory outside of the tag.  The masked write and the is_tag_* helpers
also used the index before (or without) checking it.
---
 src/server/tagbase.c | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 42a5206..baf1059 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -122,12 +122,23 @@ _checktype(tag_type type)
 int
 tag_get_size(tag_index idx)
 {
-    if(_db[idx].type == DAX_BOOL)
+    if((_db[idx].type & ~DAX_QUEUE) == DAX_BOOL)
         return _db[idx].count / 8 + 1;
     else
         return type_size(_db[idx].type)  * _db[idx].count;
 }
 
+/* Returns true if the given range lies completely within the tag's data area.
+ * The offset and size come from the modules so we can't trust them to be
+ * positive or small enough that adding them won't overflow */
+static int
+_range_valid(tag_index idx, int offset, int size)
+{
+    int tag_size = tag_get_size(idx);
+
+    return offset >= 0 && size >= 0 && size <= tag_size && offset <= tag_size - size;
+}
+
 /* Determine whether or not the tag name is okay */
 static int
 _validate_name(char *name)
@@ -703,23 +714,27 @@ get_tagindex(void) {
 /* Returns true if the tag at the given index is read only */
 int
 is_tag_readonly(tag_index idx) {
+    if(idx < 0 || idx >= _tagnextindex) return 0;
     return (_db[idx].attr & TAG_ATTR_READONLY );
 }
 
 /* Returns true if the tag at the given index is a virtual tag */
 int
 is_tag_virtual(tag_index idx) {
+    if(idx < 0 || idx >= _tagnextindex) return 0;
     return (_db[idx].attr & TAG_ATTR_VIRTUAL );
 }
 
 /* Returns true if tag at the given index is a queue */
 int
 is_tag_queue(tag_index idx) {
+    if(idx < 0 || idx >= _tagnextindex) return 0;
     return IS_QUEUE(_db[idx].type);
 }
 
 int
 is_tag_owned(int fd, tag_index idx) {
+    if(idx < 0 || idx >= _tagnextindex) return 0;
     return (_db[idx].attr & TAG_ATTR_OWNED && _db[idx].fd == fd);
 }
 
@@ -743,6 +758,10 @@ tag_read(int fd, tag_index idx, int offset, void *data, int size)
     /* Bounds check handle */
     if(idx < 0 || idx >= _tagnextindex) {
         return ERR_ARG;
+    }
+    /* Bounds check size */
+    if( ! _range_valid(idx, offset, size)) {
+        return ERR_2BIG;
     }
      /* determine if it's a virtual tag */
     if(_db[idx].attr & TAG_ATTR_VIRTUAL) {
@@ -752,10 +771,6 @@ tag_read(int fd, tag_index idx, int offset, void *data, int size)
         if(vf->rf == NULL) return ERR_WRITEONLY;
         return vf->rf(fd, idx, offset, data, size, vf->userdata);
     } else {
-        /* Bounds check size */
-        if( (offset + size) > tag_get_size(idx)) {
-            return ERR_2BIG;
-        }
         if(_db[idx].data == NULL) {
             return ERR_DELETED;
         }
@@ -790,6 +805,10 @@ tag_write(int fd, tag_index idx, int offset, void *data, int size)
     if(idx < 0 || idx >= _tagnextindex) {
         return ERR_ARG;
     }
+    /* Bounds check size */
+    if( ! _range_valid(idx, offset, size)) {
+        return ERR_2BIG;
+    }
     /* determine if it's a virtual tag */
     if(_db[idx].attr & TAG_ATTR_VIRTUAL) {
        /* virtual tags read their data from a function that should be
@@ -798,10 +817,6 @@ tag_write(int fd, tag_index idx, int offset, void *data, int size)
        if(vf->wf == NULL) return ERR_READONLY;
        return vf->wf(fd, idx, offset, data, size, vf->userdata);
     } else {
-        /* Bounds check size */
-        if( (offset + size) > tag_get_size(idx)) {
-            return ERR_2BIG;
-        }
         if(_db[idx].data == NULL) {
             return ERR_DELETED;
         }
@@ -828,15 +843,15 @@ tag_mask_write(int fd, tag_index idx, int offset, void *data, void *mask, int si
     uint8_t *db, *newdata, *newmask;
     int n, result;
 
-    /* We don't allow masked writes to virtual tags.  This would be
-     * too ambiguous */
-    if(_db[idx].attr & TAG_ATTR_VIRTUAL) return ERR_ILLEGAL;
     /* Bounds check handle */
     if(idx < 0 || idx >= _tagnextindex) {
         return ERR_ARG;
     }
+    /* We don't allow masked writes to virtual tags.  This would be
+     * too ambiguous */
+    if(_db[idx].attr & TAG_ATTR_VIRTUAL) return ERR_ILLEGAL;
     /* Bounds check size */
-    if( (offset + size) > tag_get_size(idx)) {
+    if( ! _range_valid(idx, offset, size)) {
         return ERR_2BIG;
     }
     if(_db[idx].data == NULL) {
-- 
2.43.0


From ba5365dd9e24a515fae8b35fb60c8842f6acc069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:37 +0000
Subject: [PATCH 02/20] fix: keep the _tag_added/_tag_deleted descriptor inside
 of its buffer

tag_desc is 47 bytes but sizeof(dax_tag) bytes of it were cleared, and a full
DAX_TAGNAME_SIZE+1 bytes were always copied from the name, which reads past
the end of a shorter one and leaks what follows it to the modules.
---
 src/server/tagbase.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index baf1059..c92fe29 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -575,12 +575,12 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
     _set_attribute(n, attr);
 
     /* Update the '_tag_added' system tag */
-    memset(&tag_desc, 0, sizeof(dax_tag));
+    memset(tag_desc, 0, sizeof(tag_desc));
     *((tag_index *)tag_desc) = n;
     *((tag_type *)&tag_desc[4]) = type;
     *((dax_udint *)&tag_desc[8]) = count;
     *((uint16_t *)&tag_desc[12]) = attr;
-    memcpy(&tag_desc[14], name, DAX_TAGNAME_SIZE + 1);
+    strncpy((char *)&tag_desc[14], name, DAX_TAGNAME_SIZE);
     tag_write(-1, INDEX_ADDED_TAG, 0, tag_desc, 47);
 
     dax_log(DAX_LOG_DEBUG, "Tag added with name = %s, type = 0x%X, count = %d", name, type, count);
@@ -638,12 +638,12 @@ tag_del(tag_index idx)
     dax_log(DAX_LOG_DEBUG, "Tag deleted with name = %s", _db[idx].name);
 
     /* Update the '_tag_deleted' system tag */
-    memset(&tag_desc, 0, sizeof(dax_tag));
+    memset(tag_desc, 0, sizeof(tag_desc));
     *((tag_index *)tag_desc) = idx;
     *((tag_type *)&tag_desc[4]) = _db[idx].type;
     *((dax_udint *)&tag_desc[8]) = _db[idx].count;
     *((uint16_t *)&tag_desc[12]) = _db[idx].attr;
-    memcpy(&tag_desc[14], _db[idx].name, DAX_TAGNAME_SIZE + 1);
+    strncpy((char *)&tag_desc[14], _db[idx].name, DAX_TAGNAME_SIZE);
     tag_write(-1, INDEX_DELETED_TAG, 0, tag_desc, 47);
 
     xfree(_db[idx].name);
-- 
2.43.0


From 4b84949887073db3b20d5c67093e1d63b023e59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:44 +0000
Subject: [PATCH 03/20] fix: make a new or grown tag start out in a defined
 state

Growing a tag left the added part of its data uninitialised, left the override
buffers at their old size (reads of an overridden tag then ran off their end)
and reallocated the function table of a queue as if it were data.  A slot that
came from growing the database kept garbage attributes and mappings, a tag
whose size in bytes overflowed got a tiny buffer, and a BOOL queue had
elements of zero bytes.
---
 src/server/tagbase.c | 41 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index c92fe29..fc90ecd 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -19,6 +19,7 @@
  */
 
 #include <ctype.h>
+#include <limits.h>
 #include <assert.h>
 #include <common.h>
 #include "tagbase.h"
@@ -307,7 +308,7 @@ _queue_add(int idx, tag_type type, unsigned int count) {
     if(q == NULL) {
         return ERR_ALLOC;
     }
-    size = type_size(type) * count;
+    size = tag_get_size(idx);
     q->size = size;
     q->count = count;
     q->type = type;
@@ -326,8 +327,8 @@ _queue_add(int idx, tag_type type, unsigned int count) {
     vf.userdata = (uint8_t *)q;
     _db[idx].data = malloc(sizeof(virt_functions));
     if(_db[idx].data == NULL) {
-        free(q);
         free(q->queue);
+        free(q);
         return ERR_ALLOC;
     }
     memcpy(_db[idx].data, &vf, sizeof(virt_functions));
@@ -464,7 +465,8 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
 {
     int n;
     void *newdata;
-    unsigned int size;
+    unsigned int size, oldsize;
+    uint64_t fullsize;
     int result;
     uint8_t tag_desc[47];
 
@@ -492,11 +494,17 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
     }
 
     /* Figure the size in bytes */
-    if(type == DAX_BOOL) {
-        size = count / 8 + 1;
+    if((type & ~DAX_QUEUE) == DAX_BOOL) {
+        fullsize = count / 8 + 1;
     } else {
-        size = type_size(type) * count;
+        fullsize = (uint64_t)type_size(type) * count;
+    }
+    /* The rest of the server deals with sizes and offsets as an int */
+    if(fullsize > INT_MAX) {
+        dax_log(DAX_LOG_ERROR, "tag_add() tag %s is too big", name);
+        return ERR_2BIG;
     }
+    size = fullsize;
 
     /* Check for an existing tagname in the database */
     if( (n = _get_by_name(name)) >= 0) { /* The tag already exists */
@@ -508,11 +516,27 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
             _set_attribute(n, attr);
             return n;
         } else if(_db[n].type == type && _db[n].count < count) {
+            /* The data of a virtual tag or a queue is not a plain buffer so there
+             * is nothing that we could grow */
+            if(_db[n].attr & TAG_ATTR_VIRTUAL) return ERR_ILLEGAL;
             /* If the new count is greater than the existing count then lets
              try to increase the size of the tags data */
+            oldsize = tag_get_size(n);
+            /* The override buffers have to stay the same size as the data */
+            if(_db[n].odata != NULL) {
+                newdata = xrealloc(_db[n].odata, size);
+                if(newdata == NULL) return ERR_ALLOC;
+                _db[n].odata = newdata;
+                bzero(&_db[n].odata[oldsize], size - oldsize);
+                newdata = xrealloc(_db[n].omask, size);
+                if(newdata == NULL) return ERR_ALLOC;
+                _db[n].omask = newdata;
+                bzero(&_db[n].omask[oldsize], size - oldsize);
+            }
             newdata = xrealloc(_db[n].data, size);
             if(newdata) {
                 _db[n].data = newdata;
+                bzero(&_db[n].data[oldsize], size - oldsize);
                 _db[n].count = count;
                 _set_attribute(n, attr);
                 /* Since it changed we update this tag so the write event will trigger */
@@ -533,11 +557,13 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
     /* Assign everything to the new tag, copy the string and git */
     _db[n].count = count;
     _db[n].type = type;
+    _db[n].attr = 0;
 
     /* If the type is a queue the data area will be allocated in the
      * queue_add() function instead of here */
     if(IS_QUEUE(type)) {
-        _queue_add(n, type, count);
+        result = _queue_add(n, type, count);
+        if(result) return result;
     } else {
         /* Allocate the data area */
         if((_db[n].data = xmalloc(size)) == NULL){
@@ -551,6 +577,7 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
     _db[n].nextmap = 1;
     _db[n].fd = fd;
     _db[n].events = NULL;
+    _db[n].mappings = NULL;
     _db[n].omask = NULL;
     _db[n].odata = NULL;
 
-- 
2.43.0


From 29875d4f29fb1993c0beb5e6502f3dbe2d1431c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:44 +0000
Subject: [PATCH 04/20] fix: release the overrides and event counts of a
 deleted tag

A deleted tag kept its override buffers and stayed in the override counters,
and the modules that had events on it kept counting them, which made
events_cleanup() search the whole database for events that no longer exist.
---
 src/server/events.c  |  1 +
 src/server/tagbase.c | 18 ++++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/server/events.c b/src/server/events.c
index 9be0d52..26bf6cc 100644
--- a/src/server/events.c
+++ b/src/server/events.c
@@ -722,6 +722,7 @@ events_del_all(_dax_event *head) {
     this = head;
     while(this != NULL) {
         next = this->next;
+        this->notify->event_count--;
         _free_event(this);
         this = next;
     }
diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index fc90ecd..f35d0fb 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -673,6 +673,24 @@ tag_del(tag_index idx)
     strncpy((char *)&tag_desc[14], _db[idx].name, DAX_TAGNAME_SIZE);
     tag_write(-1, INDEX_DELETED_TAG, 0, tag_desc, 47);
 
+    /* The overrides go away with the tag */
+    if(_db[idx].attr & TAG_ATTR_OVR_SET) {
+        _ovrdset--;
+        if(_db[INDEX_OVRD_SET].data != NULL) {
+            tag_write(-1, INDEX_OVRD_SET, 0, &_ovrdset, sizeof(tag_index));
+        }
+    }
+    if(_db[idx].attr & TAG_ATTR_OVERRIDE) {
+        _ovrdinstalled--;
+        if(_db[INDEX_OVRD_INSTALLED].data != NULL) {
+            tag_write(-1, INDEX_OVRD_INSTALLED, 0, &_ovrdinstalled, sizeof(tag_index));
+        }
+    }
+    if(_db[idx].odata != NULL) xfree(_db[idx].odata);
+    if(_db[idx].omask != NULL) xfree(_db[idx].omask);
+    _db[idx].odata = NULL;
+    _db[idx].omask = NULL;
+
     xfree(_db[idx].name);
     xfree(_db[idx].data);
     _db[idx].name = NULL;
-- 
2.43.0


From 04f327f10141947b4ef64346dcd7df580d200268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:40 +0000
Subject: [PATCH 05/20] fix: keep overrides inside of the tag and apart from
 each other

The size of the override buffers was figured as count * type_size, which is
zero for BOOL tags, the bounds were checked after the allocation (or, when
deleting, not at all) and only part of the new buffers was cleared.  Adding an
override to some bits dropped the overrides of their neighbours in the same
byte, the reported actual value ignored the offset, asking for a tag without
an override used a NULL mask, and removing an active override did not update
the count of active overrides.
---
 src/server/message.c |  6 +++++-
 src/server/tagbase.c | 47 +++++++++++++++++++++++++++++++-------------
 2 files changed, 38 insertions(+), 15 deletions(-)

diff --git a/src/server/message.c b/src/server/message.c
index 69f0d51..4ff3551 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -1026,7 +1026,11 @@ msg_get_override(dax_message *msg) {
     size = *((uint32_t *)&msg->data[8]);
     dax_log(DAX_LOG_MSG, "Get Override Message from module %d, index %d, byte %d, size %d", msg->fd, index, byte, size);
 
-    result = override_get(index, byte, size, buff, &buff[size]);
+    if(size < 0 || size > MSG_DATA_SIZE / 2) { /* The data and the mask have to fit */
+        result = ERR_2BIG;
+    } else {
+        result = override_get(index, byte, size, buff, &buff[size]);
+    }
 
     if(result < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GET_OVRD, &result, sizeof(int), ERROR);
diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index f35d0fb..eb1b2ac 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -1278,6 +1278,7 @@ cdt_add_member(datatype *cdt, char *name, tag_type type, unsigned int count)
 int
 override_add(tag_index idx, int offset, void *data, void *mask, int size) {
     int tag_size;
+    int n;
 
     if(idx < 0 || idx >= _tagnextindex) {
         return ERR_ARG;
@@ -1285,7 +1286,12 @@ override_add(tag_index idx, int offset, void *data, void *mask, int size) {
     if(_db[idx].data == NULL) {
         return ERR_DELETED;
     }
-    tag_size = _db[idx].count * type_size(_db[idx].type);
+    /* The data of a virtual tag comes from a function so we can't override it */
+    if(_db[idx].attr & TAG_ATTR_VIRTUAL) {
+        return ERR_ILLEGAL;
+    }
+    tag_size = tag_get_size(idx);
+    if( ! _range_valid(idx, offset, size)) return ERR_2BIG;
 
     if(_db[idx].odata == NULL) {
         _db[idx].odata = malloc(tag_size);
@@ -1297,12 +1303,15 @@ override_add(tag_index idx, int offset, void *data, void *mask, int size) {
 
             return ERR_ALLOC;
         }
-        bzero(_db[idx].odata, size);
-        bzero(_db[idx].omask, size);
+        bzero(_db[idx].odata, tag_size);
+        bzero(_db[idx].omask, tag_size);
+    }
+    /* Only the bits in the mask belong to this override.  Leave the others alone */
+    for(n=0;n<size;n++) {
+        _db[idx].odata[n+offset] &= ~((uint8_t *)mask)[n];
+        _db[idx].odata[n+offset] |= ((uint8_t *)data)[n] & ((uint8_t *)mask)[n];
+        _db[idx].omask[n+offset] |= ((uint8_t *)mask)[n];
     }
-    if((offset + size) > tag_size) return ERR_2BIG;
-    memcpy(&_db[idx].odata[offset], data, size);
-    memcpy(&_db[idx].omask[offset], mask, size);
 
     /* If the flag for this tag is not already set then increment the counter */
     if(! (_db[idx].attr & TAG_ATTR_OVERRIDE )) {
@@ -1328,18 +1337,24 @@ override_del(tag_index idx, int offset, void *mask, int size) {
     if(_db[idx].data == NULL) {
         return ERR_DELETED;
     }
-    tag_size = _db[idx].count * type_size(_db[idx].type);
     if(_db[idx].odata == NULL) {
         return ERR_GENERIC;
     }
+    if( ! _range_valid(idx, offset, size)) return ERR_2BIG;
     for(n=0;n<size;n++) {
         _db[idx].omask[n+offset] &= ~((uint8_t *)mask)[n];
         _db[idx].odata[n+offset] &= ~((uint8_t *)mask)[n];
     }
-    tag_size = _db[idx].count * type_size(_db[idx].type);
+    tag_size = tag_get_size(idx);
     for(n=0;n<tag_size;n++) {
         if(_db[idx].omask[n])  return 0;
     }
+    if(_db[idx].attr & TAG_ATTR_OVR_SET) {
+        _ovrdset--;
+        if(_db[INDEX_OVRD_SET].data != NULL) {
+            tag_write(-1, INDEX_OVRD_SET, 0, &_ovrdset, sizeof(tag_index));
+        }
+    }
     /* Remove both of the flags that indicate we have an override installed or set */
     _db[idx].attr &= ~(TAG_ATTR_OVERRIDE | TAG_ATTR_OVR_SET);
     /* If we get here then we've deleted the last of the overrides for this
@@ -1359,18 +1374,22 @@ override_del(tag_index idx, int offset, void *mask, int size) {
 
 int
 override_get(tag_index idx, int offset, int size, void *data, void *mask) {
-    int tag_size;
-
     if(idx < 0 || idx >= _tagnextindex) {
         return ERR_ARG;
     }
     if(_db[idx].data == NULL) {
         return ERR_DELETED;
     }
-    tag_size = _db[idx].count * type_size(_db[idx].type);
-    if((offset + size) > tag_size) return ERR_2BIG;
-    memcpy(data, _db[idx].data, size);
-    memcpy(mask, _db[idx].omask, size);
+    if(_db[idx].attr & TAG_ATTR_VIRTUAL) {
+        return ERR_ILLEGAL;
+    }
+    if( ! _range_valid(idx, offset, size)) return ERR_2BIG;
+    memcpy(data, &_db[idx].data[offset], size);
+    if(_db[idx].omask == NULL) {
+        bzero(mask, size); /* Nothing is overridden */
+    } else {
+        memcpy(mask, &_db[idx].omask[offset], size);
+    }
     return 0;
 }
 
-- 
2.43.0


From 551c8d795fc3fc94d06ee1bbe4a0ee5e5f46dcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:10 +0000
Subject: [PATCH 06/20] fix: split the message stream of a socket at the
 message boundaries

A message that arrived in pieces could be dispatched one byte short or read
before its size was there, a second message in the same read was dropped and
sizes larger than the buffer or smaller than the header were used as they
were.  A message that was still incomplete was thrown away after a second.
---
 src/server/buffer.c | 50 +++++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/src/server/buffer.c b/src/server/buffer.c
index f4d3d24..057bd70 100644
--- a/src/server/buffer.c
+++ b/src/server/buffer.c
@@ -124,9 +124,13 @@ find_buff_slot(int fd)
         result = _new_buffnode();
         if(result != NULL) {
             node = _buffer;
-            /* double linked list would eliminate this ??? */
-            while(node->next != NULL) node = node->next;
-            node->next = result;
+            if(node == NULL) {
+                _buffer = result;
+            } else {
+                /* double linked list would eliminate this ??? */
+                while(node->next != NULL) node = node->next;
+                node->next = result;
+            }
         }
     }
     if(result) result->fd = fd;
@@ -137,8 +141,9 @@ int
 buff_read(int fd)
 {
     dax_buffnode *node;
-    size_t result;
+    ssize_t result;
     uint32_t size;
+    int error = 0;
 
     node = find_buff_slot(fd);
 
@@ -161,18 +166,24 @@ buff_read(int fd)
 
     node->index += result;
 
-    /* Check the size and let the caller know how it turns out. */
     /* First four bytes of a message should always be the size of
-       the message and it should be in network byte order */
-    size = ntohl(*(uint32_t *)node->buffer);
-    if(node->index < (size - 1)) {
-        return ERR_MSG_BAD;
-    } else if(node->index >= (size - 1)) {
-        return msg_dispatcher(fd, node->buffer);
-    }else if(size > DAX_MSGMAX) {
-        return ERR_2BIG;
+       the message and it should be in network byte order.  We may have
+       only got a part of a message or we may have more than one of them. */
+    while(node->fd == fd && node->index >= (int)sizeof(uint32_t)) {
+        size = ntohl(*(uint32_t *)node->buffer);
+        if(size < MSG_HDR_SIZE || size > DAX_MSGMAX) {
+            /* We cannot know where the next message would start */
+            dax_log(DAX_LOG_ERROR, "Bad message size %u received on socket %d", size, fd);
+            return ERR_NO_SOCKET;
+        }
+        if(node->index < (int)size) break; /* We don't have it all yet */
+        result = msg_dispatcher(fd, node->buffer);
+        if(result < 0) error = result;
+        node->index -= size;
+        memmove(node->buffer, &node->buffer[size], node->index);
     }
-    return 0;
+    if(node->index == 0) buff_free(fd);
+    return error;
 }
 
 /* TODO: Check boundary conditions where min_buffers = 0 or 1.  Shouldn't
@@ -195,9 +206,9 @@ buff_free(int fd)
     }
 }
 
-/* This function essentially marks all of the buffers as free.  If there are
- * more than min_buffers it'll free() the last one.  Kindof a poor boy
- * garbage collection. */
+/* This function essentially marks all of the buffers that don't hold the
+ * beginning of a message as free.  If there are more than min_buffers it'll
+ * free() the last one.  Kindof a poor boy garbage collection. */
 void
 buff_freeall(void)
 {
@@ -209,12 +220,11 @@ buff_freeall(void)
     last = NULL;
 
     while(node != NULL) {
-        node->fd = 0;
-        node->index = 0;
+        if(node->index == 0) node->fd = 0;
         n++;
         /* If we are the last node, there are more than min_buffers nodes in the list
            and last is not NULL then free the last node */
-        if(node->next == NULL && n > opt_min_buffers() && last != NULL) {
+        if(node->next == NULL && n > opt_min_buffers() && last != NULL && node->fd == 0) {
             free(node);
             node = NULL;
             last->next = NULL;
-- 
2.43.0


From c12dcbe3b3cdd05396f5f273a550a20677b05cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:10 +0000
Subject: [PATCH 07/20] fix: check the sizes of the messages that the server
 gets

Messages shorter than their fields were filled up with what was left on the
stack and a tag read larger than the response buffer overran it.
---
 src/server/message.c | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/server/message.c b/src/server/message.c
index 4ff3551..453aac8 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -347,10 +347,13 @@ int
 msg_dispatcher(int fd, unsigned char *buff)
 {
     dax_message message;
+    uint32_t size;
 
     /* The first four bytes are the size and the size is always
      * sent in network order */
-    message.size = ntohl(*(uint32_t *)buff) - MSG_HDR_SIZE;
+    size = ntohl(*(uint32_t *)buff);
+    if(size < MSG_HDR_SIZE || size > DAX_MSGMAX) return ERR_MSG_BAD;
+    message.size = size - MSG_HDR_SIZE;
     /* The next four bytes are the DAX command also sent in network
      * byte order. */
     message.msg_type = ntohl(*(uint32_t *)&buff[4]);
@@ -358,7 +361,9 @@ msg_dispatcher(int fd, unsigned char *buff)
     if(CHECK_COMMAND(message.msg_type)) return ERR_MSG_BAD;
     message.fd = fd;
     memcpy(message.data, &buff[8], message.size);
-    buff_free(fd);
+    /* The handlers should not find anything in a short message that the
+     * module didn't send */
+    bzero(&message.data[message.size], MSG_DATA_SIZE - message.size);
     /* Now call the function to deal with it */
     return (*cmd_arr[message.msg_type])(&message);
 }
@@ -384,6 +389,7 @@ msg_mod_register(dax_message *msg)
     dax_time starttime;
 
     if(msg->size > 0) {
+        msg->data[MSG_DATA_SIZE-1] = '\0'; /* Just to be safe */
         /* The first parameter is the timeout if the first registration and
          * the module id if it's the async socket registration. */
         parint = ntohl(*((uint32_t *)&msg->data[0]));
@@ -434,6 +440,7 @@ msg_tag_add(dax_message *msg)
     type = *((uint32_t *)&msg->data[0]);
     count = *((uint32_t *)&msg->data[4]);
     attr = *((uint32_t *)&msg->data[8]);
+    msg->data[MSG_DATA_SIZE-1] = '\0'; /* Just to be safe */
 
     dax_log(DAX_LOG_MSG, "Tag Add Message for '%s' from module %d, type 0x%X, count %d", &msg->data[12], msg->fd, type, count);
 
@@ -498,10 +505,9 @@ msg_tag_get(dax_message *msg)
         result = tag_get_name((char *)&msg->data[1], &tag);
         dax_log(DAX_LOG_MSG, "Tag Get Message from %d for name '%s'", msg->fd, (char *)msg->data);
     }
-    size = strlen(tag.name) + 15;
-    buff = alloca(size);
-    if(buff == NULL) result = ERR_ALLOC;
     if(!result) {
+        size = strlen(tag.name) + 15;
+        buff = alloca(size);
         *((uint32_t *)&buff[0]) = tag.idx;
         *((uint32_t *)&buff[4]) = tag.type;
         *((uint32_t *)&buff[8]) = tag.count;
@@ -542,7 +548,11 @@ msg_tag_read(dax_message *msg)
 
     dax_log(DAX_LOG_MSG, "Tag Read Message from module %d, index %d, offset %d, size %d", msg->fd, index, offset, size);
 
-    result = tag_read(msg->fd, index, offset, &data, size);
+    if(size > (int)MSG_DATA_SIZE) {
+        result = ERR_2BIG; /* It won't fit in the response */
+    } else {
+        result = tag_read(msg->fd, index, offset, &data, size);
+    }
     if(result) {
         _message_send(msg->fd, MSG_TAG_READ, &result, sizeof(result), ERROR);
     } else {
@@ -567,7 +577,9 @@ msg_tag_write(dax_message *msg)
     data = &msg->data[8];
 
     dax_log(DAX_LOG_MSG, "Tag Write Message from module %d, index %d, offset %d, size %d", msg->fd, idx, offset, size);
-    if(is_tag_readonly(idx) && ! is_tag_owned(msg->fd, idx)) {
+    if(msg->size < sizeof(tag_index) + sizeof(uint32_t)) {
+        result = ERR_MSG_BAD;
+    } else if(is_tag_readonly(idx) && ! is_tag_owned(msg->fd, idx)) {
         result = ERR_READONLY;
     } else {
         result = tag_write(msg->fd, idx, offset, data, size);
@@ -591,14 +603,19 @@ msg_tag_mask_write(dax_message *msg)
     void *data, *mask;
     size_t size;
 
-    size = (msg->size - sizeof(tag_index) - sizeof(uint32_t)) / 2;
+    size = 0;
+    if(msg->size >= sizeof(tag_index) + sizeof(uint32_t)) {
+        size = (msg->size - sizeof(tag_index) - sizeof(uint32_t)) / 2;
+    }
     idx = *((tag_index *)&msg->data[0]);
     offset = *((uint32_t *)&msg->data[4]);
     data = &msg->data[8];
     mask = &msg->data[8 + size];
 
     dax_log(DAX_LOG_MSG, "Tag Masked Write Message from module %d, index %d, offset %d, size %d", msg->fd, idx, offset, size);
-    if(is_tag_readonly(idx)) {
+    if(msg->size < sizeof(tag_index) + sizeof(uint32_t)) {
+        result = ERR_MSG_BAD;
+    } else if(is_tag_readonly(idx)) {
         result =  ERR_READONLY;
     } else {
         result = tag_mask_write(msg->fd, idx, offset, data, mask, size);
-- 
2.43.0


From cbadb64a570322789bb2bafa6650d780f54f16f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:45 +0000
Subject: [PATCH 08/20] fix: honour the offset and the size when virtual tags
 are read

---
 src/server/virtualtag.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/server/virtualtag.c b/src/server/virtualtag.c
index a8984b4..360db4c 100644
--- a/src/server/virtualtag.c
+++ b/src/server/virtualtag.c
@@ -54,7 +54,8 @@ server_time(int fd, tag_index idx, int offset, void *data, int size, void *userd
     dax_time t;
 
     t = xtime();
-    memcpy(data, &t, size);
+    if(offset < 0 || size < 0 || offset > (int)sizeof(t) - size) return ERR_2BIG;
+    memcpy(data, (uint8_t *)&t + offset, size);
     return 0;
 }
 
@@ -63,13 +64,16 @@ get_module_tag_name(int fd, tag_index idx, int offset, void *data, int size, voi
     int result;
     dax_tag tag;
     dax_module *mod;
+    char name[DAX_TAGNAME_SIZE + 1];
 
+    if(offset < 0 || size < 0 || offset > (int)sizeof(name) - size) return ERR_2BIG;
     mod = module_find_fd(fd);
     if(mod == NULL || mod->tagindex == 0) return ERR_NOTFOUND;
     result = tag_get_index(mod->tagindex, &tag);
     if(result) return result;
-    bzero(data, DAX_TAGNAME_SIZE);
-    memcpy(data, tag.name, strlen(tag.name)+1);
+    bzero(name, sizeof(name));
+    memcpy(name, tag.name, strlen(tag.name));
+    memcpy(data, &name[offset], size);
     return 0;
 }
 
-- 
2.43.0


From 9385a9caf8fa88607140690477ad4298bf8536fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:45 +0000
Subject: [PATCH 09/20] fix: give every slot of a grown queue its own memory

The new slots were left uninitialized and the slots that got moved were
shared with their old position.  Reading only a part of an entry copied the
whole entry.
---
 src/server/virtualtag.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/server/virtualtag.c b/src/server/virtualtag.c
index 360db4c..7b6abb5 100644
--- a/src/server/virtualtag.c
+++ b/src/server/virtualtag.c
@@ -96,10 +96,12 @@ write_queue(int fd, tag_index idx, int offset, void *data, int size, void *userd
         new_queue = realloc(q->queue, sizeof(void *) * newqsize);
         if(new_queue == NULL) return ERR_ALLOC;
         q->queue = (void **)new_queue;
+        for(next = q->qsize; next < newqsize; next++) q->queue[next] = NULL;
         /* After the queue size is increased we need to move the fragment that is now
          * at the beginning of the queue to the start of the new area */
         if(q->qread > 0) {
             memcpy(&q->queue[q->qsize], &q->queue[0], q->qread*sizeof(void *));
+            for(next = 0; next < q->qread; next++) q->queue[next] = NULL;
         }
         q->qsize = newqsize;
     }
@@ -121,6 +123,7 @@ read_queue(int fd, tag_index idx, int offset, void *data, int size, void *userda
     tag_queue *q;
 
     q = (tag_queue *)userdata;
+    if(offset != 0 || size != q->size) return ERR_ILLEGAL;
     if(q->qcount == 0) {
         return ERR_EMPTY;
     }
-- 
2.43.0


From adadcb4e1690ff5fa33d479586cd120fdf52fc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:45 +0000
Subject: [PATCH 10/20] fix: leave other tags alone when a module has no module
 tag

---
 src/server/module.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/server/module.c b/src/server/module.c
index c8bc7a9..841ba79 100644
--- a/src/server/module.c
+++ b/src/server/module.c
@@ -270,14 +270,14 @@ module_register(char *name, uint32_t timeout, int fd)
                 dax_log(DAX_LOG_ERROR, "Unable to add module tag- %s", tagname);
             } else {
                 mod->tagindex = result;
+                starttime = xtime();
+                tag_write(-1, result, 0, &starttime, sizeof(dax_time));
+                tag_write(-1, result, MOD_ID_OFFSET, &fd, sizeof(int));
+                /* We wait until after we have written what we want to set the special flag.
+                From now on we'll let the special functions handle the tag */
+                tag_set_attribute(result, TAG_ATTR_SPECIAL);
+                tag_write(-1, INDEX_LASTMODULE, 0, tagname, DAX_TAGNAME_SIZE);
             }
-            starttime = xtime();
-            tag_write(-1, result, 0, &starttime, sizeof(dax_time));
-            tag_write(-1, result, MOD_ID_OFFSET, &fd, sizeof(int));
-            /* We wait until after we have written what we want to set the special flag.
-            From now on we'll let the special functions handle the tag */
-            tag_set_attribute(result, TAG_ATTR_SPECIAL);
-            tag_write(-1, INDEX_LASTMODULE, 0, tagname, DAX_TAGNAME_SIZE);
         }
     } else {
         dax_log(DAX_LOG_ERROR, "Major problem registering module - %s:%d", name, fd);
@@ -307,7 +307,7 @@ module_unregister(int fd)
                 tag_del(n);
             }
         }
-        tag_del(mod->tagindex);
+        if(mod->tagindex > 0) tag_del(mod->tagindex); /* Zero if we don't have one */
         module_del(mod);
     } else {
         dax_log(DAX_LOG_ERROR, "module_unregister() - Module File Descriptor %d Not Found", fd);
-- 
2.43.0


From 175161c1b6588c1f396c803fc63bc92317eaa521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:56 +0000
Subject: [PATCH 11/20] fix: compare whole items when events are checked

A write that didn't start at an item compared bytes of two neighbours, times
were compared as 32 bits and the differences for the deadband wrapped around.
---
 src/server/events.c | 62 +++++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 24 deletions(-)

diff --git a/src/server/events.c b/src/server/events.c
index 26bf6cc..ef10b60 100644
--- a/src/server/events.c
+++ b/src/server/events.c
@@ -205,7 +205,6 @@ _generic_compare(tag_type datatype, void *data1, void *data2) {
             else return 0;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
             u1.dax_udint = *(dax_udint *)data1;
             u2.dax_udint = *(dax_udint *)data2;
             if(u1.dax_udint < u2.dax_udint) return -1;
@@ -225,6 +224,7 @@ _generic_compare(tag_type datatype, void *data1, void *data2) {
             else if(u1.dax_ulint > u2.dax_ulint) return 1;
             else return 0;
         case DAX_LINT:
+        case DAX_TIME:
             u1.dax_lint = *(dax_lint *)data1;
             u2.dax_lint = *(dax_lint *)data2;
             if(u1.dax_lint < u2.dax_lint) return -1;
@@ -249,20 +249,21 @@ _generic_compare(tag_type datatype, void *data1, void *data2) {
 
 static int
 _event_compare(_dax_event *event, tag_index idx, int offset, int size, int compare) {
-    int n, inc, bit, len, result;
+    int inc, bit, last, result;
     uint8_t *this, *that;
     uint8_t mask;
     result = 0;
 
     inc = TYPESIZE(event->datatype) / 8;
-    /* For these 'this' is a bit field */
-    bit = MAX(0, (offset - event->byte) / inc);
+    /* For these 'this' is a bit field.  We look at every item that was at least
+     * partially written. */
+    bit = MAX(0, offset - event->byte) / inc;
+    last = (MIN(event->byte + event->size, offset + size) - 1 - event->byte) / inc;
     this = (uint8_t *)event->test;
-    that = (uint8_t *)&(_db[idx].data[MAX(offset, event->byte)]);
-    len = MIN(event->byte + event->size, offset + size) - MAX(offset, event->byte);
-    for(n = 0; n < len; n += inc) {
+    that = (uint8_t *)&(_db[idx].data[event->byte]);
+    while(bit <= last) {
         mask = 0x01<<(bit%8);
-        if(_generic_compare(event->datatype, event->data, &(that[n])) == compare) {
+        if(_generic_compare(event->datatype, event->data, &(that[bit * inc])) == compare) {
             if(!(this[bit/8] & mask)) {
                 this[bit/8] |= mask;
                 result = 1;
@@ -280,6 +281,7 @@ _event_compare(_dax_event *event, tag_index idx, int offset, int size, int compa
 static inline int
 _generic_deadband(_dax_event *event, void *data1, void *data2) {
     dax_type_union diff, db;
+    dax_ulint udiff;
 
     switch(event->datatype) {
         case DAX_BYTE:
@@ -290,8 +292,8 @@ _generic_deadband(_dax_event *event, void *data1, void *data2) {
         case DAX_SINT:
         case DAX_CHAR:
             db.dax_sint = *(dax_sint *)event->data;
-            diff.dax_sint = *(dax_sint *)data1 - *(dax_sint *)data2;
-            if(ABS(diff.dax_sint) >= db.dax_sint) return 1;
+            diff.dax_int = *(dax_sint *)data1 - *(dax_sint *)data2;
+            if(ABS(diff.dax_int) >= db.dax_sint) return 1;
             else return 0;
         case DAX_UINT:
         case DAX_WORD:
@@ -301,31 +303,40 @@ _generic_deadband(_dax_event *event, void *data1, void *data2) {
             else return 0;
         case DAX_INT:
             db.dax_int = *(dax_int *)event->data;
-            diff.dax_int = *(dax_int *)data1 - *(dax_int *)data2;
-            if(ABS(diff.dax_int) >= db.dax_int) return 1;
+            diff.dax_dint = *(dax_int *)data1 - *(dax_int *)data2;
+            if(ABS(diff.dax_dint) >= db.dax_int) return 1;
             else return 0;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
             db.dax_udint = *(dax_udint *)event->data;
-            diff.dax_lint = *(dax_udint *)data1 - *(dax_udint *)data2;
+            diff.dax_lint = (dax_lint)*(dax_udint *)data1 - (dax_lint)*(dax_udint *)data2;
             if(ABS(diff.dax_lint) >= db.dax_udint) return 1;
             else return 0;
         case DAX_DINT:
             db.dax_dint = *(dax_dint *)event->data;
-            diff.dax_dint = *(dax_dint *)data1 - *(dax_dint *)data2;
-            if(ABS(diff.dax_dint) >= db.dax_dint) return 1;
+            diff.dax_lint = (dax_lint)*(dax_dint *)data1 - (dax_lint)*(dax_dint *)data2;
+            if(ABS(diff.dax_lint) >= db.dax_dint) return 1;
             else return 0;
         case DAX_ULINT:
         case DAX_LWORD:
             db.dax_ulint = *(dax_ulint *)event->data;
-            diff.dax_lint = *(dax_ulint *)data1 - *(dax_ulint *)data2;
-            if(ABS(diff.dax_lint) >= db.dax_ulint) return 1;
+            if(*(dax_ulint *)data1 > *(dax_ulint *)data2) {
+                udiff = *(dax_ulint *)data1 - *(dax_ulint *)data2;
+            } else {
+                udiff = *(dax_ulint *)data2 - *(dax_ulint *)data1;
+            }
+            if(udiff >= db.dax_ulint) return 1;
             else return 0;
         case DAX_LINT:
+        case DAX_TIME:
             db.dax_lint = *(dax_lint *)event->data;
-            diff.dax_lint = *(dax_lint *)data1 - *(dax_lint *)data2;
-            if(ABS(diff.dax_lint) >= db.dax_lint) return 1;
+            /* The difference of two signed numbers always fits the unsigned type */
+            if(*(dax_lint *)data1 > *(dax_lint *)data2) {
+                udiff = (dax_ulint)*(dax_lint *)data1 - (dax_ulint)*(dax_lint *)data2;
+            } else {
+                udiff = (dax_ulint)*(dax_lint *)data2 - (dax_ulint)*(dax_lint *)data1;
+            }
+            if(db.dax_lint < 0 || udiff >= (dax_ulint)db.dax_lint) return 1;
             else return 0;
         case DAX_REAL:
             db.dax_real = *(dax_real *)event->data;
@@ -350,11 +361,14 @@ _event_deadband(_dax_event *event, tag_index idx, int offset, int size) {
     result = 0;
 
     inc = TYPESIZE(event->datatype) / 8;
-    this = (uint8_t *)event->test + MAX(0, offset - event->byte);
-    that = (uint8_t *)&(_db[idx].data[MAX(offset, event->byte)]);
-    len = MIN(event->byte + event->size, offset + size) - MAX(offset, event->byte);
+    this = (uint8_t *)event->test;
+    that = (uint8_t *)&(_db[idx].data[event->byte]);
+    /* We look at every item that was at least partially written */
+    n = MAX(0, offset - event->byte);
+    n -= n % inc;
+    len = MIN(event->byte + event->size, offset + size) - event->byte;
 
-    for(n = 0; n < len; n += inc) {
+    for(; n < len; n += inc) {
         if(_generic_deadband(event, &this[n], &that[n])) {
             result = 1;
             memcpy(&this[n], &that[n], inc);
-- 
2.43.0


From 954e30bcddacdcf68285286f9fa8c6e37279c629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:53 +0000
Subject: [PATCH 12/20] fix: only accept events whose handle is consistent and
 inside of the tag

The state of an event on bits that crossed a byte was allocated too small and
the count and the offset weren't checked against the size and the tag.
Unknown event types were accepted and deleted tags could get events.
---
 src/server/events.c | 46 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/src/server/events.c b/src/server/events.c
index ef10b60..a9c66d1 100644
--- a/src/server/events.c
+++ b/src/server/events.c
@@ -456,10 +456,14 @@ event_del_check(tag_index idx) {
 static inline int
 _verify_event_type(tag_type ttype, int etype)
 {
-    /* All datatypes can use Write or Change */
-    if(etype == EVENT_WRITE || etype == EVENT_CHANGE) {
+    /* All datatypes can use Write, Change or Deleted */
+    if(etype == EVENT_WRITE || etype == EVENT_CHANGE || etype == EVENT_DELETED) {
         return 0;
     }
+    if(etype < EVENT_SET || etype > EVENT_DEADBAND) {
+        dax_log(DAX_LOG_ERROR, "Unknown event type in new event");
+        return -1;
+    }
     /* Only BOOL can use Set and Reset */
     if(etype == EVENT_SET || etype == EVENT_RESET) {
         if(ttype == DAX_BOOL) {
@@ -487,9 +491,24 @@ _verify_event_type(tag_type ttype, int etype)
     } else {
         return 0;
     }
-    /* If we get here then we were given an unknown event type */
-    dax_log(DAX_LOG_ERROR, "Unknown datatype in new event");
-    return -1;
+}
+
+/* Determine whether the size that was given with the handle is what the
+ * datatype, the count and the bit call for.  The parts of the tag that
+ * we look at to see if an event fires are calculated from those. */
+static inline int
+_verify_event_size(tag_handle *h)
+{
+    int size;
+
+    if(h->count == 0) return ERR_ARG;
+    if(h->type == DAX_BOOL) {
+        if(h->bit > 7 || h->size != ((uint64_t)h->bit + h->count - 1) / 8 + 1) return ERR_ARG;
+    } else {
+        size = type_size(h->type);
+        if(size <= 0 || IS_QUEUE(h->type) || h->size != (uint64_t)size * h->count) return ERR_ARG;
+    }
+    return 0;
 }
 
 /* This function figures out how big the *data and *test memory blocks need
@@ -513,7 +532,7 @@ _set_event_data(_dax_event *event, tag_index index, void *data) {
         case EVENT_CHANGE:
             datasize = 0;
             if(event->datatype == DAX_BOOL) {
-                testsize = (event->count - 1)/8 + 1;
+                testsize = (event->bit + event->count - 1)/8 + 1;
             } else {
                 testsize = type_size(event->datatype) * event->count;
             }
@@ -526,7 +545,7 @@ _set_event_data(_dax_event *event, tag_index index, void *data) {
         case EVENT_SET:
         case EVENT_RESET:
             datasize = 0;
-            testsize = (event->count - 1)/8 + 1;
+            testsize = (event->bit + event->count - 1)/8 + 1;
             break;
         case EVENT_EQUAL:
         case EVENT_GREATER:
@@ -593,12 +612,16 @@ event_add(tag_handle h, int event_type, void *data, dax_module *module)
 {
     _dax_event *head, *new;
     int result;
+    uint32_t size;
 
     /* Bounds check handle */
     if(h.index < 0 || h.index >= get_tagindex()) {
         dax_log(DAX_LOG_ERROR, "Tag index %d for new event is out of bounds", h.index);
         return ERR_ARG;
     }
+    if(_db[h.index].data == NULL) {
+        return ERR_DELETED;
+    }
     /* No events can be assigned to virtual tags unless it's a queue */
     if(is_tag_virtual(h.index) && ! is_tag_queue(h.index)) {
         dax_log(DAX_LOG_ERROR, "Events cannot be added to virtual events");
@@ -608,13 +631,14 @@ event_add(tag_handle h, int event_type, void *data, dax_module *module)
      * the entire tag not a partial handle. */
     if(is_tag_queue(h.index)) {
         if(h.byte != 0 || event_type != EVENT_WRITE ||
-           h.size != (tag_get_size(_db[h.index].type) * _db[h.index].count)) {
+           h.size != tag_get_size(h.index)) {
             dax_log(DAX_LOG_ERROR, "Only write events can be assigned for a queue");
             return ERR_ILLEGAL;
         }
     }
     /* Bounds check size */
-    if( (h.byte + h.size) > tag_get_size(h.index)) {
+    size = tag_get_size(h.index);
+    if(h.size == 0 || h.size > size || h.byte > size - h.size) {
         dax_log(DAX_LOG_ERROR, "Size of the affected data in the new event is too large");
         return ERR_2BIG;
     }
@@ -622,6 +646,10 @@ event_add(tag_handle h, int event_type, void *data, dax_module *module)
         /* error log handled in verify_event_type() function */
         return ERR_ARG;
     }
+    if(event_type != EVENT_WRITE && event_type != EVENT_DELETED && _verify_event_size(&h)) {
+        dax_log(DAX_LOG_ERROR, "Size of the affected data in the new event is wrong");
+        return ERR_ARG;
+    }
     /* If everything is okay then allocate the new event. */
     new = xmalloc(sizeof(_dax_event));
     if(new == NULL) {
-- 
2.43.0


From fa138c13c4be219f8c3f2cbedafa7047eafccd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:41 +0000
Subject: [PATCH 13/20] fix: delete events without touching freed memory and
 report the outcome

Deleting the first event of a tag used it after it was freed, reported an
error and the number of events of the module was changed whether or not an
event was found.  The server told the module that it worked in any case.
---
 src/server/events.c  | 31 +++++++++++++++----------------
 src/server/message.c |  8 ++++----
 2 files changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/server/events.c b/src/server/events.c
index a9c66d1..81ab06c 100644
--- a/src/server/events.c
+++ b/src/server/events.c
@@ -36,8 +36,11 @@ _send_event(tag_index idx, _dax_event *event)
     int result;
     char buff[DAX_MSGMAX];
     uint32_t msgsize;
+    int send_data;
 
-    if(event->options & EVENT_OPT_SEND_DATA) {
+    /* The data of a virtual tag (queue) isn't in the database */
+    send_data = (event->options & EVENT_OPT_SEND_DATA) && !is_tag_virtual(idx);
+    if(send_data) {
         msgsize = event->size + 16; /* Calculate the total size of this message */
         *(uint32_t *)(&buff[0])  = htonl(event->size + 8); /* The size that we send */
     } else {
@@ -48,7 +51,7 @@ _send_event(tag_index idx, _dax_event *event)
     *(uint32_t *)(&buff[4])  = htonl(MSG_EVENT | event->eventtype);
     *(uint32_t *)(&buff[8])  = htonl(idx);
     *(uint32_t *)(&buff[12])  = htonl(event->id);
-    if(event->options & EVENT_OPT_SEND_DATA) {
+    if(send_data) {
         memcpy(&buff[16], &_db[idx].data[event->byte], event->size);
     }
     dax_log(DAX_LOG_MSG, "Sending %d event to module %d",
@@ -722,25 +725,19 @@ event_del(int index, int id, dax_module *module)
         dax_log(DAX_LOG_ERROR, "event_del() - index %d is out of range\n", index);
         return ERR_2BIG;
     }
+    last = NULL;
     this = _db[index].events;
-    if(this == NULL) return ERR_NOTFOUND;
-    if(this->id == id) {
-        if(this->notify != module) {
-            dax_log(DAX_LOG_ERROR, "Module cannot delete another module's event");
-            return ERR_AUTH;
-        }
-        _db[index].events = this->next;
-        _free_event(this);
-    }
-    last = this;
-    this = this->next;
     while(this != NULL) {
         if(this->id == id) {
             if(this->notify != module) {
                 dax_log(DAX_LOG_ERROR, "Module cannot delete another module's event");
                 return ERR_AUTH;
             }
-            last->next = this->next;
+            if(last == NULL) {
+                _db[index].events = this->next;
+            } else {
+                last->next = this->next;
+            }
             _free_event(this);
             result = 0;
             break; /* Uggg */
@@ -748,6 +745,7 @@ event_del(int index, int id, dax_module *module)
         last = this;
         this = this->next;
     }
+    if(result) return result;
     /* If there are no more events on this tag then reset the attibute flag */
     if(_db[index].events == NULL) {
         _db[index].attr &= ~TAG_ATTR_EVENT;
@@ -800,7 +798,7 @@ event_opt(int index, int id, uint32_t options, dax_module *module) {
 int
 events_cleanup(dax_module *module) {
     int n, count;
-    _dax_event *this;
+    _dax_event *this, *next;
 
     count = get_tagindex();
     /* We start our scan at the bottom and work our way up.  It's probably
@@ -810,10 +808,11 @@ events_cleanup(dax_module *module) {
         if(_db[n].events != NULL) {
             this = _db[n].events;
             while(this != NULL) {
+                next = this->next;
                 if(this->notify == module) {
                     event_del(n, this->id, module);
                 }
-                this = this->next;
+                this = next;
             }
         }
     }
diff --git a/src/server/message.c b/src/server/message.c
index 453aac8..aedb909 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -678,8 +678,8 @@ msg_evnt_del(dax_message *msg)
 
     result = event_del(idx, id, module);
 
-    if(idx >= 0) {
-        _message_send(msg->fd, MSG_EVNT_DEL, &idx, 8, RESPONSE);
+    if(result == 0) {
+        _message_send(msg->fd, MSG_EVNT_DEL, &result, sizeof(result), RESPONSE);
     } else {
         _message_send(msg->fd, MSG_EVNT_DEL, &result, sizeof(result), ERROR);
     }
@@ -709,8 +709,8 @@ msg_evnt_opt(dax_message *msg)
 
     result = event_opt(idx, id, options, module);
 
-    if(idx >= 0) {
-        _message_send(msg->fd, MSG_EVNT_OPT, &idx, 8, RESPONSE);
+    if(result == 0) {
+        _message_send(msg->fd, MSG_EVNT_OPT, &result, sizeof(result), RESPONSE);
     } else {
         _message_send(msg->fd, MSG_EVNT_OPT, &result, sizeof(result), ERROR);
     }
-- 
2.43.0


From 3079557e7c29eb148c67fe10dd086e19be892990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:20 +0000
Subject: [PATCH 14/20] fix: keep data mappings inside of their tags and
 survive their removal

The bits of a mapping could be written behind the buffers when source and
destination start at different bits, deleting a mapping followed freed or
NULL pointers and the mapping flag stayed on.
---
 src/server/mapping.c | 85 ++++++++++++++++++++++++++++++--------------
 src/server/message.c |  4 +--
 src/server/tagbase.c |  2 +-
 3 files changed, 62 insertions(+), 29 deletions(-)

diff --git a/src/server/mapping.c b/src/server/mapping.c
index 8e28b55..18b6c94 100644
--- a/src/server/mapping.c
+++ b/src/server/mapping.c
@@ -32,6 +32,7 @@ _new_map(tag_handle src, tag_handle dest)
     _dax_datamap *new;
 
     new = (_dax_datamap *)malloc(sizeof(_dax_datamap));
+    if(new == NULL) return NULL;
     new->id = _db[src.index].nextmap++;
     new->source = src;
     new->dest = dest;
@@ -60,6 +61,22 @@ _handles_equal(tag_handle h1, tag_handle h2)
            h1.size == h2.size );
 }
 
+/* The number of bytes in the destination that are touched by a mapping of bits */
+static inline uint32_t
+_bit_span(tag_handle h, uint32_t count)
+{
+    return ((uint64_t)h.bit + count - 1) / 8 + 1;
+}
+
+/* Returns true if the data area given by the handle is inside of the tag */
+static inline int
+_handle_fits(tag_handle h)
+{
+    uint32_t size = tag_get_size(h.index);
+
+    return h.size > 0 && h.size <= size && h.byte <= size - h.size;
+}
+
 int
 map_add(tag_handle src, tag_handle dest)
 {
@@ -79,6 +96,9 @@ map_add(tag_handle src, tag_handle dest)
        dax_log(DAX_LOG_ERROR, "Destination tag index %d for new mapping is out of bounds", dest.index);
        return ERR_ARG;
     }
+    if(_db[src.index].data == NULL || _db[dest.index].data == NULL) {
+        return ERR_DELETED;
+    }
     if(is_tag_virtual(src.index)){
         return ERR_ILLEGAL;
     }
@@ -90,12 +110,12 @@ map_add(tag_handle src, tag_handle dest)
        return ERR_READONLY;
     }
     /* Bounds check source size */
-    if( (src.byte + src.size) > tag_get_size(src.index)) {
+    if( ! _handle_fits(src)) {
         dax_log(DAX_LOG_ERROR, "Size of the affected source data in the new mapping is too large");
         return ERR_2BIG;
     }
     /* Bounds check destination size */
-    if( (dest.byte + dest.size) > tag_get_size(dest.index)) {
+    if( ! _handle_fits(dest)) {
         dax_log(DAX_LOG_ERROR, "Size of the affected destination data in the new mapping is too large");
         return ERR_2BIG;
     }
@@ -103,6 +123,14 @@ map_add(tag_handle src, tag_handle dest)
         dax_log(DAX_LOG_ERROR, "Size of the source data in the new mapping is too large");
         return ERR_2BIG;
     }
+    /* The bits have to fit in the data areas too */
+    if(src.type == DAX_BOOL) {
+        if(src.count == 0 || src.bit > 7 || dest.bit > 7) return ERR_ARG;
+        if(_bit_span(src, src.count) > src.size || _bit_span(dest, src.count) > dest.size) {
+            dax_log(DAX_LOG_ERROR, "The bits in the new mapping don't fit");
+            return ERR_2BIG;
+        }
+    }
     /* Check for duplicates */
     this = _db[src.index].mappings;
     while(this != NULL) {
@@ -114,6 +142,7 @@ map_add(tag_handle src, tag_handle dest)
     }
 
     new_map = _new_map(src, dest);
+    if(new_map == NULL) return ERR_ALLOC;
 
     if(src.type == DAX_BOOL) {
         /* This basically creates a mask to write the bits that we want.
@@ -123,8 +152,12 @@ map_add(tag_handle src, tag_handle dest)
          */
         bit = dest.bit;
         offset = 0;
-        mask = (uint8_t *)malloc(src.size);
-        bzero(mask, src.size);
+        mask = (uint8_t *)malloc(_bit_span(dest, src.count));
+        if(mask == NULL) {
+            _free_map(new_map);
+            return ERR_ALLOC;
+        }
+        bzero(mask, _bit_span(dest, src.count));
         for(int i=0; i<src.count; i++) {
             mask[offset] |= (0x01 << bit);
             bit++;
@@ -150,26 +183,24 @@ map_del(tag_index index, int id) {
     if(index < 0 || index >= get_tagindex()) {
         return ERR_ARG;
     }
+    prev = NULL;
     this = _db[index].mappings;
-    if(this->id == id) {
-        _db[index].mappings = this->next;
-        _free_map(this);
-        return 0;
-    } else {
-        prev = this;
-        this = this->next;
-        while(this != NULL) {
-            if(this->id == id) {  /* Found it */
+    while(this != NULL) {
+        if(this->id == id) {  /* Found it */
+            if(prev == NULL) {
+                _db[index].mappings = this->next;
+            } else {
                 prev->next = this->next;
-                _free_map(this);
-                return 0;
             }
-            this = this->next;
+            _free_map(this);
+            /* If there are no more mappings reset the attribute flag */
+            if(_db[index].mappings == NULL) {
+                _db[index].attr &= ~TAG_ATTR_MAPPING;
+            }
+            return 0;
         }
-    }
-    /* If there are no more mappings reset the attribute flag */
-    if(_db[index].mappings == NULL) {
-        _db[index].attr &= ~TAG_ATTR_MAPPING;
+        prev = this;
+        this = this->next;
     }
     return ERR_NOTFOUND;
 }
@@ -210,8 +241,9 @@ map_del_all(_dax_datamap *head) {
 
 int
 map_check(tag_index idx, int offset, int size) {
-    _dax_datamap *this;
+    _dax_datamap *this, *next;
     uint8_t *new_data, *srcdb;
+    uint32_t span;
     int srcByte;
     int srcBit;
     int destByte;
@@ -222,7 +254,7 @@ map_check(tag_index idx, int offset, int size) {
     /* If this is the first time we've been called then it means that is is the tag that started
      * the mapping.  If we chain too many then we'll tell the user which tag started it all. */
     while(this != NULL) {
-
+        next = this->next; /* We may have to delete this one */
         if(offset <= (this->source.byte + this->source.size - 1) && (offset + size -1 ) >= this->source.byte) {
             srcdb = &_db[this->source.index].data[this->source.byte];
             /* Mapping Hit */
@@ -233,12 +265,13 @@ map_check(tag_index idx, int offset, int size) {
                 srcBit = this->source.bit;
                 destByte = 0;
                 destBit = this->dest.bit;
-                new_data = (uint8_t *)malloc(this->source.size);
+                span = _bit_span(this->dest, this->source.count);
+                new_data = (uint8_t *)malloc(span);
                 if(new_data == NULL) {
                     dax_log(DAX_LOG_ERROR, "Unable to allocate memory for map mask");
                     return ERR_ALLOC;
                 }
-                bzero(new_data, this->source.size);
+                bzero(new_data, span);
                 for(int n=0; n<this->source.count; n++) {
                     if(srcdb[srcByte] & (0x01 << srcBit)) {
                         new_data[destByte] |= (0x01 << destBit);
@@ -254,7 +287,7 @@ map_check(tag_index idx, int offset, int size) {
                         destByte++;
                     }
                 }
-                result = tag_mask_write(-1, this->dest.index, this->dest.byte, new_data, this->mask, this->source.size);
+                result = tag_mask_write(-1, this->dest.index, this->dest.byte, new_data, this->mask, span);
                 /* If the destination tag has been deleted then delete this map */
                 if(result == ERR_DELETED) {
                     dax_log(DAX_LOG_DEBUG, "Destination tag has been deleted, removing map %d from tag index = %d", this->id, this->source.index);
@@ -269,7 +302,7 @@ map_check(tag_index idx, int offset, int size) {
                 }
             }
         }
-        this = this->next;
+        this = next;
     }
     return 0;
 }
diff --git a/src/server/message.c b/src/server/message.c
index aedb909..1321dba 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -840,8 +840,8 @@ int msg_map_get(dax_message *msg)
 {
     int result;
     dax_id id;
-    tag_handle src, dest;
-    uint8_t buff[sizeof(tag_handle) * 2];
+    tag_handle src = {0}, dest = {0};
+    uint8_t buff[sizeof(tag_handle) * 2] = {0};
 
     id.index = *(dax_dint *)msg->data;
     id.id = *(dax_dint *)&msg->data[4];
diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index eb1b2ac..be46df7 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -870,7 +870,7 @@ tag_write(int fd, tag_index idx, int offset, void *data, int size)
             if(result) return result;
         }
         /* Copy the data into the right place. */
-        memcpy(&(_db[idx].data[offset]), data, size);
+        memmove(&(_db[idx].data[offset]), data, size); /* A mapping may overlap */
         event_check(idx, offset, size);
     }
 
-- 
2.43.0


From 883e8b34180a64a64b6e5e4d7cd262937835df93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:13 +0000
Subject: [PATCH 15/20] fix: accept events on bits with a size larger than
 needed

---
 src/server/events.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/events.c b/src/server/events.c
index 81ab06c..1ba8152 100644
--- a/src/server/events.c
+++ b/src/server/events.c
@@ -497,7 +497,7 @@ _verify_event_type(tag_type ttype, int etype)
 }
 
 /* Determine whether the size that was given with the handle is what the
- * datatype, the count and the bit call for.  The parts of the tag that
+ * datatype and the count call for or if it has all of the bits.  The parts of the tag that
  * we look at to see if an event fires are calculated from those. */
 static inline int
 _verify_event_size(tag_handle *h)
@@ -506,7 +506,7 @@ _verify_event_size(tag_handle *h)
 
     if(h->count == 0) return ERR_ARG;
     if(h->type == DAX_BOOL) {
-        if(h->bit > 7 || h->size != ((uint64_t)h->bit + h->count - 1) / 8 + 1) return ERR_ARG;
+        if(h->bit > 7 || h->size < ((uint64_t)h->bit + h->count - 1) / 8 + 1) return ERR_ARG;
     } else {
         size = type_size(h->type);
         if(size <= 0 || IS_QUEUE(h->type) || h->size != (uint64_t)size * h->count) return ERR_ARG;
-- 
2.43.0


From 9a6b61ccb04cf1224c8f881dce0656a74726cf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:13 +0000
Subject: [PATCH 16/20] fix: let atomic operations change exactly the items of
 the handle

The bounds check counted bits as bytes, the operand was read at the offset of
the tag, times were treated as 32 bits and the inverted operations on bits
toggled the wrong bytes.
---
 src/server/atomic.c | 79 +++++++++++++++++++++++++++------------------
 1 file changed, 48 insertions(+), 31 deletions(-)

diff --git a/src/server/atomic.c b/src/server/atomic.c
index 5468192..c3931c1 100644
--- a/src/server/atomic.c
+++ b/src/server/atomic.c
@@ -38,6 +38,13 @@ _left_shift(dax_byte *dest, dax_byte *src, size_t size, uint8_t bit) {
 }
 
 
+/* Returns the mask for the bits in the last byte that are above our range */
+inline static dax_byte
+_high_mask(tag_handle h) {
+    int bits = ((int)h.bit + (int)(h.count%8))%8;
+    return bits ? 0xFF << bits : 0x00;
+}
+
 static int
 _atomic_inc(tag_handle h, void *data) {
     /* We only operate on one member at a time */
@@ -59,7 +66,6 @@ _atomic_inc(tag_handle h, void *data) {
             return 0;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
             *(dax_udint *)&_db[h.index].data[h.byte] += *(dax_udint *)data;
             return 0;
         case DAX_DINT:
@@ -70,6 +76,7 @@ _atomic_inc(tag_handle h, void *data) {
             *(dax_ulint *)&_db[h.index].data[h.byte] += *(dax_ulint *)data;
             return 0;
         case DAX_LINT:
+        case DAX_TIME:
             *(dax_lint *)&_db[h.index].data[h.byte] += *(dax_lint *)data;
             return 0;
         case DAX_REAL:
@@ -103,7 +110,6 @@ _atomic_dec(tag_handle h, void *data) {
             return 0;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
             *(dax_udint *)&_db[h.index].data[h.byte] -= *(dax_udint *)data;
             return 0;
         case DAX_DINT:
@@ -114,6 +120,7 @@ _atomic_dec(tag_handle h, void *data) {
             *(dax_ulint *)&_db[h.index].data[h.byte] -= *(dax_ulint *)data;
             return 0;
         case DAX_LINT:
+        case DAX_TIME:
             *(dax_lint *)&_db[h.index].data[h.byte] -= *(dax_lint *)data;
             return 0;
         case DAX_REAL:
@@ -166,7 +173,7 @@ _atomic_or(tag_handle h, void *data) {
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
         _left_shift(temp, data, h.size, h.bit);
 
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
+        hmask = _high_mask(h);
         lmask = 0xFF >> (8-h.bit);
 
         temp[h.size-1] &= ~hmask;
@@ -177,7 +184,7 @@ _atomic_or(tag_handle h, void *data) {
         }
     } else {
         for(n=0; n<h.size; n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] |= ((dax_byte *)data)[h.byte+n];
+            *(dax_byte *)&_db[h.index].data[h.byte+n] |= ((dax_byte *)data)[n];
         }
     }
     return 0;
@@ -194,7 +201,7 @@ _atomic_and(tag_handle h, void *data) {
         return ERR_BADTYPE;
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
         _left_shift(temp, data, h.size, h.bit);
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
+        hmask = _high_mask(h);
         lmask = 0xFF >> (8-h.bit);
 
         temp[h.size-1] |= hmask;
@@ -205,7 +212,7 @@ _atomic_and(tag_handle h, void *data) {
         }
     } else {
         for(n=0; n<h.size; n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] &= ((dax_byte *)data)[h.byte+n];
+            *(dax_byte *)&_db[h.index].data[h.byte+n] &= ((dax_byte *)data)[n];
         }
     }
     return 0;
@@ -224,30 +231,29 @@ _atomic_nor(tag_handle h, void *data) {
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
         size = h.size;
         _left_shift(temp, data, size, h.bit);
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
+        hmask = _high_mask(h);
         lmask = 0xFF >> (8-h.bit);
 
         temp[size-1] &= ~hmask;
         temp[0]      &= ~lmask;
 
         /* To do the NOR with our mask we first apply the mask just like
-           with the OR.  Then XOR the middle bytes with 0xFF to toggle them
-           which makes it a NOR and then we do the same thing to the first
-           and last bytes except with the compliment of the mask.  This
-           keeps the bits that are outside of our range and then toggles
-           the ones that are inside the range. */
+           with the OR.  Then XOR the bytes with 0xFF to toggle them
+           which makes it a NOR and then we toggle the bits of the first
+           and the last byte that are outside of our range once more, so
+           that they keep their value. */
         for(n=0;n< size;n++) {
             ((dax_byte *)_db[h.index].data)[h.byte+n] |= temp[n];
         }
-        for(n=1;n<size-1;n++) {
+        for(n=0;n<size;n++) {
             ((dax_byte *)_db[h.index].data)[h.byte+n] ^= 0xFF;
         }
-        ((dax_byte *)_db[h.index].data)[size-1] ^= ~hmask;
-        ((dax_byte *)_db[h.index].data)[0]      ^= ~lmask;
+        ((dax_byte *)_db[h.index].data)[h.byte+size-1] ^= hmask;
+        ((dax_byte *)_db[h.index].data)[h.byte]        ^= lmask;
 
     } else {
         for(n=0;n<h.size;n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] | ((dax_byte *)data)[h.byte+n]);
+            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] | ((dax_byte *)data)[n]);
         }
     }
     return 0;
@@ -266,7 +272,7 @@ _atomic_nand(tag_handle h, void *data) {
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
         size = h.size;
         _left_shift(temp, data, size, h.bit);
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
+        hmask = _high_mask(h);
         lmask = 0xFF >> (8-h.bit);
 
         temp[size-1] |= hmask;
@@ -275,14 +281,14 @@ _atomic_nand(tag_handle h, void *data) {
         for(n=0;n< size;n++) {
             ((dax_byte *)_db[h.index].data)[h.byte+n] &= temp[n];
         }
-        for(n=1;n<size-1;n++) {
+        for(n=0;n<size;n++) {
             ((dax_byte *)_db[h.index].data)[h.byte+n] ^= 0xFF;
         }
-        ((dax_byte *)_db[h.index].data)[size-1] ^= ~hmask;
-        ((dax_byte *)_db[h.index].data)[0]      ^= ~lmask;
+        ((dax_byte *)_db[h.index].data)[h.byte+size-1] ^= hmask;
+        ((dax_byte *)_db[h.index].data)[h.byte]        ^= lmask;
     } else {
         for(n=0;n<h.size;n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] & ((dax_byte *)data)[h.byte+n]);
+            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] & ((dax_byte *)data)[n]);
         }
     }
     return 0;
@@ -300,7 +306,7 @@ _atomic_xor(tag_handle h, void *data) {
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
         _left_shift(temp, data, h.size, h.bit);
 
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
+        hmask = _high_mask(h);
         lmask = 0xFF >> (8-h.bit);
 
         temp[h.size-1] &= ~hmask;
@@ -311,7 +317,7 @@ _atomic_xor(tag_handle h, void *data) {
         }
     } else {
         for(n=0; n<h.size; n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] ^= ((dax_byte *)data)[h.byte+n];
+            *(dax_byte *)&_db[h.index].data[h.byte+n] ^= ((dax_byte *)data)[n];
         }
     }
     return 0;
@@ -329,7 +335,7 @@ _atomic_xnor(tag_handle h, void *data) {
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
         size = h.size;
         _left_shift(temp, data, size, h.bit);
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
+        hmask = _high_mask(h);
         lmask = 0xFF >> (8-h.bit);
 
         temp[size-1] &= ~hmask;
@@ -338,15 +344,15 @@ _atomic_xnor(tag_handle h, void *data) {
         for(n=0;n< size;n++) {
             ((dax_byte *)_db[h.index].data)[h.byte+n] ^= temp[n];
         }
-        for(n=1;n<size-1;n++) {
+        for(n=0;n<size;n++) {
             ((dax_byte *)_db[h.index].data)[h.byte+n] ^= 0xFF;
         }
-        ((dax_byte *)_db[h.index].data)[size-1] ^= ~hmask;
-        ((dax_byte *)_db[h.index].data)[0]      ^= ~lmask;
+        ((dax_byte *)_db[h.index].data)[h.byte+size-1] ^= hmask;
+        ((dax_byte *)_db[h.index].data)[h.byte]        ^= lmask;
 
     } else {
         for(n=0;n<h.size;n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] ^ ((dax_byte *)data)[h.byte+n]);
+            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] ^ ((dax_byte *)data)[n]);
         }
     }
     return 0;
@@ -356,6 +362,7 @@ _atomic_xnor(tag_handle h, void *data) {
 int
 atomic_op(tag_handle h, void *data, uint16_t op) {
     int result;
+    uint32_t size;
     /* We don't do these on custom data types */
     if(IS_CUSTOM(h.type)) {
         return ERR_BADTYPE;
@@ -364,11 +371,21 @@ atomic_op(tag_handle h, void *data, uint16_t op) {
     if(h.index < 0 || h.index >= get_tagindex()) {
         return ERR_ARG;
     }
-    /* Bounds Check Size - we can use the TYPESIZE macro here because we have
-       already excluded CDTs */
-    if((h.byte + h.size) > (_db[h.index].count * TYPESIZE(_db[h.index].type))) {
+    /* Bounds Check Size */
+    size = tag_get_size(h.index);
+    if(h.size > size || h.byte > size - h.size) {
         return ERR_2BIG;
     }
+    /* The size has to be what it takes to hold the items */
+    if(h.count == 0 || type_size(h.type) < 0 || IS_QUEUE(h.type)) {
+        return ERR_ARG;
+    }
+    if(h.type == DAX_BOOL) {
+        if(h.bit > 7 || h.size < ((uint64_t)h.bit + h.count - 1) / 8 + 1) return ERR_ARG;
+        h.size = (h.bit + h.count - 1) / 8 + 1; /* The last byte that has our bits in it */
+    } else {
+        if(h.size != (uint64_t)type_size(h.type) * h.count) return ERR_ARG;
+    }
     /* Since we directly manipulate the _db here we can't deal with virtual tags or
        special tags.*/
     if(_db[h.index].attr & (TAG_ATTR_VIRTUAL | TAG_ATTR_SPECIAL)) {
-- 
2.43.0


From 3b8d13f1fb49f8b139f2834c38e32eb88f6dd94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:22 +0000
Subject: [PATCH 17/20] fix: check tag groups of a module and honour read only
 tags in them

Deleting a group made the last group of the module inaccessible, unknown
group numbers and modules that never registered read foreign memory.  A
group write went around the read only attribute and the data mappings.
---
 src/server/groups.c  | 33 ++++++++++++++++++++++++---------
 src/server/message.c | 16 ++++++++--------
 2 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/server/groups.c b/src/server/groups.c
index f8585c6..818ed3d 100644
--- a/src/server/groups.c
+++ b/src/server/groups.c
@@ -79,8 +79,10 @@ _group_add(dax_module *mod) {
  */
 int
 group_add(dax_module *mod, uint8_t *handles, uint8_t count) {
-    int index, datasize, offset;
+    int index, offset;
+    uint64_t datasize;
 
+    if(mod == NULL) return ERR_NOTFOUND;
     if(count > TAG_GROUP_MAX_MEMBERS) return ERR_ARG;
     index = _group_add(mod);
     if(index < 0) return index; /* Pass the error on up */
@@ -105,6 +107,7 @@ group_add(dax_module *mod, uint8_t *handles, uint8_t count) {
         }
     }
 
+    mod->tag_groups[index].size = datasize;
     mod->tag_groups[index].flags |= GRP_FLAG_NOT_EMPTY;
     mod->tag_groups[index].count = count;
     dax_log(DAX_LOG_MSG, "Group Add message from %s", mod->name);
@@ -112,15 +115,23 @@ group_add(dax_module *mod, uint8_t *handles, uint8_t count) {
 }
 
 
+/* Returns the group or NULL if there is no such group in the module */
+static tag_group *
+_get_group(dax_module *mod, uint32_t index) {
+    if(mod == NULL || index >= mod->groups_size) return NULL;
+    if((mod->tag_groups[index].flags & GRP_FLAG_NOT_EMPTY) == 0) return NULL;
+    return &mod->tag_groups[index];
+}
+
 /* Deletes a single tag group from the given module */
 int
 group_del(dax_module *mod, int index) {
-    if((mod->tag_groups[index].flags & GRP_FLAG_NOT_EMPTY) == 0) return ERR_NOTFOUND;
+    if(_get_group(mod, index) == NULL) return ERR_NOTFOUND;
 
     free(mod->tag_groups[index].members);
+    mod->tag_groups[index].members = NULL;
     mod->tag_groups[index].flags = 0x00;
     mod->tag_groups[index].count = 0;
-    mod->groups_size--;
     dax_log(DAX_LOG_MSG, "Group Delete message from %s", mod->name);
     return 0;
 }
@@ -132,11 +143,11 @@ group_read(dax_module *mod, uint32_t index, uint8_t *buff, int size) {
     int n, offset=0, result;
     tag_group *group;
 
-    group = &mod->tag_groups[index];
-    if((group->flags & GRP_FLAG_NOT_EMPTY) == 0) return ERR_NOTFOUND;
+    group = _get_group(mod, index);
+    if(group == NULL) return ERR_NOTFOUND;
     if(group->size > size) return ERR_ARG;
     for(n = 0;n<group->count;n++) {
-        result = tag_read(-1, group->members[n].index, group->members[n].byte, &buff[offset], group->members[n].size);
+        result = tag_read(mod->fd, group->members[n].index, group->members[n].byte, &buff[offset], group->members[n].size);
         if(result) return result;
         offset += group->members[n].size;
     }
@@ -150,11 +161,15 @@ group_write(dax_module *mod, uint32_t index, uint8_t *buff) {
     int n, offset=0, result;
     tag_group *group;
 
-    group = &mod->tag_groups[index];
-    if((group->flags & GRP_FLAG_NOT_EMPTY) == 0) return ERR_NOTFOUND;
+    group = _get_group(mod, index);
+    if(group == NULL) return ERR_NOTFOUND;
     for(n = 0;n<group->count;n++) {
-        result = tag_write(-1, group->members[n].index, group->members[n].byte, &buff[offset], group->members[n].size);
+        if(is_tag_readonly(group->members[n].index) && ! is_tag_owned(mod->fd, group->members[n].index)) {
+            return ERR_READONLY;
+        }
+        result = tag_write(mod->fd, group->members[n].index, group->members[n].byte, &buff[offset], group->members[n].size);
         if(result) return result;
+        map_check(group->members[n].index, group->members[n].byte, group->members[n].size);
         offset += group->members[n].size;
     }
     return offset;
diff --git a/src/server/message.c b/src/server/message.c
index 1321dba..efaf541 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -884,10 +884,10 @@ msg_group_add(dax_message *msg) {
 
     if(id < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GRP_ADD, &id, sizeof(int), ERROR);
-        dax_log(DAX_LOG_MSGERR, "Group Add Message for %s Returning Error %d",mod->name, id);
+        dax_log(DAX_LOG_MSGERR, "Group Add Message for %s Returning Error %d",mod ? mod->name : "unregistered module", id);
     } else {
         _message_send(msg->fd, MSG_GRP_ADD, &id, sizeof(int), RESPONSE);
-        dax_log(DAX_LOG_MSG, "Group Add Message for %s", mod->name);
+        dax_log(DAX_LOG_MSG, "Group Add Message for %s", mod ? mod->name : "unregistered module");
     }
     return 0;
 }
@@ -903,10 +903,10 @@ msg_group_del(dax_message *msg) {
     result = group_del(mod, index);
     if(result < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GRP_DEL, &result, sizeof(int), ERROR);
-        dax_log(DAX_LOG_MSGERR, "Group Delete Message for %s Returning Error %d",mod->name, result);
+        dax_log(DAX_LOG_MSGERR, "Group Delete Message for %s Returning Error %d",mod ? mod->name : "unregistered module", result);
      } else {
         _message_send(msg->fd, MSG_GRP_DEL, &result, sizeof(int), RESPONSE);
-        dax_log(DAX_LOG_MSG, "Group Delete Message for %s", mod->name);
+        dax_log(DAX_LOG_MSG, "Group Delete Message for %s", mod ? mod->name : "unregistered module");
     }
     return 0;
 }
@@ -923,10 +923,10 @@ msg_group_read(dax_message *msg) {
     result = group_read(mod, index, buff, MSG_TAG_GROUP_DATA_SIZE);
     if(result < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GRP_READ, &result, sizeof(int), ERROR);
-        dax_log(DAX_LOG_MSGERR, "Group Read Message for %s Returning Error %d",mod->name, result);
+        dax_log(DAX_LOG_MSGERR, "Group Read Message for %s Returning Error %d",mod ? mod->name : "unregistered module", result);
     } else {
         _message_send(msg->fd, MSG_GRP_READ, buff, result, RESPONSE);
-        dax_log(DAX_LOG_MSG, "Group Read Message for %s", mod->name);
+        dax_log(DAX_LOG_MSG, "Group Read Message for %s", mod ? mod->name : "unregistered module");
     }
     return 0;
 }
@@ -943,10 +943,10 @@ msg_group_write(dax_message *msg) {
     result = group_write(mod, index, (uint8_t *)&msg->data[4]);
     if(result < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GRP_WRITE, &result, sizeof(int), ERROR);
-        dax_log(DAX_LOG_MSGERR, "Group Write Message for %s Returning Error %d",mod->name, result);
+        dax_log(DAX_LOG_MSGERR, "Group Write Message for %s Returning Error %d",mod ? mod->name : "unregistered module", result);
     } else {
         _message_send(msg->fd, MSG_GRP_WRITE, NULL, 0, RESPONSE);
-        dax_log(DAX_LOG_MSG, "Group Write Message for %s", mod->name);
+        dax_log(DAX_LOG_MSG, "Group Write Message for %s", mod ? mod->name : "unregistered module");
     }
     return 0;
 }
-- 
2.43.0


From 79beb1fa0dd8bc6017e4e71bd9fb64cc60d35943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:58 +0000
Subject: [PATCH 18/20] fix: refuse custom datatypes that have no usable size

Definitions without a name or without members, negative counts and types
larger than the server can address crashed the server.  The error of an
already existing type was left unset and a queue of a custom type indexed the
datatypes with the queue flag.
---
 src/server/tagbase.c | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index be46df7..e480d30 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -190,12 +190,13 @@ _get_by_name(char *name)
  * the type is not valid, bad things will happen */
 static inline void
 _cdt_inc_refcount(tag_type type) {
-    _datatypes[CDT_TO_INDEX(type)].refcount++;
+    _datatypes[CDT_TO_INDEX(type & ~DAX_QUEUE)].refcount++;
 }
 
 /* This funtion decrements the reference counter */
 static inline void
 _cdt_dec_refcount(tag_type type) {
+    type &= ~DAX_QUEUE;
     if(_datatypes[CDT_TO_INDEX(type)].refcount != 0) {
         _datatypes[CDT_TO_INDEX(type)].refcount--;
     }
@@ -958,6 +959,7 @@ cdt_append(datatype *cdt, char *str)
     countstr = strtok_r(NULL, ",", &last);
     if(countstr == NULL) return ERR_ARG;
     count = strtol(countstr, NULL, 0);
+    if(count < 1) return ERR_ARG;
 
     /* Check that the name is okay */
     if( (retval = _validate_name(name)) ) {
@@ -1037,18 +1039,22 @@ cdt_create(char *str, int *error) {
      * except for printing the name so this works out okay. */
     name = strtok_r(tmp, ":", &last);
     /* Check that the name is okay */
-    if( (result = _validate_name(name)) ) {
-        if(error != NULL) *error = result;
+    if( name == NULL || (result = _validate_name(name)) ) {
+        if(error != NULL) *error = name == NULL ? ERR_ARG : result;
         free(tmp);
         return 0;
     }
     if((type = cdt_get_type(name))) {
-        serialize_datatype(type, &serial);
-        if(strcmp(serial, str)) { /* This means the two CDT's are not equal */
+        serial = NULL;
+        result = serialize_datatype(type, &serial);
+        if(result < 0 || strcmp(serial, str)) { /* This means the two CDT's are not equal */
             if(error != NULL) *error = ERR_DUPL;
+            if(serial) free(serial);
             free(tmp);
             return 0;
         } else { /* If it's the same then just return it */
+            if(error != NULL) *error = 0;
+            free(serial);
             free(tmp);
             return type;
         }
@@ -1092,6 +1098,14 @@ cdt_create(char *str, int *error) {
     _datatypes[_datatype_index].refcount = 0;
     _datatypes[_datatype_index].flags = 0;
     _datatype_index++;
+    /* It has to have a size that we can deal with */
+    result = type_size(CDT_TO_TYPE((_datatype_index - 1)));
+    if(result <= 0) {
+        _datatype_index--;
+        _cdt_destroy(&cdt);
+        if(error) *error = result < 0 ? result : ERR_ARG;
+        return 0;
+    }
 
     if(error) *error = 0;
     //--printf("create_cdt() - Created datatype %s\n", cdt.name);
@@ -1207,7 +1221,7 @@ cdt_get_entry(tag_type type) {
     int index;
 
     index = CDT_TO_INDEX(type);
-    if(IS_CUSTOM(type) && index > 0 && index < _datatype_size) {
+    if(IS_CUSTOM(type) && index >= 0 && index < _datatype_index) {
         return &_datatypes[index];
     } else {
         return NULL;
@@ -1438,7 +1452,7 @@ serialize_datatype(tag_type type, char **str)
 
     cdt_index = CDT_TO_INDEX(type);
 
-    if(cdt_index < 0 || cdt_index >= _datatype_index) {
+    if(!IS_CUSTOM(type) || cdt_index < 0 || cdt_index >= _datatype_index) {
         return ERR_ARG;
     }
 
@@ -1484,7 +1498,7 @@ int
 type_size(tag_type type)
 {
     int size = 0, result;
-    unsigned int pos = 0; /* Bit position within the data area */
+    uint64_t pos = 0; /* Bit position within the data area */
     cdt_member *this;
 
     if( (result = _checktype(type)) ) {
@@ -1492,7 +1506,7 @@ type_size(tag_type type)
     }
 
     if(IS_CUSTOM(type)) {
-        this = _datatypes[CDT_TO_INDEX(type)].members;
+        this = _datatypes[CDT_TO_INDEX(type & ~DAX_QUEUE)].members;
         while (this != NULL) {
             if(this->type == DAX_BOOL) {
                 pos += this->count; /* BOOLs are easy just add the number of bits */
@@ -1507,14 +1521,16 @@ type_size(tag_type type)
                 if(IS_CUSTOM(this->type)) {
                     result = type_size(this->type);
                     assert(result > 0); /* The types within other types should be okay */
-                    pos += (result * this->count) * 8;
+                    if((uint64_t)result * this->count > INT_MAX) return ERR_2BIG;
+                    pos += ((uint64_t)result * this->count) * 8;
                 } else {
                     /* This gets the size in bits */
-                    pos += TYPESIZE(this->type) * this->count;
+                    pos += (uint64_t)TYPESIZE(this->type) * this->count;
                 }
             }
             this = this->next;
         }
+        if(pos / 8 >= INT_MAX) return ERR_2BIG;
         if(pos) {
             size = (pos - 1)/8 + 1;
         } else {
-- 
2.43.0


From 634a9d0aa4958a98fa453b832445fe4a8ae1d8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:06 +0000
Subject: [PATCH 19/20] fix: refuse override messages that are shorter than
 their header

---
 src/server/message.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server/message.c b/src/server/message.c
index efaf541..d95b1f3 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -1005,6 +1005,7 @@ msg_add_override(dax_message *msg) {
     size = (msg->size - 12) / 2;
     dax_log(DAX_LOG_MSG, "Add Override Message from module %d, index %d, offset %d, size %d", msg->fd, index, byte, size);
 
+    if(msg->size < 12) size = -1; /* Not even a header.  It'll be refused */
     result = override_add(index, byte, &msg->data[12], &msg->data[12+size], size);
     if(result < 0) { /* Send Error */
         _message_send(msg->fd, MSG_ADD_OVRD, &result, sizeof(int), ERROR);
@@ -1023,6 +1024,7 @@ msg_del_override(dax_message *msg) {
     index = *((tag_index *)&msg->data[0]);
     byte = *((uint32_t *)&msg->data[4]);
     size = (msg->size - 8);
+    if(msg->size < 8) size = -1; /* Not even a header.  It'll be refused */
     result = override_del(index, byte, &msg->data[8], size);
     if(result < 0) { /* Send Error */
         _message_send(msg->fd, MSG_DEL_OVRD, &result, sizeof(int), ERROR);
-- 
2.43.0


From bc41fda26f1c32404d6629e684917a1215e8656f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:41 +0000
Subject: [PATCH 20/20] fix: item count of a custom datatype's member that does
 not fit into an int was truncated

---
 src/server/tagbase.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index e480d30..877b666 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -946,7 +946,8 @@ _cdt_destroy(datatype *cdt) {
 static int
 cdt_append(datatype *cdt, char *str)
 {
-    int retval, count;
+    int retval;
+    long count;
     cdt_member *this, *new;
     char *name, *typestr, *countstr, *last;
     tag_type type;
@@ -959,7 +960,7 @@ cdt_append(datatype *cdt, char *str)
     countstr = strtok_r(NULL, ",", &last);
     if(countstr == NULL) return ERR_ARG;
     count = strtol(countstr, NULL, 0);
-    if(count < 1) return ERR_ARG;
+    if(count < 1 || count > INT_MAX) return ERR_ARG;
 
     /* Check that the name is okay */
     if( (retval = _validate_name(name)) ) {
-- 
2.43.0

