From becd215d66fec867246ece0d98962bc9a381bd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:16 +0000
Subject: [PATCH 01/30] fix: bound stream messages received by the server by
 the receive buffer

The length of a message is supplied by the peer and was used unchecked, so a
length below the header size or above the buffer size overflowed the receive
buffer. The capacity handed to the links also included the message structure
itself. Drop clients that send an invalid length.
---
 runtime/link/socket/server.c | 10 ++++++++++
 runtime/server.c             |  4 ++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index 01ccb1f..e4273d1 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -165,6 +165,16 @@ static int socket_link_recv_client(struct socket_link_client* client,
     
     GRTRACE(GRSTR("socket_link_recv_client message id %u, length of message %u"), 
         *((uint32_t*)&context->payload[0]), *((uint32_t*)&context->payload[4]));
+
+    // the length is supplied by the peer, it must cover the header and may not exceed
+    // the capacity of the receive buffer. We can't resynchronize if it's invalid
+    if (*((uint32_t*)&context->payload[4]) < GRACHT_MESSAGE_HEADER_SIZE ||
+        *((uint32_t*)&context->payload[4]) > context->index) {
+        GRERROR(GRSTR("socket_link_recv_client invalid message length %u"), *((uint32_t*)&context->payload[4]));
+        errno = (EFAULT);
+        return -1;
+    }
+
     missingData = *((uint32_t*)&context->payload[4]) - GRACHT_MESSAGE_HEADER_SIZE;
     if (missingData) {
         GRTRACE(GRSTR("socket_link_recv_client reading message payload"));
diff --git a/runtime/server.c b/runtime/server.c
index dd6a2bb..607bcf8 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -293,7 +293,7 @@ static struct gracht_message* get_in_buffer_st(struct gracht_server* server)
 {
     struct gracht_message* message = (struct gracht_message*)server->recvBuffer;
     message->server = server;
-    message->index  = server->allocationSize;
+    message->index  = server->allocationSize - sizeof(struct gracht_message);
     return message;
 }
 
@@ -333,7 +333,7 @@ static struct gracht_message* get_in_buffer_mt(struct gracht_server* server)
     struct gracht_message* message;
     message = gracht_arena_allocate(server->arena, NULL, server->allocationSize);
     message->server = server;
-    message->index  = server->allocationSize;
+    message->index  = server->allocationSize - sizeof(struct gracht_message);
     return message;
 }
 
-- 
2.43.0


From a317a34cfdb18c0a57f29c7212c22e09eaed3777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:16 +0000
Subject: [PATCH 02/30] fix: keep the message framing when a stream delivers
 data in pieces

A header that was only partially available was discarded by the server and
the next read started in the middle of the message. Wait for the remainder of
the header, and report EFAULT when a message ends prematurely so the client
is dropped instead of being read out of sync.
---
 runtime/link/socket/server.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index e4273d1..99b58aa 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -155,12 +155,23 @@ static int socket_link_recv_client(struct socket_link_client* client,
     }
 #else
     bytesRead = recv(client->base.handle, &context->payload[0], GRACHT_MESSAGE_HEADER_SIZE, socketFlags);
-    if (bytesRead != GRACHT_MESSAGE_HEADER_SIZE) {
+    if (bytesRead <= 0) {
         if (bytesRead == 0) {
             errno = ENODATA;
         }
         return -1;
     }
+
+    if (bytesRead != GRACHT_MESSAGE_HEADER_SIZE) {
+        // the header was only partially available, wait for the rest of it to arrive
+        GRTRACE(GRSTR("socket_link_recv_client reading rest of message header"));
+        missingData = GRACHT_MESSAGE_HEADER_SIZE - (uint32_t)bytesRead;
+        bytesRead   = recv(client->base.handle, &context->payload[bytesRead], (size_t)missingData, MSG_WAITALL);
+        if (bytesRead != missingData) {
+            errno = (EFAULT);
+            return -1;
+        }
+    }
 #endif
     
     GRTRACE(GRSTR("socket_link_recv_client message id %u, length of message %u"), 
@@ -184,7 +195,7 @@ static int socket_link_recv_client(struct socket_link_client* client,
             // do not process incomplete requests
             GRERROR(GRSTR("socket_link_recv_client did not read full amount of bytes (%u, expected %u)"),
                   (uint32_t)bytesRead, missingData);
-            errno = (EPIPE);
+            errno = (EFAULT);
             return -1;
         }
     }
-- 
2.43.0


From c334721131b5f022b9540baae4362124f588f7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:25 +0000
Subject: [PATCH 03/30] fix: make the buffer pool of the server grow and share
 correctly

Growing the pool lost the slot of the pushed buffer, leaked the old array and
could hand out uninitialised slots; a concurrent pop could read a slot whose
push had reserved but not yet stored it.
---
 include/stack.h | 11 ++++----
 runtime/stack.c | 69 ++++++++++++++++---------------------------------
 2 files changed, 28 insertions(+), 52 deletions(-)

diff --git a/include/stack.h b/include/stack.h
index 3ae0581..d2037b0 100644
--- a/include/stack.h
+++ b/include/stack.h
@@ -14,19 +14,20 @@
  * You should have received a copy of the GNU General Public License
  * along with this program. If not, see <http://www.gnu.org/licenses/>.
  *
- * Lockless stack implementation
+ * Thread-safe stack implementation
  */
 
 #ifndef __GRACHT_STACK_H__
 #define __GRACHT_STACK_H__
 
-#include "gatomic.h"
+#include "thread_api.h"
 #include <stddef.h>
 
 struct stack {
-    atomic_uintptr_t elements;
-    atomic_uint      index;
-    size_t           count;
+    mtx_t  lock;
+    void** elements;
+    size_t index;
+    size_t count;
 };
 
 int   stack_construct(struct stack* stack, size_t initialCount);
diff --git a/runtime/stack.c b/runtime/stack.c
index 7014364..cc798f5 100644
--- a/runtime/stack.c
+++ b/runtime/stack.c
@@ -14,7 +14,7 @@
  * You should have received a copy of the GNU General Public License
  * along with this program. If not, see <http://www.gnu.org/licenses/>.
  *
- * Lockless stack implementation
+ * Thread-safe stack implementation
  */
 
 #include <errno.h>
@@ -23,26 +23,21 @@
 #include <stdlib.h>
 #include <string.h>
 
-#ifdef _WIN32
-typedef uintptr_t uint_loaded_t;
-#else
-typedef unsigned int uint_loaded_t;
-#endif
-
 int stack_construct(struct stack* stack, size_t initialCount)
 {
-    uintptr_t space;
+    void** space;
     if (!stack || !initialCount) {
         errno = EINVAL;
         return -1;
     }
 
-    space = (uintptr_t)malloc(sizeof(uintptr_t) * initialCount);
+    space = malloc(sizeof(void*) * initialCount);
     if (!space) {
         errno = ENOMEM;
         return -1;
     }
 
+    mtx_init(&stack->lock, mtx_plain);
     stack->elements = space;
     stack->index    = 0;
     stack->count    = initialCount;
@@ -55,71 +50,51 @@ void stack_destroy(struct stack* stack)
         return;
     }
 
-    free((void*)atomic_load(&stack->elements));
+    free(stack->elements);
+    mtx_destroy(&stack->lock);
 }
 
-int stack_resize(struct stack* stack, size_t newSize)
+static int stack_resize(struct stack* stack, size_t newSize)
 {
-    uintptr_t original = atomic_load(&stack->elements);
-    uintptr_t resized  = (uintptr_t)malloc(sizeof(uintptr_t) * newSize);
-    int       result;
-
+    void** resized = malloc(sizeof(void*) * newSize);
     if (!resized) {
         errno = ENOMEM;
         return -1;
     }
 
-    memcpy((void*)resized, (const void*)original, sizeof(uintptr_t) * stack->count);
-    
-    result = atomic_compare_exchange_strong(&stack->elements, &original, resized);
-    if (!result) {
-        // try again, someone else beat us to it
-        free((void*)resized);
-        return 0;
-    }
+    memcpy(resized, stack->elements, sizeof(void*) * stack->index);
+    free(stack->elements);
 
-    stack->count = newSize;
+    stack->elements = resized;
+    stack->count    = newSize;
     return 0;
 }
 
 void stack_push(struct stack* stack, void* pointer)
 {
-    uint_loaded_t index;
-
     if (!stack || !pointer) {
         return;
     }
 
-perform_push:
-    index = atomic_fetch_add(&stack->index, 1);
-    if (index >= stack->count) {
-        if (stack_resize(stack, stack->count * 2)) {
-            return;
-        }
-        goto perform_push;
+    mtx_lock(&stack->lock);
+    if (stack->index < stack->count || !stack_resize(stack, stack->count * 2)) {
+        stack->elements[stack->index++] = pointer;
     }
-
-    ((uintptr_t*)atomic_load(&stack->elements))[index] = (uintptr_t)pointer;
+    mtx_unlock(&stack->lock);
 }
 
 void* stack_pop(struct stack* stack)
 {
-    uint_loaded_t index;
-    int           result;
+    void* pointer = NULL;
 
     if (!stack) {
         return NULL;
     }
 
-perform_pop:
-    index = atomic_load(&stack->index);
-    if (!index) {
-        return NULL;
-    }
-
-    result = atomic_compare_exchange_strong(&stack->index, &index, index - 1);
-    if (!result) {
-        goto perform_pop;
+    mtx_lock(&stack->lock);
+    if (stack->index) {
+        pointer = stack->elements[--stack->index];
     }
-    return (void*)((uintptr_t*)atomic_load(&stack->elements))[index - 1];
+    mtx_unlock(&stack->lock);
+    return pointer;
 }
-- 
2.43.0


From c5be9d1a50d8e7364e2b2b4d496bfeb416451466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:42 +0000
Subject: [PATCH 04/30] fix: keep the message arena inside its memory and
 reusable

The walk over the blocks and the release of the last block read past the end of
the arena, sizes beyond 24 bits were silently truncated, growing a block could
dereference NULL or underflow its neighbour, releasing more than a block held
underflowed its length, and blocks released out of order were never merged again
so a long-running server or client ran out of receive buffers.
---
 runtime/arena.c | 85 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 55 insertions(+), 30 deletions(-)

diff --git a/runtime/arena.c b/runtime/arena.c
index 50b05fa..dd94296 100644
--- a/runtime/arena.c
+++ b/runtime/arena.c
@@ -47,6 +47,9 @@ struct gracht_arena {
 // for our purposes we require atleast 128 bytes for a new message
 #define ALLOCATION_SPILLOVER_THRESHOLD 128
 
+// lengths are stored in 24 bits
+#define ALLOCATION_MAX_SIZE 0x00FFFFFF
+
 #define HEADER_SIZE          (sizeof(struct gracht_header) - sizeof(uint32_t))
 #define GET_HEADER(ptr)      ((struct gracht_header*)((char*)(ptr) - HEADER_SIZE))
 #define GET_NEXT_HEADER(hdr) ((struct gracht_header*)((char*)(hdr) + (HEADER_SIZE + (hdr)->length)))
@@ -58,11 +61,16 @@ int gracht_arena_create(size_t size, struct gracht_arena** arenaOut)
     struct gracht_arena* arena;
     void*                base;
 
-    if (!size || !arenaOut) {
+    if (size <= HEADER_SIZE || !arenaOut) {
         errno = EINVAL;
         return -1;
     }
 
+    // the first header must be able to describe the entire arena
+    if (size > ALLOCATION_MAX_SIZE) {
+        size = ALLOCATION_MAX_SIZE;
+    }
+
     base = malloc(size);
     if (!base) {
         errno = ENOMEM;
@@ -81,7 +89,7 @@ int gracht_arena_create(size_t size, struct gracht_arena** arenaOut)
     arena->length = size;
 
     // initialize the first header
-    arena->base->length = (uint32_t)(size & 0x00FFFFFF) - HEADER_SIZE;
+    arena->base->length = (uint32_t)(size - HEADER_SIZE);
     arena->base->flags  = 0;
     arena->base->allocated = 0;
 
@@ -117,24 +125,40 @@ static inline void move_header(struct gracht_header* header, long byteCount)
     memmove(target, header, HEADER_SIZE);
 }
 
+// returns the header following the one provided, or NULL if it was the last in the arena
+static inline struct gracht_header* next_header(struct gracht_arena* arena, struct gracht_header* header)
+{
+    struct gracht_header* next = GET_NEXT_HEADER(header);
+    if ((size_t)((char*)next - (char*)arena->base) + HEADER_SIZE > arena->length) {
+        return NULL;
+    }
+    return next;
+}
+
+static inline void merge_with_next(struct gracht_arena* arena, struct gracht_header* header)
+{
+    struct gracht_header* next = next_header(arena, header);
+    while (next && !next->allocated) {
+        header->length += next->length + HEADER_SIZE;
+        next = next_header(arena, header);
+    }
+}
+
 static inline struct gracht_header* find_free_header(struct gracht_arena* arena, uint32_t size)
 {
-    struct gracht_header* itr    = arena->base;
-    uint32_t              length = 0;
+    struct gracht_header* itr = arena->base;
 
     GRTRACE(GRSTR("find_free_header(arena=0x%p, size=%u)"), arena, size);
-    while (length < arena->length) {
+    while (itr) {
         GRTRACE(GRSTR("header: at=0x%p length=%u, allocated=%i"), itr, itr->length, itr->allocated);
-        if (!itr->allocated && itr->length >= size) {
-            return itr;
+        if (!itr->allocated) {
+            // blocks are only merged forward when they are freed, collect the remaining here
+            merge_with_next(arena, itr);
+            if (itr->length >= size) {
+                return itr;
+            }
         }
-
-        if (!itr->length) {
-            break;
-        }
-
-        length += itr->length;
-        itr = GET_NEXT_HEADER(itr);
+        itr = next_header(arena, itr);
     }
     return NULL;
 }
@@ -142,27 +166,26 @@ static inline struct gracht_header* find_free_header(struct gracht_arena* arena,
 void* gracht_arena_allocate(struct gracht_arena* arena, void* allocation, size_t size)
 {
     struct gracht_header* allocHeader;
-    uint32_t              correctedSize = (uint32_t)(size & 0x00FFFFFF);
+    uint32_t              correctedSize = (uint32_t)size;
     GRTRACE(GRSTR("gracht_arena_allocate(arena=0x%p, allocation=0x%p, size=%u)"), arena, allocation, correctedSize);
 
-    if (!arena || !size) {
+    if (!arena || !size || size > ALLOCATION_MAX_SIZE) {
         return NULL;
     }
 
     mtx_lock(&arena->mutex);
     if (allocation) {
         struct gracht_header* header     = GET_HEADER(allocation);
-        struct gracht_header* nextHeader = GET_NEXT_HEADER(header);
+        struct gracht_header* nextHeader = next_header(arena, header);
 
-        if (!nextHeader || nextHeader->allocated) {
+        if (!nextHeader || nextHeader->allocated || nextHeader->length <= correctedSize) {
             // we must reallocate the memory space to somewhere else
             correctedSize += header->length;
 
             allocHeader = find_free_header(arena, correctedSize);
-            memcpy(&allocHeader->payload[0], &header->payload[0], header->length);
-
-            // what consequences could this call have
-            gracht_arena_free(arena, allocation, header->length);
+            if (allocHeader) {
+                memcpy(&allocHeader->payload[0], &header->payload[0], header->length);
+            }
         }
         else {
             // we are able to safely extend the current allocation
@@ -195,7 +218,11 @@ void* gracht_arena_allocate(struct gracht_arena* arena, void* allocation, size_t
 
     // update current header
     allocHeader->allocated = 1;
-    allocHeader->length = (uint32_t)(correctedSize & 0x00FFFFFF);
+    allocHeader->length = correctedSize;
+    if (allocation) {
+        // the contents have been moved, release the previous location
+        gracht_arena_free(arena, allocation, 0);
+    }
     GRTRACE(GRSTR("gracht_arena_allocate returns=%p"), &allocHeader->payload[0]);
     mtx_unlock(&arena->mutex);
     return &allocHeader->payload[0];
@@ -205,7 +232,7 @@ void gracht_arena_free(struct gracht_arena* arena, void* memory, size_t size)
 {
     struct gracht_header* header;
     struct gracht_header* nextHeader;
-    uint32_t              allocLength = (uint32_t)(size & 0x00FFFFFF);
+    uint32_t              allocLength = (uint32_t)size;
     GRTRACE(GRSTR("gracht_arena_free(arena=0x%p, memory=0x%p, size=%u)"), arena, memory, allocLength);
 
     if (!arena || !memory) {
@@ -214,11 +241,11 @@ void gracht_arena_free(struct gracht_arena* arena, void* memory, size_t size)
 
     mtx_lock(&arena->mutex);
     header     = GET_HEADER(memory);
-    nextHeader = GET_NEXT_HEADER(header);
+    nextHeader = next_header(arena, header);
 
     // currently we only merge in forward direction, to merge in backwards
     // direction without iterating we need to add an allocation footer
-    if (allocLength != 0 && header->length != allocLength) {
+    if (allocLength != 0 && header->length > allocLength) {
         // must free atleast enough, otherwise skip partial-free operation
         if (allocLength < sizeof(struct gracht_header)) {
             mtx_unlock(&arena->mutex);
@@ -231,7 +258,7 @@ void gracht_arena_free(struct gracht_arena* arena, void* memory, size_t size)
 
         // either we must adjust the header link or create a new
         // based on whether its free or not
-        if (!nextHeader->allocated) {
+        if (nextHeader && !nextHeader->allocated) {
             long negated = 0 - (long)allocLength;
             GRTRACE(GRSTR("%p=moving by %li bytes"), nextHeader, negated);
 
@@ -246,9 +273,7 @@ void gracht_arena_free(struct gracht_arena* arena, void* memory, size_t size)
     }
     else {
         header->allocated = 0;
-        if (!nextHeader->allocated) {
-            header->length += nextHeader->length + HEADER_SIZE;
-        }
+        merge_with_next(arena, header);
     }
     mtx_unlock(&arena->mutex);
 }
-- 
2.43.0


From 07bf1e686915cf245d2760360d8bb7150296988a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:19 +0000
Subject: [PATCH 05/30] fix: receive, answer and forget datagram clients
 correctly

A datagram whose sender address was shorter than the configured one was decoded
at the wrong offset, runt datagrams and length fields beyond the datagram were
dispatched, responses and events to datagram clients were sent without an
address or to a descriptor made of the checksum of the address, and forgetting
such a client closed that descriptor.
---
 runtime/link/socket/server.c | 41 +++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index 99b58aa..db834f0 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -34,6 +34,7 @@
 struct socket_link_client {
     struct gracht_server_client base;
     struct sockaddr_storage     address;
+    socklen_t                   address_length;
     gracht_conn_t               socket;
     gracht_conn_t               link;
     int                         streaming;
@@ -110,7 +111,13 @@ static int socket_link_send_client(struct socket_link_client* client,
 #endif
 
     GRTRACE(GRSTR("[socket_link_send] sending message"));
-    bytesWritten = send(client->base.handle, &message->data[0], message->index, socketFlags);
+    if (client->streaming) {
+        bytesWritten = send(client->base.handle, &message->data[0], message->index, socketFlags);
+    } else {
+        // connection-less clients share the socket of the link and are identified by their address
+        bytesWritten = sendto(client->socket, &message->data[0], message->index, socketFlags,
+            (const struct sockaddr*)&client->address, client->address_length);
+    }
     if (bytesWritten != message->index) {
         return -1;
     }
@@ -243,6 +250,7 @@ static int socket_link_create_client(struct gracht_link_socket* link, struct gra
 
     address = (struct sockaddr_storage*)&message->payload[0];
     memcpy(&client->address, address, (size_t)link->address_length);
+    client->address_length = link->address_length;
     
     *clientOut = client;
     return 0;
@@ -250,21 +258,21 @@ static int socket_link_create_client(struct gracht_link_socket* link, struct gra
 
 static int socket_link_destroy_client(struct socket_link_client* client, gracht_handle_t set_handle)
 {
-    int status;
+    int status = 0;
     
     if (!client) {
         errno = (EINVAL);
         return -1;
     }
     
-    // remove the client if the client is a streaming one
+    // remove the client if the client is a streaming one, the others do not own a socket
     if (client->streaming) {
         status = socket_aio_remove(set_handle, client->socket);
         if (status) {
             GRWARNING(GRSTR("socket_link_destroy_client failed to remove client socket from set_handle"));
         }
+        status = close(client->base.handle);
     }
-    status = close(client->base.handle);
     free(client);
     return status;
 }
@@ -489,6 +497,9 @@ static int socket_link_recv_packet(struct gracht_link_socket* link,
         return -1;
     }
 #else
+    // the address may be shorter than the space reserved for it
+    memset(&context->payload[0], 0, (size_t)link->address_length);
+
     // Packets are atomic, either the full packet is there, or none is. So avoid
     // the use of MSG_WAITALL here.
     intmax_t bytesRead = (intmax_t)recvfrom(link->base.connection, base, len, 
@@ -499,6 +510,19 @@ static int socket_link_recv_packet(struct gracht_link_socket* link,
         }
         return -1;
     }
+
+    // do not process packets that do not contain the message they announce
+    if (bytesRead < GRACHT_MESSAGE_HEADER_SIZE || 
+        *((uint32_t*)&base[4]) < GRACHT_MESSAGE_HEADER_SIZE || *((uint32_t*)&base[4]) > bytesRead) {
+        GRERROR(GRSTR("socket_link_recv_packet dropped an invalid packet of %li bytes"), (long)bytesRead);
+        errno = (EBADMSG);
+        return -1;
+    }
+
+    // the system reports the length of the address even if it had to truncate it
+    if (addrlen > link->address_length) {
+        addrlen = link->address_length;
+    }
 #endif
 
     addressCrc = crc32_generate((const unsigned char*)&context->payload[0], (size_t)addrlen);
@@ -509,8 +533,8 @@ static int socket_link_recv_packet(struct gracht_link_socket* link,
     // ->server is set by server
     context->link   = link->base.connection;
     context->client = (int)addressCrc;
-    context->index  = addrlen;
-    context->size   = (uint32_t)bytesRead + (uint32_t)addrlen;
+    context->index  = link->address_length;
+    context->size   = (uint32_t)bytesRead + (uint32_t)link->address_length;
 
 #ifdef _WIN32
     // queue up another read
@@ -530,14 +554,15 @@ static int socket_link_send_packet(struct gracht_link_socket* link,
     struct gracht_message* messageContext, struct gracht_buffer* message)
 {
     long bytesWritten;
-    (void)messageContext;
 
     if (link->base.type != gracht_link_packet_based) {
         errno = ENOSYS;
         return -1;
     }
     
-    bytesWritten = (long)send(link->base.connection, &message->data[0], message->index, MSG_WAITALL);
+    // the address of the sender is stored in front of the message
+    bytesWritten = (long)sendto(link->base.connection, &message->data[0], message->index, MSG_WAITALL,
+        (const struct sockaddr*)&messageContext->payload[0], link->address_length);
     if (bytesWritten != message->index) {
         GRERROR(GRSTR("link_server: failed to respond [%li/%i]"), bytesWritten, message->index);
         if (bytesWritten == -1) {
-- 
2.43.0


From be5305d156a36c3f325d115aca28a0f81030cd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:19 +0000
Subject: [PATCH 06/30] fix: release locks and buffers of the server on its
 failure paths

Running out of receive buffers dereferenced NULL or left the client lock held,
unused receive buffers that the arena had rounded up were only partially
released, a message that filled its buffer was released before it was executed,
and a response or event for a client that is gone lost its buffer.
---
 runtime/server.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/runtime/server.c b/runtime/server.c
index 607bcf8..6ae31fa 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -320,10 +320,13 @@ static void dispatch_mt(struct gracht_server* server, struct gracht_message* mes
         server_cleanup_message(server, message);
     }
     else {
-        uint32_t messageLength  = *((uint32_t*)&message->payload[message->index + MSG_INDEX_LEN]);
-        uint32_t metaDatalength = sizeof(struct gracht_message) + message->index;
+        size_t unusedLength = server->allocationSize - GRACHT_MESSAGE_DEFERRABLE_SIZE(message);
 
-        gracht_arena_free(server->arena, message, server->allocationSize - messageLength - metaDatalength);
+        // release the unused part of the buffer, if there is none then freeing
+        // zero bytes would release the entire message
+        if (unusedLength) {
+            gracht_arena_free(server->arena, message, unusedLength);
+        }
         gracht_worker_pool_dispatch(server->worker_pool, message);
     }
 }
@@ -332,6 +335,9 @@ static struct gracht_message* get_in_buffer_mt(struct gracht_server* server)
 {
     struct gracht_message* message;
     message = gracht_arena_allocate(server->arena, NULL, server->allocationSize);
+    if (!message) {
+        return NULL;
+    }
     message->server = server;
     message->index  = server->allocationSize - sizeof(struct gracht_message);
     return message;
@@ -339,7 +345,8 @@ static struct gracht_message* get_in_buffer_mt(struct gracht_server* server)
 
 static void put_message_mt(struct gracht_server* server, struct gracht_message* message)
 {
-    gracht_arena_free(server->arena, message, server->allocationSize);
+    // the allocation can be larger than what was requested
+    gracht_arena_free(server->arena, message, 0);
 }
 
 static int handle_packet(struct gracht_server* server, struct gracht_link* link)
@@ -349,6 +356,11 @@ static int handle_packet(struct gracht_server* server, struct gracht_link* link)
     
     while (1) {
         struct gracht_message* message = server->ops->get_incoming_buffer(server);
+        if (!message) {
+            GRERROR(GRSTR("handle_packet ran out of receiving buffers"));
+            errno = ENOMEM;
+            return -1;
+        }
 
         status = link->ops.server.recv(link, message, 0);
         if (status) {
@@ -394,6 +406,7 @@ static int handle_client_event(struct gracht_server* server, gracht_conn_t handl
             struct gracht_message* message = server->ops->get_incoming_buffer(server);
             if (!message) {
                 GRERROR(GRSTR("handle_client_event ran out of receiving buffers"));
+                rwlock_r_unlock(&server->clients_lock);
                 errno = ENOMEM;
                 return -1;
             }
@@ -646,6 +659,7 @@ int gracht_server_respond(struct gracht_message* messageContext, gracht_buffer_t
         rwlock_r_unlock(&messageContext->server->clients_lock);
         link = get_link_by_conn(messageContext->server, messageContext->link);
         if (!link) {
+            stack_push(&messageContext->server->bufferStack, message->data);
             errno = ENODEV;
             return -1;
         }
@@ -678,6 +692,7 @@ int gracht_server_send_event(gracht_server_t* server, gracht_conn_t client, grac
     clientEntry = gr_hashtable_get(&server->clients, &(struct client_wrapper){ .handle = client });
     if (!clientEntry) {
         rwlock_r_unlock(&server->clients_lock);
+        stack_push(&server->bufferStack, message->data);
         errno = ENOENT;
         return -1;
     }
-- 
2.43.0


From a73c88e868a2fb344bb36f35bdc29dd44d96f47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:19 +0000
Subject: [PATCH 07/30] fix: announce the disconnection of a client only if it
 was connected

---
 runtime/server.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/runtime/server.c b/runtime/server.c
index 6ae31fa..2a7982d 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -798,17 +798,20 @@ void gracht_server_defer_message(struct gracht_message* in, struct gracht_messag
 static void client_destroy(struct gracht_server* server, gracht_conn_t client)
 {
     struct client_wrapper* entry;
-
-    if (server->callbacks.clientDisconnected) {
-        server->callbacks.clientDisconnected(client);
-    }
+    int                    removed = 0;
 
     rwlock_w_lock(&server->clients_lock);
     entry = gr_hashtable_remove(&server->clients, &(struct client_wrapper){ .handle = client });
     if (entry) {
         entry->link->ops.server.destroy_client(entry->client, server->set_handle);
+        removed = 1;
     }
     rwlock_w_unlock(&server->clients_lock);
+
+    // only announce clients that were connected
+    if (removed && server->callbacks.clientDisconnected) {
+        server->callbacks.clientDisconnected(client);
+    }
 }
 
 // Client subscription helpers
-- 
2.43.0


From 7909cf9069a08bc92ddaa0e5e2d61f8baa16ed85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:02 +0000
Subject: [PATCH 08/30] fix: neither lose jobs nor shutdown requests in the
 worker pool

A worker that started or slept at the wrong moment missed the shutdown request
and was joined forever, a spurious wakeup invoked no job at all, a message for a
full queue was dropped without an answer and never released, and workers that
could not be started were joined anyway.
---
 runtime/dispatch_generic.c | 69 ++++++++++++++++++++++++++------------
 1 file changed, 47 insertions(+), 22 deletions(-)

diff --git a/runtime/dispatch_generic.c b/runtime/dispatch_generic.c
index 3f76a4d..5e94609 100644
--- a/runtime/dispatch_generic.c
+++ b/runtime/dispatch_generic.c
@@ -48,11 +48,12 @@ struct gracht_worker_context {
 struct gracht_worker_pool {
     struct gracht_worker* workers;
     int                   worker_count;
+    struct gracht_server* server;
     int                   rr_index; // no loadbalancing atm
 };
 
 static int  worker_dowork(void*);
-static void initialize_worker(struct gracht_server*, struct gracht_worker*);
+static int  initialize_worker(struct gracht_server*, struct gracht_worker*);
 static void cleanup_worker(struct gracht_worker*);
 
 int gracht_worker_pool_create(struct gracht_server* server, int numberOfWorkers, struct gracht_worker_pool** poolOut)
@@ -82,10 +83,17 @@ int gracht_worker_pool_create(struct gracht_server* server, int numberOfWorkers,
     }
 
     pool->workers = workers;
+    pool->server = server;
     pool->worker_count = numberOfWorkers;
     pool->rr_index = 0;
     for (i = 0; i < numberOfWorkers; i++) {
-        initialize_worker(server, &pool->workers[i]);
+        if (initialize_worker(server, &pool->workers[i])) {
+            // stop those that were started
+            pool->worker_count = i;
+            gracht_worker_pool_destroy(pool);
+            errno = ENOMEM;
+            return -1;
+        }
     }
 
     *poolOut = pool;
@@ -103,8 +111,11 @@ void gracht_worker_pool_destroy(struct gracht_worker_pool* pool)
 
     // destroy pool of workers
     for (i = 0; i < pool->worker_count; i++) {
+        // the request must be made while holding the lock, otherwise the worker can miss it
+        mtx_lock(&pool->workers[i].sync_object);
         pool->workers[i].state = WORKER_SHUTDOWN_REQUEST;
         cnd_signal(&pool->workers[i].signal);
+        mtx_unlock(&pool->workers[i].sync_object);
 
         // wait for cleanup
         thrd_join(pool->workers[i].id, &exitCode);
@@ -119,6 +130,7 @@ void gracht_worker_pool_destroy(struct gracht_worker_pool* pool)
 void gracht_worker_pool_dispatch(struct gracht_worker_pool* pool, struct gracht_message* recvMessage)
 {
     struct gracht_worker* worker;
+    int                   status;
 
     if (!pool || !recvMessage) {
         return;
@@ -126,9 +138,15 @@ void gracht_worker_pool_dispatch(struct gracht_worker_pool* pool, struct gracht_
 
     worker = &pool->workers[pool->rr_index];
     mtx_lock(&worker->sync_object);
-    gr_queue_enqueue(&worker->job_queue, recvMessage);
-    mtx_unlock(&worker->sync_object);
+    status = gr_queue_enqueue(&worker->job_queue, recvMessage);
     cnd_signal(&worker->signal);
+    mtx_unlock(&worker->sync_object);
+
+    // the worker is falling behind, do not lose the message but handle it here
+    if (status) {
+        server_invoke_action(pool->server, recvMessage);
+        server_cleanup_message(pool->server, recvMessage);
+    }
 
     // increase round robin index and handle limit
     pool->rr_index++;
@@ -137,27 +155,34 @@ void gracht_worker_pool_dispatch(struct gracht_worker_pool* pool, struct gracht_
     }
 }
 
-static void initialize_worker(struct gracht_server* server, struct gracht_worker* worker)
+static int initialize_worker(struct gracht_server* server, struct gracht_worker* worker)
 {
     struct gracht_worker_context* context;
 
     context = malloc(sizeof(struct gracht_worker_context));
     if (!context) {
         GRERROR(GRSTR("initialize_worker: failed to allocate memory for worker context"));
-        return;
+        return -1;
     }
 
     context->worker = worker;
     context->server = server;
 
-    gr_queue_construct(&worker->job_queue, SERVER_WORKER_DEFAULT_QUEUE_SIZE);
+    if (gr_queue_construct(&worker->job_queue, SERVER_WORKER_DEFAULT_QUEUE_SIZE)) {
+        free(context);
+        return -1;
+    }
     mtx_init(&worker->sync_object, mtx_plain);
     cnd_init(&worker->signal);
     worker->state = WORKER_STARTUP;
 
     if (thrd_create(&worker->id, worker_dowork, context) != thrd_success) {
         GRERROR(GRSTR("initialize_worker: failed to create worker-thread"));
+        cleanup_worker(worker);
+        free(context);
+        return -1;
     }
+    return 0;
 }
 
 static void cleanup_worker(struct gracht_worker* worker)
@@ -175,20 +200,26 @@ static int worker_dowork(void* context)
     GRTRACE(GRSTR("worker_dowork: running"));
 
     worker = workerContext->worker;
-    worker->state = WORKER_ALIVE;
+    mtx_lock(&worker->sync_object);
+    if (worker->state == WORKER_STARTUP) {
+        worker->state = WORKER_ALIVE;
+    }
+    mtx_unlock(&worker->sync_object);
     while (1) {
+        job = NULL;
         mtx_lock(&worker->sync_object);
-        job = gr_queue_dequeue(&worker->job_queue);
-        if (!job) {
-            cnd_wait(&worker->signal, &worker->sync_object);
-            if (worker->state == WORKER_SHUTDOWN_REQUEST) {
-                worker->state = WORKER_SHUTDOWN;
-                mtx_unlock(&worker->sync_object);
+        while (worker->state != WORKER_SHUTDOWN_REQUEST) {
+            job = gr_queue_dequeue(&worker->job_queue);
+            if (job) {
                 break;
             }
+            cnd_wait(&worker->signal, &worker->sync_object);
+        }
 
-            job = gr_queue_dequeue(&worker->job_queue);
-            // assert(job_header != NULL);
+        if (!job) {
+            worker->state = WORKER_SHUTDOWN;
+            mtx_unlock(&worker->sync_object);
+            break;
         }
         mtx_unlock(&worker->sync_object);
 
@@ -196,12 +227,6 @@ static int worker_dowork(void* context)
         GRTRACE(GRSTR("worker_dowork: handling message"));
         server_invoke_action(workerContext->server, job);
         server_cleanup_message(workerContext->server, job);
-
-        // check again at exit of iteration
-        if (worker->state == WORKER_SHUTDOWN_REQUEST) {
-            worker->state = WORKER_SHUTDOWN;
-            break;
-        }
     }
     GRTRACE(GRSTR("worker_dowork: shutting down"));
 
-- 
2.43.0


From b4b1a8fa90c7f965454aa3403d58b48e879f5625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:02 +0000
Subject: [PATCH 09/30] fix: release what a failed server or link setup had
 acquired

---
 runtime/link/socket/server.c | 6 ++++++
 runtime/server.c             | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index db834f0..6044b79 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -296,6 +296,8 @@ static gracht_conn_t socket_link_setup(struct gracht_link_socket* link, gracht_h
         status = bind(link->base.connection,
             (const struct sockaddr*)&link->address, link->address_length);
         if (status) {
+            close(link->base.connection);
+            link->base.connection = GRACHT_CONN_INVALID;
             return GRACHT_CONN_INVALID;
         }
         
@@ -335,12 +337,16 @@ static gracht_conn_t socket_link_setup(struct gracht_link_socket* link, gracht_h
         status = bind(link->base.connection,
             (const struct sockaddr*)&link->address, link->address_length);
         if (status) {
+            close(link->base.connection);
+            link->base.connection = GRACHT_CONN_INVALID;
             return GRACHT_CONN_INVALID;
         }
         
         // Enable listening for connections, with a maximum of 2 on backlog
         status = listen(link->base.connection, 2);
         if (status) {
+            close(link->base.connection);
+            link->base.connection = GRACHT_CONN_INVALID;
             return GRACHT_CONN_INVALID;
         }
         
diff --git a/runtime/server.c b/runtime/server.c
index 2a7982d..e4b69c4 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -146,6 +146,12 @@ int gracht_server_create(gracht_server_configuration_t* config, gracht_server_t*
     status = configure_server(server, config);
     if (status) {
         GRERROR(GRSTR("gracht_server_start: invalid configuration provided"));
+        if (server->worker_pool) {
+            gracht_worker_pool_destroy(server->worker_pool);
+        }
+        if (server->set_handle != GRACHT_HANDLE_INVALID && !server->set_handle_provided) {
+            gracht_aio_destroy(server->set_handle);
+        }
         free(server);
         return -1;
     }
-- 
2.43.0


From f253dc92fe3ecf401984d66047e2afed239da55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:08 +0000
Subject: [PATCH 10/30] fix: bound messages received by the client by its
 receive buffer

The length announced by the server was not checked against the buffer, a header
that arrived in pieces was dropped when polling, having no message was reported
as a broken connection, and the space for a datagram underflowed when the
address was larger than a message.
---
 runtime/link/socket/client.c | 46 ++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/runtime/link/socket/client.c b/runtime/link/socket/client.c
index 79c1dbd..9ab94a7 100644
--- a/runtime/link/socket/client.c
+++ b/runtime/link/socket/client.c
@@ -47,18 +47,34 @@ static int socket_link_send_stream(struct gracht_link_socket* link,
 static int socket_link_recv_stream(struct gracht_link_socket* link,
     struct gracht_buffer* message, unsigned int flags)
 {
-    size_t   bytesRead;
+    intmax_t bytesRead;
     uint32_t missingData;
     
     GRTRACE(GRSTR("[gracht_connection_recv_stream] reading message header"));
     bytesRead = recv(link->base.connection, &message->data[0], GRACHT_MESSAGE_HEADER_SIZE, flags);
-    if (bytesRead != GRACHT_MESSAGE_HEADER_SIZE) {
+    if (bytesRead <= 0) {
         if (bytesRead == 0) {
             errno = (ENODATA);
         }
-        else {
+        return -1;
+    }
+
+    if (bytesRead != GRACHT_MESSAGE_HEADER_SIZE) {
+        // the header was only partially available, wait for the rest of it to arrive
+        missingData = GRACHT_MESSAGE_HEADER_SIZE - (uint32_t)bytesRead;
+        bytesRead   = recv(link->base.connection, &message->data[bytesRead], missingData, MSG_WAITALL);
+        if (bytesRead != missingData) {
             errno = (EPIPE);
+            return -1;
         }
+    }
+
+    // the length is supplied by the peer, it must cover the header and may not exceed
+    // the capacity of the buffer
+    if (*((uint32_t*)&message->data[4]) < GRACHT_MESSAGE_HEADER_SIZE ||
+        *((uint32_t*)&message->data[4]) > message->index) {
+        GRERROR(GRSTR("[gracht_connection_recv_stream] invalid message length %u"), *((uint32_t*)&message->data[4]));
+        errno = (EPIPE);
         return -1;
     }
     
@@ -97,27 +113,27 @@ static int socket_link_send_packet(struct gracht_link_socket* link, struct grach
 
 static int socket_link_recv_packet(struct gracht_link_socket* link, struct gracht_buffer* message, unsigned int flags)
 {
-    socklen_t addrlen = link->address_length;
-    char*     base    = &message->data[addrlen];
-    size_t    len     = message->index - addrlen;
-    long      bytes_read;
-    
-    message->index = addrlen;
+    long bytes_read;
     
     // Packets are atomic, either the full packet is there, or none is. So avoid
     // the use of MSG_WAITALL here.
     GRTRACE(GRSTR("[gracht_connection_recv_stream] reading full message"));
-    bytes_read = (long)recvfrom(link->base.connection, base, len, flags, 
-        (struct sockaddr*)&message->data[0], &addrlen);
-    if (bytes_read < GRACHT_MESSAGE_HEADER_SIZE) {
+    bytes_read = (long)recv(link->base.connection, &message->data[0], message->index, flags);
+    if (bytes_read <= 0) {
         if (bytes_read == 0) {
             errno = (ENODATA);
         }
-        else {
-            errno = (EPIPE);
-        }
         return -1;
     }
+
+    // do not process packets that do not contain the message they announce
+    if (bytes_read < GRACHT_MESSAGE_HEADER_SIZE ||
+        *((uint32_t*)&message->data[4]) < GRACHT_MESSAGE_HEADER_SIZE || *((uint32_t*)&message->data[4]) > bytes_read) {
+        errno = (EBADMSG);
+        return -1;
+    }
+
+    message->index = 0;
     return 0;
 }
 
-- 
2.43.0


From 2043447a1177107544ec1ef608b44855b0e7ce33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:25 +0000
Subject: [PATCH 11/30] fix: pair responses, results and awaiters of the client
 reliably

Asking for the result of a call that was in progress discarded the call, a
second or unexpected response leaked its buffer, waiting for one call returned
after an unrelated event, awaiting any call waited for all of them and span
forever on a broken connection, and threads that shared a client could miss the
response they waited for or use an awaiter that was already released.
---
 runtime/client.c | 296 ++++++++++++++++++++++++++++-------------------
 1 file changed, 174 insertions(+), 122 deletions(-)

diff --git a/runtime/client.c b/runtime/client.c
index 841eaa6..81ab5cd 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -213,6 +213,12 @@ static int __handle_response(
         return -1;
     }
 
+    // only accept the first response
+    if (descriptor->status != GRACHT_MESSAGE_INPROGRESS) {
+        mtx_unlock(&client->messages_lock);
+        return -1;
+    }
+
     // copy data over to message, but increase index, so it skips the meta-data
     descriptor->buffer.data  = buffer->data;
     descriptor->buffer.index = buffer->index + GRACHT_MESSAGE_HEADER_SIZE;
@@ -225,116 +231,156 @@ static int __handle_response(
     return 0;
 }
 
-int gracht_client_wait_message(
-        gracht_client_t*               client,
-        struct gracht_message_context* context,
-        unsigned int                   flags)
+// counts how many of the messages are no longer in progress
+static int __count_executed(
+        gracht_client_t*                client,
+        struct gracht_message_context** contexts,
+        int                             contextCount)
+{
+    int executed = 0;
+
+    mtx_lock(&client->messages_lock);
+    for (int i = 0; i < contextCount; i++) {
+        struct gracht_message_descriptor* descriptor = gr_hashtable_get(
+                &client->messages,
+                &(struct gracht_message_descriptor) {
+                        .id = contexts[i]->message_id
+                }
+        );
+        if (descriptor == NULL || MESSAGE_STATUS_EXECUTED(descriptor->status)) {
+            executed++;
+        }
+    }
+    mtx_unlock(&client->messages_lock);
+    return executed;
+}
+
+// Handles incoming messages untill <required> of the contexts have been executed, or if no contexts
+// are provided, untill a message has been handled.
+static int __wait_for_messages(
+        gracht_client_t*                client,
+        struct gracht_message_context** contexts,
+        int                             contextCount,
+        int                             required,
+        unsigned int                    flags)
 {
     struct gracht_buffer buffer = { 0 };
-    uint32_t             messageId = 0;
     uint8_t              messageFlags;
     int                  status;
-    GRTRACE(GRSTR("gracht_client_wait_message()"));
-
-    if (!client) {
-        errno = (EINVAL);
-        return -1;
-    }
+    int                  handled;
 
     // We must acquire hold of the client mutex as the mutex must be thread-safe in case
     // of multiple calling threads. Only one thread can listen for client events at a time, and that
     // means all other threads must queue up and wait for the thread that listens currently.
-listenForMessage:
-    // check message status
-    if (context) {
-        struct gracht_message_descriptor* descriptor;
+    while (1) {
+        if (contextCount && __count_executed(client, contexts, contextCount) >= required) {
+            return 0;
+        }
 
-        mtx_lock(&client->messages_lock);
-        descriptor = gr_hashtable_get(
-                &client->messages,
-                &(struct gracht_message_descriptor) {
-                        .id = context->message_id
-                }
-        );
-        if (!descriptor) {
-            mtx_unlock(&client->messages_lock);
-            errno = ENOENT;
-            return -1;
+        if (mtx_trylock(&client->wait_lock) != thrd_success) {
+            if (!(flags & GRACHT_MESSAGE_BLOCK)) {
+                errno = EBUSY;
+                return -1;
+            }
+
+            if (mtx_lock(&client->wait_lock) != thrd_success) {
+                return -1;
+            }
         }
-        if (descriptor->status != GRACHT_MESSAGE_INPROGRESS) {
-            mtx_unlock(&client->messages_lock);
+
+        // the thread that listened before us could have received what we wait for
+        if (contextCount && __count_executed(client, contexts, contextCount) >= required) {
+            mtx_unlock(&client->wait_lock);
             return 0;
         }
-        mtx_unlock(&client->messages_lock);
-    }
 
-    if (mtx_trylock(&client->wait_lock) != thrd_success) {
-        if (!(flags & GRACHT_MESSAGE_BLOCK)) {
-            errno = EBUSY;
+        buffer.data = gracht_arena_allocate(client->arena, NULL, client->max_message_size);
+        buffer.index = client->max_message_size;
+        if (!buffer.data) {
+            mtx_unlock(&client->wait_lock);
+            // out of memory. client should handle messages
+            errno = ENOMEM;
             return -1;
         }
 
-        if (mtx_lock(&client->wait_lock) != thrd_success) {
-            return -1;
+        status = client->link->ops.client.recv(client->link, &buffer, flags);
+        if (status) {
+            // In case of any recieving errors we must exit immediately
+            gracht_arena_free(client->arena, buffer.data, 0);
+            mtx_unlock(&client->wait_lock);
+            return status;
         }
-    }
-
-    // initialize buffer, after this point NO returning, only jump to listenOrExit
-    buffer.data = gracht_arena_allocate(client->arena, NULL, client->max_message_size);
-    buffer.index = client->max_message_size;
 
-    if (!buffer.data) {
+        messageFlags = GB_MSG_FLG(&buffer);
+        handled = 1;
+
+        // If the message is not an event, then do not invoke any actions. Responses must be handled before
+        // allowing other threads to listen, as they check whether it was received already.
+        GRTRACE(GRSTR("[gracht] [client] message received %u - %u:%u"),
+                messageFlags, GB_MSG_SID(&buffer), GB_MSG_AID(&buffer));
+        if (MESSAGE_FLAG_TYPE(messageFlags) == MESSAGE_FLAG_RESPONSE) {
+            if (__handle_response(client, &buffer)) {
+                // no-one waits for the response
+                handled = 0;
+            } else {
+                // zero the buffer pointer, so it does not get freed, freeing is now handled by
+                // the awaiter
+                buffer.data = NULL;
+            }
+        }
         mtx_unlock(&client->wait_lock);
-        // out of memory. client should handle messages
-        errno = ENOMEM;
-        status = -1;
-        goto listenOrExit;
-    }
-
-    status = client->link->ops.client.recv(client->link, &buffer, flags);
-    mtx_unlock(&client->wait_lock);
-    if (status) {
-        // In case of any recieving errors we must exit immediately
-        goto listenOrExit;
-    }
-
-    messageFlags = GB_MSG_FLG(&buffer);
 
-    // If the message is not an event, then do not invoke any actions. In any case if a context is provided
-    // we expect the caller wanting to listen for that specific message. That means any incoming event and/or
-    // response we recieve should be for that, or we should keep waiting.
-    GRTRACE(GRSTR("[gracht] [client] message received %u - %u:%u"),
-            messageFlags, GB_MSG_SID(&buffer), GB_MSG_AID(&buffer));
-    if (MESSAGE_FLAG_TYPE(messageFlags) == MESSAGE_FLAG_EVENT) {
-        status = __invoke_action(client, &buffer);
-    } else if (MESSAGE_FLAG_TYPE(messageFlags) == MESSAGE_FLAG_RESPONSE) {
-        status = __handle_response(client, &buffer);
-        if (status) {
-            goto listenForMessage;
+        if (MESSAGE_FLAG_TYPE(messageFlags) == MESSAGE_FLAG_EVENT) {
+            char* data = buffer.data;
+            if (__invoke_action(client, &buffer)) {
+                // events that are not supported are ignored
+                handled = 0;
+            }
+            buffer.data = data;
         }
 
-        // set message id handled
-        messageId = GB_MSG_ID(&buffer);
+        if (buffer.data) {
+            gracht_arena_free(client->arena, buffer.data, 0);
+        }
 
-        // zero the buffer pointer, so it does not get freed, freeing is now handled by
-        // the awaiter
-        buffer.data = NULL;
+        if (handled && !contextCount) {
+            return 0;
+        }
     }
+}
 
-listenOrExit:
-    if (buffer.data) {
-        gracht_arena_free(client->arena, buffer.data, 0);
+int gracht_client_wait_message(
+        gracht_client_t*               client,
+        struct gracht_message_context* context,
+        unsigned int                   flags)
+{
+    GRTRACE(GRSTR("gracht_client_wait_message()"));
+
+    if (!client) {
+        errno = (EINVAL);
+        return -1;
     }
 
+    // In case a context was provided the meaning is that we should wait
+    // for a specific message.
     if (context) {
-        // In case a context was provided the meaning is that we should wait
-        // for a specific message. Make sure that the message we've handled were
-        // the one that was requested.
-        if (messageId != 0 && context->message_id != messageId) {
-            goto listenForMessage;
+        struct gracht_message_descriptor* descriptor;
+
+        mtx_lock(&client->messages_lock);
+        descriptor = gr_hashtable_get(
+                &client->messages,
+                &(struct gracht_message_descriptor) {
+                        .id = context->message_id
+                }
+        );
+        mtx_unlock(&client->messages_lock);
+        if (!descriptor) {
+            errno = ENOENT;
+            return -1;
         }
+        return __wait_for_messages(client, &context, 1, 1, flags);
     }
-    return status;
+    return __wait_for_messages(client, NULL, 0, 0, flags);
 }
 
 static struct gracht_message_awaiter* __awaiter_new(
@@ -358,6 +404,11 @@ static struct gracht_message_awaiter* __awaiter_new(
     return awaiter;
 }
 
+static inline bool __awaiter_is_done(struct gracht_message_awaiter* awaiter)
+{
+    return (!(awaiter->flags & GRACHT_AWAIT_ALL) && awaiter->current_count > 0) || awaiter->current_count >= awaiter->count;
+}
+
 static inline void __await_add(
         gracht_client_t*               client,
         struct gracht_message_awaiter* awaiter)
@@ -381,32 +432,6 @@ static inline void __await_remove(
     mtx_unlock(&client->awaiters_lock);
 }
 
-static inline void __await_loop(
-        gracht_client_t*                client,
-        struct gracht_message_context** contexts,
-        struct gracht_message_awaiter*  awaiter)
-{
-    while (awaiter->current_count < awaiter->count) {
-        gracht_client_wait_message(client, NULL, GRACHT_MESSAGE_BLOCK);
-
-        // update status
-        mtx_lock(&client->messages_lock);
-        awaiter->current_count = 0;
-        for (int i = 0; i < awaiter->count; i++) {
-            struct gracht_message_descriptor* descriptor = gr_hashtable_get(
-                    &client->messages,
-                    &(struct gracht_message_descriptor) {
-                            .id = contexts[i]->message_id
-                    }
-            );
-            if (descriptor == NULL || MESSAGE_STATUS_EXECUTED(descriptor->status)) {
-                awaiter->current_count++;
-            }
-        }
-        mtx_unlock(&client->messages_lock);
-    }
-}
-
 int gracht_client_await_multiple(
         gracht_client_t*                client,
         struct gracht_message_context** contexts,
@@ -415,6 +440,7 @@ int gracht_client_await_multiple(
 {
     struct gracht_message_awaiter* awaiter;
     int                            i;
+    int                            status = 0;
     bool                           bail;
     GRTRACE(GRSTR("gracht_client_await_multiple()"));
     
@@ -453,7 +479,7 @@ int gracht_client_await_multiple(
 
     // calculate here whether we can bail early, so we can skip time
     // not adding the awaiter
-    bail = (!(flags & GRACHT_AWAIT_ALL) && awaiter->current_count > 0) || awaiter->current_count == awaiter->count;
+    bail = __awaiter_is_done(awaiter);
 
     // add the awaiter while we hold the message lock to avoid a data-race
     // between those
@@ -471,19 +497,24 @@ int gracht_client_await_multiple(
     // and thus we should just use the awaiter
     if (flags & GRACHT_AWAIT_ASYNC) {
         mtx_lock(&awaiter->mutex);
-        cnd_wait(&awaiter->event, &awaiter->mutex);
+        while (!__awaiter_is_done(awaiter)) {
+            cnd_wait(&awaiter->event, &awaiter->mutex);
+        }
         mtx_unlock(&awaiter->mutex);
     } else {
         // otherwise we are a single threaded application (maybe) and we should also
         // handle the pumping of messages.
-        __await_loop(client, contexts, awaiter);
+        status = __wait_for_messages(client, contexts, contextCount,
+            (flags & GRACHT_AWAIT_ALL) ? contextCount : 1, GRACHT_MESSAGE_BLOCK);
     }
     __await_remove(client, awaiter);
 
 cleanup:
     // cleanup the awaiter
+    cnd_destroy(&awaiter->event);
+    mtx_destroy(&awaiter->mutex);
     free(awaiter);
-    return 0;
+    return status;
 }
 
 int gracht_client_await(gracht_client_t* client, struct gracht_message_context* context, unsigned int flags)
@@ -521,7 +552,7 @@ int gracht_client_get_status_buffer(
     
     // guard against already checked
     mtx_lock(&client->messages_lock);
-    descriptor = gr_hashtable_remove(
+    descriptor = gr_hashtable_get(
             &client->messages,
             &(struct gracht_message_descriptor) {
                     .id = context->message_id
@@ -532,16 +563,28 @@ int gracht_client_get_status_buffer(
         errno = (ENOENT);
         return -1;
     }
+
+    // keep the message untill its result is available
+    if (descriptor->status == GRACHT_MESSAGE_INPROGRESS) {
+        mtx_unlock(&client->messages_lock);
+        return GRACHT_MESSAGE_INPROGRESS;
+    }
     
     status = descriptor->status;
     buffer->data = descriptor->buffer.data;
     buffer->index = descriptor->buffer.index;
+    gr_hashtable_remove(
+            &client->messages,
+            &(struct gracht_message_descriptor) {
+                    .id = context->message_id
+            }
+    );
     mtx_unlock(&client->messages_lock);
 
     // immediately cleanup the buffer if an error has ocurred
-    if (descriptor->status == GRACHT_MESSAGE_ERROR) {
-        if (descriptor->buffer.data) {
-            gracht_arena_free(client->arena, descriptor->buffer.data, 0);
+    if (status == GRACHT_MESSAGE_ERROR) {
+        if (buffer->data) {
+            gracht_arena_free(client->arena, buffer->data, 0);
         }
     }
     return status;
@@ -731,17 +774,16 @@ static void mark_awaiters(gracht_client_t* client, uint32_t awaiterID)
         mtx_unlock(&client->awaiters_lock);
         return;
     }
-    awaiter = entry->awaiter;
-    mtx_unlock(&client->awaiters_lock);
 
+    // the awaiter may only be used while holding the lock, it is freed after it has been removed
+    awaiter = entry->awaiter;
+    mtx_lock(&awaiter->mutex);
     awaiter->current_count++;
-    if (awaiter->flags & GRACHT_AWAIT_ALL) {
-        if (awaiter->current_count == awaiter->count) {
-            cnd_signal(&awaiter->event);
-        }
-    } else {
+    if (__awaiter_is_done(awaiter)) {
         cnd_signal(&awaiter->event);
     }
+    mtx_unlock(&awaiter->mutex);
+    mtx_unlock(&client->awaiters_lock);
 }
 
 static uint32_t get_message_id(gracht_client_t* client)
@@ -751,7 +793,11 @@ static uint32_t get_message_id(gracht_client_t* client)
 
 static uint32_t get_awaiter_id(gracht_client_t* client)
 {
-    return client->current_awaiter_id++;
+    uint32_t id;
+    mtx_lock(&client->awaiters_lock);
+    id = client->current_awaiter_id++;
+    mtx_unlock(&client->awaiters_lock);
+    return id;
 }
 
 void gracht_control_error_invocation(gracht_client_t* client, const uint32_t messageId, const int errorCode)
@@ -774,6 +820,12 @@ void gracht_control_error_invocation(gracht_client_t* client, const uint32_t mes
         return;
     }
     
+    // a message that has been executed can't fail anymore
+    if (descriptor->status != GRACHT_MESSAGE_INPROGRESS) {
+        mtx_unlock(&client->messages_lock);
+        return;
+    }
+
     // set status
     descriptor->status = GRACHT_MESSAGE_ERROR;
     awaiterID = descriptor->awaiter_id;
-- 
2.43.0


From 7362a09aed1bd25eae3fb8b28a96af7fb1cfff51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:00 +0000
Subject: [PATCH 12/30] fix: generate usable code for variant members that are
 not structures

---
 generator/languages/langc.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index 85d2960..6f9fe0e 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -530,10 +530,14 @@ def write_struct_member_deserializer(service: ServiceObject, prefix, struct, mem
     if member.get_is_variable():
         write_variable_struct_member_deserializer(service, member, outfile)
     elif typename.lower() == "string":
+        outfile.writeln("{")
+        outfile.indent_inc()
         outfile.writeln(f"uint32_t _{name}_length = *((uint32_t*)&buffer->data[buffer->index]);")
-        outfile.writeln(f"out->{name} = malloc(_{name}_length + 1);")
-        outfile.writeln(f"assert(out->{name} != NULL);")
+        outfile.writeln(f"out->{prefix}{name} = malloc(_{name}_length + 1);")
+        outfile.writeln(f"assert(out->{prefix}{name} != NULL);")
         outfile.writeln(f"deserialize_string_copy(buffer, &out->{prefix}{name}[0], 0);")
+        outfile.indent_dec()
+        outfile.writeln("}")
     elif service.typename_is_struct(typename):
         struct_type = service.lookup_struct(typename)
         struct_name = get_scoped_name(struct_type)
@@ -897,15 +901,11 @@ def write_structure_variant_member_functions(service: ServiceObject, struct: Str
             struct_type = service.lookup_struct(entry.get_typename())
             member_name = get_scoped_name(struct_type)
             outfile.writeln(f"{member_name}_copy({entry.get_name()}, &in->{variant.get_name()}.{entry.get_name()});")
-            outfile.writeln(f"in->{variant.get_name()}_type = {get_variant_enum_name(struct, variant, entry)};")
         elif entry.get_typename() == "string":
-            outfile.writeln(f"if ({entry.get_typename()} != NULL) {{")
-            outfile.indent_inc()
-            outfile.writeln(f"in->{variant.get_name()}.{entry.get_name()} = strdup({entry.get_typename()});")
-            outfile.indent_dec()
-            outfile.writeln("}")
+            outfile.writeln(f"in->{variant.get_name()}.{entry.get_name()} = {entry.get_name()} != NULL ? strdup({entry.get_name()}) : NULL;")
         else:
-            outfile.writeln(f"in->{variant.get_name()}.{entry.get_name()} = {entry.get_typename()};")
+            outfile.writeln(f"in->{variant.get_name()}.{entry.get_name()} = {entry.get_name()};")
+        outfile.writeln(f"in->{variant.get_name()}_type = {get_variant_enum_name(struct, variant, entry)};")
         outfile.indent_dec()
         outfile.writeln("}")
         outfile.writeln("")
-- 
2.43.0


From 07db7d6eed04240430a95aa00ea04fcd6683158b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:00 +0000
Subject: [PATCH 13/30] fix: copy all bytes of array members in the generated
 copy functions

---
 generator/languages/langc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index 6f9fe0e..42661be 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -1046,7 +1046,7 @@ def write_structure_copy_function_members(service: ServiceObject, prefix, struct
             outfile.indent_dec()
             outfile.writeln("}")
         else:
-            outfile.writeln(f"memcpy(out->{prefix}{member.get_name()}, in->{prefix}{member.get_name()}, in->{prefix}{member.get_name()}_count);")
+            outfile.writeln(f"memcpy(out->{prefix}{member.get_name()}, in->{prefix}{member.get_name()}, sizeof({get_c_typename(service, member.get_typename())}) * in->{prefix}{member.get_name()}_count);")
         outfile.indent_dec()
         outfile.writeln("} else {")
         outfile.indent_inc()
-- 
2.43.0


From 291156bc72b26f93dadedee2103dc5b0c9f7f8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:00 +0000
Subject: [PATCH 14/30] fix: keep results that do not fit the caller's buffers
 inside them and skip the rest

---
 generator/languages/langc.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index 42661be..876a46d 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -484,12 +484,22 @@ def write_variable_member_deserializer(service: ServiceObject, member, outfile:
     name = member.get_name()
     outfile.writeln("__count = deserialize_uint32(&__buffer);")
     if service.typename_is_struct(typename):
-        outfile.writeln(f"for (uint32_t __i = 0; __i < GRMIN(__count, {name}_count); __i++) {{")
+        outfile.writeln("for (uint32_t __i = 0; __i < __count; __i++) {")
         outfile.indent_inc()
         struct_type = service.lookup_struct(typename)
         struct_name = get_scoped_name(struct_type)
+        outfile.writeln(f"if (__i < {name}_count) {{")
+        outfile.indent_inc()
         outfile.writeln(f"deserialize_{struct_name}(&__buffer, &{name}_out[__i]);")
         outfile.indent_dec()
+        outfile.writeln("} else {")
+        outfile.indent_inc()
+        outfile.writeln(f"{get_scoped_typename(struct_type)} __skipped;")
+        outfile.writeln(f"deserialize_{struct_name}(&__buffer, &__skipped);")
+        outfile.writeln(f"{struct_name}_destroy(&__skipped);")
+        outfile.indent_dec()
+        outfile.writeln("}")
+        outfile.indent_dec()
         outfile.writeln("}")
     elif typename.lower() == "string":
         outfile.writeln(f"for (uint32_t __i = 0; __i < GRMIN(__count, {name}_max_length); __i++) {{")
@@ -535,7 +545,7 @@ def write_struct_member_deserializer(service: ServiceObject, prefix, struct, mem
         outfile.writeln(f"uint32_t _{name}_length = *((uint32_t*)&buffer->data[buffer->index]);")
         outfile.writeln(f"out->{prefix}{name} = malloc(_{name}_length + 1);")
         outfile.writeln(f"assert(out->{prefix}{name} != NULL);")
-        outfile.writeln(f"deserialize_string_copy(buffer, &out->{prefix}{name}[0], 0);")
+        outfile.writeln(f"deserialize_string_copy(buffer, &out->{prefix}{name}[0], _{name}_length + 1);")
         outfile.indent_dec()
         outfile.writeln("}")
     elif service.typename_is_struct(typename):
@@ -745,11 +755,13 @@ static inline void serialize_string(gracht_buffer_t* buffer, const char* string)
 
 static inline void deserialize_string_copy(gracht_buffer_t* buffer, char* out, uint32_t maxLength) {
     uint32_t length = *((uint32_t*)&buffer->data[buffer->index]);
-    uint32_t clampedLength = GRMIN(length, maxLength - 1);
-    if (clampedLength > 0) {
-        memcpy(out, &buffer->data[buffer->index + sizeof(uint32_t)], clampedLength);
+    if (maxLength > 0) {
+        uint32_t clampedLength = GRMIN(length, maxLength - 1);
+        if (clampedLength > 0) {
+            memcpy(out, &buffer->data[buffer->index + sizeof(uint32_t)], clampedLength);
+        }
+        out[clampedLength] = 0;
     }
-    out[clampedLength] = 0;
     buffer->index += sizeof(uint32_t) + length + 1;
 }
 
-- 
2.43.0


From f71034cff229143a8442e48b56493b6c333038a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:12 +0000
Subject: [PATCH 15/30] fix: let threads waiting for the listening thread of
 the client see their answers

---
 include/thread_api.h |  7 ++++
 runtime/client.c     | 98 ++++++++++++++++++++++++++++++--------------
 2 files changed, 75 insertions(+), 30 deletions(-)

diff --git a/include/thread_api.h b/include/thread_api.h
index e50074a..fca301e 100644
--- a/include/thread_api.h
+++ b/include/thread_api.h
@@ -56,6 +56,7 @@ typedef pthread_t thrd_t;
 #define cnd_destroy   pthread_cond_destroy
 #define cnd_wait      pthread_cond_wait
 #define cnd_signal    pthread_cond_signal
+#define cnd_broadcast pthread_cond_broadcast
 
 #define thrd_join(thr, ret)          pthread_join(thr, (void**)ret)
 #define thrd_create(thrp, func, arg) pthread_create(thrp, NULL, func, arg)
@@ -109,6 +110,12 @@ static inline int cnd_signal(cnd_t* cnd)
     return thrd_success;
 }
 
+static inline int cnd_broadcast(cnd_t* cnd)
+{
+    WakeAllConditionVariable(cnd);
+    return thrd_success;
+}
+
 static inline int cnd_wait(cnd_t* cnd, mtx_t* mtx)
 {
     BOOL status = SleepConditionVariableCS(cnd, mtx, INFINITE);
diff --git a/runtime/client.c b/runtime/client.c
index 81ab5cd..c063347 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -77,6 +77,8 @@ typedef struct gracht_client {
     gr_hashtable_t       awaiters;
     mtx_t                awaiters_lock;
     mtx_t                wait_lock;
+    cnd_t                wait_event;
+    int                  listening;
 } gracht_client_t;
 
 #define MESSAGE_STATUS_EXECUTED(status) (status == GRACHT_MESSAGE_ERROR || status == GRACHT_MESSAGE_COMPLETED)
@@ -255,6 +257,47 @@ static int __count_executed(
     return executed;
 }
 
+// Becomes the thread that listens for messages. While another thread listens this waits untill that thread
+// has handled a message. Returns 1 if <required> of the contexts have been executed already.
+static int __start_listening(
+        gracht_client_t*                client,
+        struct gracht_message_context** contexts,
+        int                             contextCount,
+        int                             required,
+        unsigned int                    flags)
+{
+    mtx_lock(&client->wait_lock);
+    while (1) {
+        if (contextCount && __count_executed(client, contexts, contextCount) >= required) {
+            mtx_unlock(&client->wait_lock);
+            return 1;
+        }
+
+        if (!client->listening) {
+            break;
+        }
+
+        if (!(flags & GRACHT_MESSAGE_BLOCK)) {
+            mtx_unlock(&client->wait_lock);
+            errno = EBUSY;
+            return -1;
+        }
+        cnd_wait(&client->wait_event, &client->wait_lock);
+    }
+    client->listening = 1;
+    mtx_unlock(&client->wait_lock);
+    return 0;
+}
+
+// Allows other threads to listen, and lets those that wait see what has been received.
+static void __stop_listening(gracht_client_t* client)
+{
+    mtx_lock(&client->wait_lock);
+    client->listening = 0;
+    cnd_broadcast(&client->wait_event);
+    mtx_unlock(&client->wait_lock);
+}
+
 // Handles incoming messages untill <required> of the contexts have been executed, or if no contexts
 // are provided, untill a message has been handled.
 static int __wait_for_messages(
@@ -265,39 +308,24 @@ static int __wait_for_messages(
         unsigned int                    flags)
 {
     struct gracht_buffer buffer = { 0 };
+    struct gracht_buffer event;
     uint8_t              messageFlags;
+    bool                 isControl;
     int                  status;
     int                  handled;
 
-    // We must acquire hold of the client mutex as the mutex must be thread-safe in case
-    // of multiple calling threads. Only one thread can listen for client events at a time, and that
-    // means all other threads must queue up and wait for the thread that listens currently.
+    // Only one thread can listen for client events at a time, and that means all other threads must queue
+    // up and wait for the thread that listens currently, which could receive what they wait for.
     while (1) {
-        if (contextCount && __count_executed(client, contexts, contextCount) >= required) {
-            return 0;
-        }
-
-        if (mtx_trylock(&client->wait_lock) != thrd_success) {
-            if (!(flags & GRACHT_MESSAGE_BLOCK)) {
-                errno = EBUSY;
-                return -1;
-            }
-
-            if (mtx_lock(&client->wait_lock) != thrd_success) {
-                return -1;
-            }
-        }
-
-        // the thread that listened before us could have received what we wait for
-        if (contextCount && __count_executed(client, contexts, contextCount) >= required) {
-            mtx_unlock(&client->wait_lock);
-            return 0;
+        status = __start_listening(client, contexts, contextCount, required, flags);
+        if (status) {
+            return status < 0 ? status : 0;
         }
 
         buffer.data = gracht_arena_allocate(client->arena, NULL, client->max_message_size);
         buffer.index = client->max_message_size;
         if (!buffer.data) {
-            mtx_unlock(&client->wait_lock);
+            __stop_listening(client);
             // out of memory. client should handle messages
             errno = ENOMEM;
             return -1;
@@ -307,15 +335,17 @@ static int __wait_for_messages(
         if (status) {
             // In case of any recieving errors we must exit immediately
             gracht_arena_free(client->arena, buffer.data, 0);
-            mtx_unlock(&client->wait_lock);
+            __stop_listening(client);
             return status;
         }
 
+        event = buffer;
         messageFlags = GB_MSG_FLG(&buffer);
+        isControl = GB_MSG_SID(&buffer) == gracht_control_client_protocol.id;
         handled = 1;
 
-        // If the message is not an event, then do not invoke any actions. Responses must be handled before
-        // allowing other threads to listen, as they check whether it was received already.
+        // If the message is not an event, then do not invoke any actions. Responses and errors must be handled
+        // before allowing other threads to listen, as they check whether it was received already.
         GRTRACE(GRSTR("[gracht] [client] message received %u - %u:%u"),
                 messageFlags, GB_MSG_SID(&buffer), GB_MSG_AID(&buffer));
         if (MESSAGE_FLAG_TYPE(messageFlags) == MESSAGE_FLAG_RESPONSE) {
@@ -328,15 +358,21 @@ static int __wait_for_messages(
                 buffer.data = NULL;
             }
         }
-        mtx_unlock(&client->wait_lock);
+
+        // events of the services can take as long as they like, and could await calls themselves
+        if (!isControl) {
+            __stop_listening(client);
+        }
 
         if (MESSAGE_FLAG_TYPE(messageFlags) == MESSAGE_FLAG_EVENT) {
-            char* data = buffer.data;
-            if (__invoke_action(client, &buffer)) {
+            if (__invoke_action(client, &event)) {
                 // events that are not supported are ignored
                 handled = 0;
             }
-            buffer.data = data;
+        }
+
+        if (isControl) {
+            __stop_listening(client);
         }
 
         if (buffer.data) {
@@ -627,6 +663,7 @@ int gracht_client_create(gracht_client_configuration_t* config, gracht_client_t*
     memset(client, 0, sizeof(gracht_client_t));
     mtx_init(&client->send_buffer_lock, mtx_plain);
     mtx_init(&client->wait_lock, mtx_plain);
+    cnd_init(&client->wait_event);
     mtx_init(&client->messages_lock, mtx_plain);
     mtx_init(&client->awaiters_lock, mtx_plain);
     gr_hashtable_construct(&client->protocols, 0, sizeof(struct gracht_protocol), protocol_hash, protocol_cmp);
@@ -723,6 +760,7 @@ void gracht_client_shutdown(gracht_client_t* client)
     gr_hashtable_destroy(&client->awaiters);
     gr_hashtable_destroy(&client->messages);
     gr_hashtable_destroy(&client->protocols);
+    cnd_destroy(&client->wait_event);
     mtx_destroy(&client->wait_lock);
     mtx_destroy(&client->send_buffer_lock);
     mtx_destroy(&client->messages_lock);
-- 
2.43.0


From cfde82bd3d0f7a7a4f36672b010c99e47c3bcce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:51 +0000
Subject: [PATCH 16/30] fix: do not raise SIGPIPE when the peer of a stream is
 gone

---
 runtime/link/socket/client.c    | 3 ++-
 runtime/link/socket/server.c    | 3 ++-
 runtime/link/socket/socket_os.h | 4 ++++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/runtime/link/socket/client.c b/runtime/link/socket/client.c
index 9ab94a7..189432e 100644
--- a/runtime/link/socket/client.c
+++ b/runtime/link/socket/client.c
@@ -34,7 +34,8 @@ static int socket_link_send_stream(struct gracht_link_socket* link,
 {
     long byteCount;
     
-    byteCount = (long)send(link->base.connection, &message->data[0], message->index, 0);
+    // the server may already be gone, that must not raise a signal
+    byteCount = (long)send(link->base.connection, &message->data[0], message->index, MSG_NOSIGNAL);
     if ((uint32_t)byteCount != message->index) {
         GRERROR(GRSTR("link_client: failed to send message, bytes sent: %li, expected: %u (%i)"),
               byteCount, message->index, errno);
diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index 6044b79..83d6633 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -112,7 +112,8 @@ static int socket_link_send_client(struct socket_link_client* client,
 
     GRTRACE(GRSTR("[socket_link_send] sending message"));
     if (client->streaming) {
-        bytesWritten = send(client->base.handle, &message->data[0], message->index, socketFlags);
+        // the client may already be gone, that must not raise a signal
+        bytesWritten = send(client->base.handle, &message->data[0], message->index, socketFlags | MSG_NOSIGNAL);
     } else {
         // connection-less clients share the socket of the link and are identified by their address
         bytesWritten = sendto(client->socket, &message->data[0], message->index, socketFlags,
diff --git a/runtime/link/socket/socket_os.h b/runtime/link/socket/socket_os.h
index 48cc463..08e8ed9 100644
--- a/runtime/link/socket/socket_os.h
+++ b/runtime/link/socket/socket_os.h
@@ -160,4 +160,8 @@ struct gracht_link_socket {
 #endif
 };
 
+#ifndef MSG_NOSIGNAL
+#define MSG_NOSIGNAL 0
+#endif
+
 #endif // !__GRACHT_SOCKET_OS_H__
-- 
2.43.0


From 7648c3a4a6807f351941f405e8216d6d3685541c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:51 +0000
Subject: [PATCH 17/30] fix: fail links and clients that cannot be added to the
 event set

---
 runtime/link/socket/server.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index 83d6633..fdaa16a 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -304,7 +304,10 @@ static gracht_conn_t socket_link_setup(struct gracht_link_socket* link, gracht_h
         
         status = socket_aio_add(set_handle, link->base.connection);
         if (status) {
-            GRWARNING(GRSTR("socket_link_setup failed to add socket to set_handle"));
+            GRERROR(GRSTR("socket_link_setup failed to add socket to set_handle"));
+            close(link->base.connection);
+            link->base.connection = GRACHT_CONN_INVALID;
+            return GRACHT_CONN_INVALID;
         }
 
 #ifdef _WIN32
@@ -353,7 +356,10 @@ static gracht_conn_t socket_link_setup(struct gracht_link_socket* link, gracht_h
         
         status = socket_aio_add(set_handle, link->base.connection);
         if (status) {
-            GRWARNING(GRSTR("socket_link_setup failed to add socket to set_handle"));
+            GRERROR(GRSTR("socket_link_setup failed to add socket to set_handle"));
+            close(link->base.connection);
+            link->base.connection = GRACHT_CONN_INVALID;
+            return GRACHT_CONN_INVALID;
         }
 
 #ifdef _WIN32
@@ -454,7 +460,10 @@ static int socket_link_accept(
     
     status = socket_aio_add(set_handle, client->socket);
     if (status) {
-        GRWARNING(GRSTR("socket_link_accept failed to add socket to set_handle"));
+        GRERROR(GRSTR("socket_link_accept failed to add socket to set_handle"));
+        close(client->socket);
+        free(client);
+        return -1;
     }
     
     *clientOut = &client->base;
-- 
2.43.0


From 9ae7e7aed78924167a2247cc8b0da963309a0bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:08 +0000
Subject: [PATCH 18/30] fix: handle the messages a client sent before it
 disconnected

---
 runtime/server.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/runtime/server.c b/runtime/server.c
index e4b69c4..27463ce 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -399,8 +399,8 @@ static int handle_client_event(struct gracht_server* server, gracht_conn_t handl
     GRTRACE(GRSTR("handle_client_event %" F_CONN_T ", 0x%x"), handle, events);
     
     // Check for control event. On non-passive sockets, control event is the
-    // disconnect event.
-    if (events & GRACHT_AIO_EVENT_DISCONNECT) {
+    // disconnect event. If there is also data then what was sent before the disconnect is handled first
+    if ((events & GRACHT_AIO_EVENT_DISCONNECT) && !(events & GRACHT_AIO_EVENT_IN)) {
         client_destroy(server, handle);
     }
     else if ((events & GRACHT_AIO_EVENT_IN) || !events) {
@@ -429,7 +429,7 @@ static int handle_client_event(struct gracht_server* server, gracht_conn_t handl
 
                 // detect cases of disconnection or transmission failures that are fatal.
                 // in these cases we expect the underlying link to specify EFAULT
-                if (errno == EFAULT) {
+                if (errno == EFAULT || (events & GRACHT_AIO_EVENT_DISCONNECT)) {
                     GRTRACE(GRSTR("handle_client_event client disconnected, cleaning up"));
                     client_destroy(server, handle);
                 }
-- 
2.43.0


From f6add3e135b557ae887fc463bdf89385c4345fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:34 +0000
Subject: [PATCH 19/30] fix: keep hashtables working when there is no memory to
 resize them

---
 runtime/hashtable.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/runtime/hashtable.c b/runtime/hashtable.c
index 095323c..93f629d 100644
--- a/runtime/hashtable.c
+++ b/runtime/hashtable.c
@@ -35,7 +35,7 @@ struct hashtable_element {
     uint8_t  payload[];
 };
 
-#define SHOULD_GROW(hashtable)        (hashtable->element_count == hashtable->grow_count)
+#define SHOULD_GROW(hashtable)        (hashtable->element_count >= hashtable->grow_count)
 #define SHOULD_SHRINK(hashtable)      (hashtable->element_count == hashtable->shrink_count)
 
 #define GET_ELEMENT_ARRAY(hashtable, elements, index) (struct hashtable_element*)&((uint8_t*)elements)[index * hashtable->element_size]
@@ -116,8 +116,10 @@ void* gr_hashtable_set(gr_hashtable_t* hashtable, const void* element)
     struct hashtable_element* iterElement = (struct hashtable_element*)&elementBuffer[0];
     size_t                    index;
 
-    // Only resize on entry - that way we avoid any unneccessary resizing
-    if (SHOULD_GROW(hashtable) && hashtable_resize(hashtable, hashtable->capacity << 1)) {
+    // Only resize on entry - that way we avoid any unneccessary resizing. If there is no memory for it
+    // then continue with what we have, as long as one slot stays free to terminate the lookups
+    if (SHOULD_GROW(hashtable) && hashtable_resize(hashtable, hashtable->capacity << 1) &&
+        hashtable->element_count + 1 >= hashtable->capacity) {
         errno = ENOMEM;
         return NULL;
     }
@@ -204,10 +206,10 @@ void* gr_hashtable_remove(gr_hashtable_t* hashtable, const void* key)
         return NULL;
     }
 
-    // Only resize on entry to avoid any unncessary resizes
-    if (SHOULD_SHRINK(hashtable) && hashtable_resize(hashtable, hashtable->capacity >> 1)) {
-        errno = ENOMEM;
-        return NULL;
+    // Only resize on entry to avoid any unncessary resizes, the element can be removed even if
+    // there is no memory for a smaller table
+    if (SHOULD_SHRINK(hashtable)) {
+        (void)hashtable_resize(hashtable, hashtable->capacity >> 1);
     }
 
     hash  = hashtable->hash(key);
-- 
2.43.0


From 9a48a960e7e83b3947586c7472be7c6c5fe540b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:09 +0000
Subject: [PATCH 20/30] fix: fail the creation of a server without memory for
 its tables

---
 runtime/server.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/runtime/server.c b/runtime/server.c
index 27463ce..3f2c2c8 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -159,9 +159,28 @@ int gracht_server_create(gracht_server_configuration_t* config, gracht_server_t*
     // initialize static members of the instance
     rwlock_init(&server->protocols_lock);
     rwlock_init(&server->clients_lock);
-    gr_hashtable_construct(&server->protocols, 0, sizeof(struct gracht_protocol), protocol_hash, protocol_cmp);
-    gr_hashtable_construct(&server->clients, 0, sizeof(struct client_wrapper), client_hash, client_cmp);
-    stack_construct(&server->bufferStack, 8);
+    if (gr_hashtable_construct(&server->protocols, 0, sizeof(struct gracht_protocol), protocol_hash, protocol_cmp) ||
+        gr_hashtable_construct(&server->clients, 0, sizeof(struct client_wrapper), client_hash, client_cmp) ||
+        stack_construct(&server->bufferStack, 8)) {
+        GRERROR(GRSTR("gracht_server_start: failed to allocate memory for the server"));
+        if (server->worker_pool) {
+            gracht_worker_pool_destroy(server->worker_pool);
+        }
+        if (server->set_handle != GRACHT_HANDLE_INVALID && !server->set_handle_provided) {
+            gracht_aio_destroy(server->set_handle);
+        }
+        if (server->arena) {
+            gracht_arena_destroy(server->arena);
+        }
+        free(server->recvBuffer);
+        gr_hashtable_destroy(&server->protocols);
+        gr_hashtable_destroy(&server->clients);
+        rwlock_destroy(&server->protocols_lock);
+        rwlock_destroy(&server->clients_lock);
+        free(server);
+        errno = ENOMEM;
+        return -1;
+    }
 
     // everything is set up - update state before registering control protocol
     server->state = RUNNING;
-- 
2.43.0


From 08de3c0f69c7f06f96654ec53085341d968898b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:09 +0000
Subject: [PATCH 21/30] fix: fail the creation of a client without memory for
 its tables

---
 runtime/client.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/runtime/client.c b/runtime/client.c
index c063347..a6c9bf8 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -666,12 +666,16 @@ int gracht_client_create(gracht_client_configuration_t* config, gracht_client_t*
     cnd_init(&client->wait_event);
     mtx_init(&client->messages_lock, mtx_plain);
     mtx_init(&client->awaiters_lock, mtx_plain);
-    gr_hashtable_construct(&client->protocols, 0, sizeof(struct gracht_protocol), protocol_hash, protocol_cmp);
-    gr_hashtable_construct(&client->messages, 0, sizeof(struct gracht_message_descriptor), message_hash, message_cmp);
-    gr_hashtable_construct(&client->awaiters, 0, sizeof(struct gracht_message_awaiter_entry), awaiter_hash, awaiter_cmp);
+    client->iod = GRACHT_CONN_INVALID;
+    if (gr_hashtable_construct(&client->protocols, 0, sizeof(struct gracht_protocol), protocol_hash, protocol_cmp) ||
+        gr_hashtable_construct(&client->messages, 0, sizeof(struct gracht_message_descriptor), message_hash, message_cmp) ||
+        gr_hashtable_construct(&client->awaiters, 0, sizeof(struct gracht_message_awaiter_entry), awaiter_hash, awaiter_cmp)) {
+        GRERROR(GRSTR("gracht_client: failed to allocate memory for the tables"));
+        errno = (ENOMEM);
+        goto error;
+    }
 
     client->link = config->link;
-    client->iod = GRACHT_CONN_INVALID;
     client->current_awaiter_id = 1;
     client->current_message_id = 1;
 
-- 
2.43.0


From a2c9a9f0043dc92d7b6a0ad4825ee4eba6378d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:09 +0000
Subject: [PATCH 22/30] fix: release the link of a client that did not connect

---
 runtime/client.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtime/client.c b/runtime/client.c
index a6c9bf8..fe9d69f 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -715,6 +715,8 @@ int gracht_client_create(gracht_client_configuration_t* config, gracht_client_t*
     goto exit;
     
 error:
+    // the link was not taken over
+    client->link = NULL;
     gracht_client_shutdown(client);
     status = -1;
 
@@ -749,7 +751,8 @@ void gracht_client_shutdown(gracht_client_t* client)
         return;
     }
     
-    if (client->iod != GRACHT_CONN_INVALID) {
+    // the link belongs to the client, connected or not
+    if (client->link) {
         client->link->ops.client.destroy(client->link);
     }
 
-- 
2.43.0


From 935db2c7d6584119c4257c0a74edbcbec51d97f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:39 +0000
Subject: [PATCH 23/30] fix: do not lose buffers that cannot be kept for later

---
 include/stack.h  |  2 +-
 runtime/server.c | 18 +++++++++++++-----
 runtime/stack.c  | 10 ++++++++--
 3 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/include/stack.h b/include/stack.h
index d2037b0..30cfdde 100644
--- a/include/stack.h
+++ b/include/stack.h
@@ -32,7 +32,7 @@ struct stack {
 
 int   stack_construct(struct stack* stack, size_t initialCount);
 void  stack_destroy(struct stack* stack);
-void  stack_push(struct stack* stack, void* pointer);
+int   stack_push(struct stack* stack, void* pointer);
 void* stack_pop(struct stack* stack);
 
 #endif //! __GRACHT_STACK_H__
diff --git a/runtime/server.c b/runtime/server.c
index 3f2c2c8..b6c078c 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -661,6 +661,14 @@ int gracht_server_get_buffer(gracht_server_t* server, gracht_buffer_t* buffer)
     return 0;
 }
 
+static void put_buffer(gracht_server_t* server, void* data)
+{
+    // without memory to keep the buffer for later it is not kept
+    if (data && stack_push(&server->bufferStack, data)) {
+        free(data);
+    }
+}
+
 int gracht_server_respond(struct gracht_message* messageContext, gracht_buffer_t* message)
 {
     struct client_wrapper* entry;
@@ -684,7 +692,7 @@ int gracht_server_respond(struct gracht_message* messageContext, gracht_buffer_t
         rwlock_r_unlock(&messageContext->server->clients_lock);
         link = get_link_by_conn(messageContext->server, messageContext->link);
         if (!link) {
-            stack_push(&messageContext->server->bufferStack, message->data);
+            put_buffer(messageContext->server, message->data);
             errno = ENODEV;
             return -1;
         }
@@ -696,7 +704,7 @@ int gracht_server_respond(struct gracht_message* messageContext, gracht_buffer_t
     }
 
     // return the borrowed buffer to the stack
-    stack_push(&messageContext->server->bufferStack, message->data);
+    put_buffer(messageContext->server, message->data);
     return status;
 }
 
@@ -717,7 +725,7 @@ int gracht_server_send_event(gracht_server_t* server, gracht_conn_t client, grac
     clientEntry = gr_hashtable_get(&server->clients, &(struct client_wrapper){ .handle = client });
     if (!clientEntry) {
         rwlock_r_unlock(&server->clients_lock);
-        stack_push(&server->bufferStack, message->data);
+        put_buffer(server, message->data);
         errno = ENOENT;
         return -1;
     }
@@ -727,7 +735,7 @@ int gracht_server_send_event(gracht_server_t* server, gracht_conn_t client, grac
     rwlock_r_unlock(&server->clients_lock);
 
     // return the borrowed buffer to the stack
-    stack_push(&server->bufferStack, message->data);
+    put_buffer(server, message->data);
     return status;
 }
 
@@ -751,7 +759,7 @@ int gracht_server_broadcast_event(gracht_server_t* server, gracht_buffer_t* mess
     rwlock_r_unlock(&server->clients_lock);
 
     // return the borrowed buffer to the stack
-    stack_push(&server->bufferStack, message->data);
+    put_buffer(server, message->data);
     return 0;
 }
 
diff --git a/runtime/stack.c b/runtime/stack.c
index cc798f5..f13f2db 100644
--- a/runtime/stack.c
+++ b/runtime/stack.c
@@ -70,17 +70,23 @@ static int stack_resize(struct stack* stack, size_t newSize)
     return 0;
 }
 
-void stack_push(struct stack* stack, void* pointer)
+int stack_push(struct stack* stack, void* pointer)
 {
+    int status = 0;
+
     if (!stack || !pointer) {
-        return;
+        errno = EINVAL;
+        return -1;
     }
 
     mtx_lock(&stack->lock);
     if (stack->index < stack->count || !stack_resize(stack, stack->count * 2)) {
         stack->elements[stack->index++] = pointer;
+    } else {
+        status = -1;
     }
     mtx_unlock(&stack->lock);
+    return status;
 }
 
 void* stack_pop(struct stack* stack)
-- 
2.43.0


From 08cba57f7b1fa2d6b285348da3b439c8c077fddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:29 +0000
Subject: [PATCH 24/30] fix: let handlers on worker threads request the
 shutdown of the server

---
 runtime/server.c | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/runtime/server.c b/runtime/server.c
index b6c078c..58e804f 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -23,6 +23,7 @@
 #include <errno.h>
 #include "aio.h"
 #include "arena.h"
+#include "gatomic.h"
 #include "logging.h"
 #include "gracht/server.h"
 #include "thread_api.h"
@@ -69,7 +70,7 @@ enum server_state {
 };
 
 typedef struct gracht_server {
-    enum server_state              state;
+    atomic_int                     state; // requested by handlers, which may run on any worker
     struct server_operations*      ops;
     struct gracht_server_callbacks callbacks;
     struct gracht_worker_pool*     worker_pool;
@@ -183,7 +184,7 @@ int gracht_server_create(gracht_server_configuration_t* config, gracht_server_t*
     }
 
     // everything is set up - update state before registering control protocol
-    server->state = RUNNING;
+    atomic_store(&server->state, RUNNING);
 
     gracht_server_register_protocol(server, &gracht_control_server_protocol);
 
@@ -256,7 +257,7 @@ int gracht_server_add_link(gracht_server_t* server, struct gracht_link* link)
         return -1;
     }
 
-    if (server->state != RUNNING) {
+    if (atomic_load(&server->state) != RUNNING) {
         errno = EPERM;
         return -1;
     }
@@ -468,11 +469,11 @@ static int gracht_server_shutdown(gracht_server_t* server)
     int   i;
     GRTRACE(GRSTR("gracht_server_shutdown()"));
 
-    if (server->state == SHUTDOWN) {
+    if (atomic_load(&server->state) == SHUTDOWN) {
         errno = EALREADY;
         return -1;
     }
-    server->state = SHUTDOWN;
+    atomic_store(&server->state, SHUTDOWN);
     
     // destroy all our workers
     if (server->worker_pool) {
@@ -529,12 +530,12 @@ void gracht_server_request_shutdown(gracht_server_t* server)
         return;
     }
 
-    if (server->state != RUNNING) {
+    if (atomic_load(&server->state) != RUNNING) {
         errno = EPERM;
         return;
     }
     
-    server->state = SHUTDOWN_REQUESTED;
+    atomic_store(&server->state, SHUTDOWN_REQUESTED);
 }
 
 void server_invoke_action(struct gracht_server* server, struct gracht_message* recvMessage)
@@ -582,8 +583,8 @@ int gracht_server_handle_event(gracht_server_t* server, gracht_conn_t handle, un
     }
 
     // assert current state, and cleanup if state is request shutdown
-    if (server->state != RUNNING) {
-        if (server->state == SHUTDOWN_REQUESTED) {
+    if (atomic_load(&server->state) != RUNNING) {
+        if (atomic_load(&server->state) == SHUTDOWN_REQUESTED) {
             gracht_server_shutdown(server);
         }
         errno = EPIPE;
@@ -614,13 +615,13 @@ int gracht_server_main_loop(gracht_server_t* server)
         return -1;
     }
 
-    if (server->state != RUNNING) {
+    if (atomic_load(&server->state) != RUNNING) {
         errno = EPERM;
         return -1;
     }
 
     GRTRACE(GRSTR("gracht_server: started..."));
-    while (server->state == RUNNING) {
+    while (atomic_load(&server->state) == RUNNING) {
         int num_events = gracht_io_wait(server->set_handle, &events[0], 32);
         GRTRACE(GRSTR("gracht_server: %i events received!"), num_events);
         for (i = 0; i < num_events; i++) {
@@ -770,7 +771,7 @@ int gracht_server_register_protocol(gracht_server_t* server, gracht_protocol_t*
         return -1;
     }
     
-    if (server->state != RUNNING) {
+    if (atomic_load(&server->state) != RUNNING) {
         errno = EPERM;
         return -1;
     }
@@ -793,7 +794,7 @@ void gracht_server_unregister_protocol(gracht_server_t* server, gracht_protocol_
         return;
     }
 
-    if (server->state != RUNNING) {
+    if (atomic_load(&server->state) != RUNNING) {
         errno = EPERM;
         return;
     }
@@ -810,7 +811,7 @@ gracht_handle_t gracht_server_get_aio_handle(gracht_server_t* server)
         return GRACHT_HANDLE_INVALID;
     }
 
-    if (server->state != RUNNING) {
+    if (atomic_load(&server->state) != RUNNING) {
         errno = EPERM;
         return GRACHT_HANDLE_INVALID;
     }
-- 
2.43.0


From ac173116f52860b1176bbd820006c397fb269893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:26 +0000
Subject: [PATCH 25/30] fix: let workers broadcast while subscriptions change

---
 runtime/server.c | 45 +++++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/runtime/server.c b/runtime/server.c
index 58e804f..d99c3c2 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -48,6 +48,7 @@ struct client_wrapper {
 };
 
 struct broadcast_context {
+    struct gracht_server* server;
     struct gracht_buffer* message;
     unsigned int          flags;
 };
@@ -84,6 +85,7 @@ typedef struct gracht_server {
     struct rwlock                  protocols_lock;
     gr_hashtable_t                 clients;
     struct rwlock                  clients_lock;
+    mtx_t                          subscriptions_lock; // taken inside clients_lock
     struct link_table              link_table;
 } gracht_server_t;
 
@@ -114,9 +116,9 @@ static struct server_operations g_mtOperations = {
 };
 
 static void client_destroy(struct gracht_server*, gracht_conn_t);
-static void client_subscribe(struct gracht_server_client*, uint8_t);
-static void client_unsubscribe(struct gracht_server_client*, uint8_t);
-static int  client_is_subscribed(struct gracht_server_client*, uint8_t);
+static void client_subscribe(struct gracht_server*, struct gracht_server_client*, uint8_t);
+static void client_unsubscribe(struct gracht_server*, struct gracht_server_client*, uint8_t);
+static int  client_is_subscribed(struct gracht_server*, struct gracht_server_client*, uint8_t);
 
 static uint64_t client_hash(const void*);
 static int      client_cmp(const void*, const void*);
@@ -160,6 +162,7 @@ int gracht_server_create(gracht_server_configuration_t* config, gracht_server_t*
     // initialize static members of the instance
     rwlock_init(&server->protocols_lock);
     rwlock_init(&server->clients_lock);
+    mtx_init(&server->subscriptions_lock, mtx_plain);
     if (gr_hashtable_construct(&server->protocols, 0, sizeof(struct gracht_protocol), protocol_hash, protocol_cmp) ||
         gr_hashtable_construct(&server->clients, 0, sizeof(struct client_wrapper), client_hash, client_cmp) ||
         stack_construct(&server->bufferStack, 8)) {
@@ -178,6 +181,7 @@ int gracht_server_create(gracht_server_configuration_t* config, gracht_server_t*
         gr_hashtable_destroy(&server->clients);
         rwlock_destroy(&server->protocols_lock);
         rwlock_destroy(&server->clients_lock);
+        mtx_destroy(&server->subscriptions_lock);
         free(server);
         errno = ENOMEM;
         return -1;
@@ -519,6 +523,7 @@ static int gracht_server_shutdown(gracht_server_t* server)
     gr_hashtable_destroy(&server->clients);
     rwlock_destroy(&server->protocols_lock);
     rwlock_destroy(&server->clients_lock);
+    mtx_destroy(&server->subscriptions_lock);
     free(server);
     return 0;
 }
@@ -743,6 +748,7 @@ int gracht_server_send_event(gracht_server_t* server, gracht_conn_t client, grac
 int gracht_server_broadcast_event(gracht_server_t* server, gracht_buffer_t* message, unsigned int flags)
 {
     struct broadcast_context context = {
+        .server  = server,
         .message = message,
         .flags   = flags
     };
@@ -849,39 +855,46 @@ static void client_destroy(struct gracht_server* server, gracht_conn_t client)
 }
 
 // Client subscription helpers
-static void client_subscribe(struct gracht_server_client* client, uint8_t id)
+static void client_subscribe(struct gracht_server* server, struct gracht_server_client* client, uint8_t id)
 {
     int block  = id / 32;
     int offset = id % 32;
 
+    mtx_lock(&server->subscriptions_lock);
     if (id == 0xFF) {
         // subscribe to all
         memset(&client->subscriptions[0], 0xFF, sizeof(client->subscriptions));
-        return;
+    } else {
+        client->subscriptions[block] |= (1 << offset);
     }
-
-    client->subscriptions[block] |= (1 << offset);
+    mtx_unlock(&server->subscriptions_lock);
 }
 
-static void client_unsubscribe(struct gracht_server_client* client, uint8_t id)
+static void client_unsubscribe(struct gracht_server* server, struct gracht_server_client* client, uint8_t id)
 {
     int block  = id / 32;
     int offset = id % 32;
 
+    mtx_lock(&server->subscriptions_lock);
     if (id == 0xFF) {
         // unsubscribe to all
         memset(&client->subscriptions[0], 0, sizeof(client->subscriptions));
-        return;
+    } else {
+        client->subscriptions[block] &= ~(1 << offset);
     }
-
-    client->subscriptions[block] &= ~(1 << offset);
+    mtx_unlock(&server->subscriptions_lock);
 }
 
-static int client_is_subscribed(struct gracht_server_client* client, uint8_t id)
+static int client_is_subscribed(struct gracht_server* server, struct gracht_server_client* client, uint8_t id)
 {
     int block  = id / 32;
     int offset = id % 32;
-    return (client->subscriptions[block] & (1 << offset)) != 0;
+    int subscribed;
+
+    mtx_lock(&server->subscriptions_lock);
+    subscribed = (client->subscriptions[block] & (1 << offset)) != 0;
+    mtx_unlock(&server->subscriptions_lock);
+    return subscribed;
 }
 
 // Server control protocol implementation
@@ -933,7 +946,7 @@ void gracht_control_subscribe_invocation(const struct gracht_message* message, c
         entry->client->flags &= ~(GRACHT_CLIENT_FLAG_CLEANUP);
     }
 
-    client_subscribe(entry->client, protocol);
+    client_subscribe(message->server, entry->client, protocol);
     rwlock_r_unlock(&message->server->clients_lock);
 }
 
@@ -949,7 +962,7 @@ void gracht_control_unsubscribe_invocation(const struct gracht_message* message,
         return;
     }
 
-    client_unsubscribe(entry->client, protocol);
+    client_unsubscribe(message->server, entry->client, protocol);
     
     // cleanup the client if we unsubscribe, but do not do it from here as the client
     // structure will be reffered later on
@@ -989,7 +1002,7 @@ static void client_enum_broadcast(int index, const void* element, void* userCont
     uint8_t                      protocol = GB_MSG_SID_0(context->message);
     (void)index;
 
-    if (client_is_subscribed(entry->client, protocol)) {
+    if (client_is_subscribed(context->server, entry->client, protocol)) {
         entry->link->ops.server.send_client(entry->client, context->message, context->flags);
     }
 }
-- 
2.43.0


From 7a964b5ce604dfef0ad31fb8b04c8d614e851d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:57 +0000
Subject: [PATCH 26/30] fix: never deliver a response to a client that
 connected after its request

---
 include/gracht/types.h | 1 +
 runtime/server.c       | 9 ++++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/gracht/types.h b/include/gracht/types.h
index 9b38682..97bb1e2 100644
--- a/include/gracht/types.h
+++ b/include/gracht/types.h
@@ -112,6 +112,7 @@ struct gracht_message {
     gracht_server_t* server;  // server instance message is received on
     gracht_conn_t    link;    // link message is received on
     gracht_conn_t    client;  // client context on the link
+    uint64_t         instance; // used internally to tell clients with the same context apart
     uint32_t         size;    // size of the payload
     uint32_t         index;   // used internally for payload storage
     uint8_t          payload[]; // payload follows this message header
diff --git a/runtime/server.c b/runtime/server.c
index d99c3c2..5c57908 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -43,6 +43,7 @@
 
 struct client_wrapper {
     gracht_conn_t                handle;
+    uint64_t                     instance;
     struct gracht_link*          link;
     struct gracht_server_client* client;
 };
@@ -84,6 +85,7 @@ typedef struct gracht_server {
     gr_hashtable_t                 protocols;
     struct rwlock                  protocols_lock;
     gr_hashtable_t                 clients;
+    uint64_t                       client_instances; // number of streaming clients accepted
     struct rwlock                  clients_lock;
     mtx_t                          subscriptions_lock; // taken inside clients_lock
     struct link_table              link_table;
@@ -307,6 +309,7 @@ static int handle_connection(struct gracht_server* server, struct gracht_link* l
     rwlock_w_lock(&server->clients_lock);
     gr_hashtable_set(&server->clients, &(struct client_wrapper) { 
         .handle = client->handle,
+        .instance = ++server->client_instances,
         .link = link,
         .client = client
     });
@@ -323,6 +326,7 @@ static struct gracht_message* get_in_buffer_st(struct gracht_server* server)
 {
     struct gracht_message* message = (struct gracht_message*)server->recvBuffer;
     message->server = server;
+    message->instance = 0;
     message->index  = server->allocationSize - sizeof(struct gracht_message);
     return message;
 }
@@ -369,6 +373,7 @@ static struct gracht_message* get_in_buffer_mt(struct gracht_server* server)
         return NULL;
     }
     message->server = server;
+    message->instance = 0;
     message->index  = server->allocationSize - sizeof(struct gracht_message);
     return message;
 }
@@ -460,6 +465,7 @@ static int handle_client_event(struct gracht_server* server, gracht_conn_t handl
                 return 0;
             }
 
+            message->instance = entry->instance;
             server->ops->dispatch(server, message);
         }
         rwlock_r_unlock(&server->clients_lock);
@@ -692,7 +698,7 @@ int gracht_server_respond(struct gracht_message* messageContext, gracht_buffer_t
 
     rwlock_r_lock(&messageContext->server->clients_lock);
     entry = gr_hashtable_get(&messageContext->server->clients, &(struct client_wrapper){ .handle = messageContext->client });
-    if (!entry) {
+    if (!entry || entry->instance != messageContext->instance) {
         struct gracht_link* link;
         
         rwlock_r_unlock(&messageContext->server->clients_lock);
@@ -924,6 +930,7 @@ void gracht_control_subscribe_invocation(const struct gracht_message* message, c
         }
 
         newEntry.handle = message->client;
+        newEntry.instance = message->instance;
 
         // this does not have to be serialized with the above read lock due to the fact that all
         // write-locks are only acquired by this thread. So any changes made are only the ones we make
-- 
2.43.0


From 6ca11efd7d9cdd6017d408be46e453fae456d801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:09 +0000
Subject: [PATCH 27/30] fix: use the default message size for servers that set
 none

---
 runtime/server.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/runtime/server.c b/runtime/server.c
index 5c57908..b821447 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -201,6 +201,7 @@ int gracht_server_create(gracht_server_configuration_t* config, gracht_server_t*
 static int configure_server(struct gracht_server* server, gracht_server_configuration_t* configuration)
 {
     size_t arenaSize;
+    int    maxMessageSize;
     int    status;
 
     // set the configuration params that are just transfer
@@ -218,9 +219,15 @@ static int configure_server(struct gracht_server* server, gracht_server_configur
         }
     }
 
+    // handle the max message size override, otherwise we default to our default value.
+    maxMessageSize = configuration->max_message_size;
+    if (maxMessageSize <= 0) {
+        maxMessageSize = GRACHT_DEFAULT_MESSAGE_SIZE;
+    }
+
     // configure the allocation size, we use the max message size and add
     // 512 bytes for context data
-    server->allocationSize = configuration->max_message_size + 512;
+    server->allocationSize = (size_t)maxMessageSize + 512;
 
     // handle the worker count, if the worker count is not provided we do not use
     // the dispatcher, but instead handle single-threaded.
@@ -235,7 +242,7 @@ static int configure_server(struct gracht_server* server, gracht_server_configur
         server->ops = &g_stOperations;
     }
 
-    // handle the max message size override, otherwise we default to our default value.
+    // allocate the memory for incoming messages
     if (configuration->server_workers > 1) {
         arenaSize = configuration->server_workers * server->allocationSize * 32;
         status    = gracht_arena_create(arenaSize, &server->arena);
-- 
2.43.0


From 242e2ff4eb4c7543301e7994ffa6b4dc8239108a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:21 +0000
Subject: [PATCH 28/30] fix: let structures extend structures that are defined
 below them

---
 generator/passes/consolidate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/passes/consolidate.py b/generator/passes/consolidate.py
index aa43b5a..bad7907 100644
--- a/generator/passes/consolidate.py
+++ b/generator/passes/consolidate.py
@@ -12,7 +12,7 @@ def consolidate_struct_member(service: ServiceObject, done: list, struct: Struct
         if struct_target is None:
             raise ValueError(f"Type {typename} cannot be resolved")
         if not struct_target in done:
-            consolidate_struct(struct_target)
+            consolidate_struct(service, done, struct_target)
         
         mems = struct.get_members()
         index = mems.index(member)
@@ -24,7 +24,7 @@ def consolidate_struct_member(service: ServiceObject, done: list, struct: Struct
 
 def consolidate_struct(service: ServiceObject, done: list, struct: StructureObject):
     if struct in done:
-        return
+        return done
     
     for member in struct.get_members():
         consolidate_struct_member(service, done, struct, member)
-- 
2.43.0


From 8e5448cb7466fd9e0116fa8f3870e88b2a4b43aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:29 +0000
Subject: [PATCH 29/30] fix: do not emit serializers for types a service does
 not use

---
 generator/languages/langc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index 876a46d..d69e1f2 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -787,6 +787,9 @@ static inline char* deserialize_string_nocopy(gracht_buffer_t* buffer) {
 
 def define_type_serializers(service: ServiceObject, outfile: CodeWriter):
     for defined_type in service.get_types():
+        # types that are not used by the service are not imported either
+        if defined_type.get_type_source() not in service.get_imports():
+            continue
         guard_name = defined_type.get_namespace().upper() + "_" + defined_type.get_type_name().upper()
         outfile.write(f"#ifndef __GRACHT_{guard_name}_DEFINED__\n")
         outfile.write(f"#define __GRACHT_{guard_name}_DEFINED__\n")
-- 
2.43.0


From 06119a17e8fc89561e71e590473208cd6e413c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:29 +0000
Subject: [PATCH 30/30] fix: emit the serializers of a type once, also if
 several files define it

---
 generator/languages/langc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index d69e1f2..4b59485 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -790,7 +790,7 @@ def define_type_serializers(service: ServiceObject, outfile: CodeWriter):
         # types that are not used by the service are not imported either
         if defined_type.get_type_source() not in service.get_imports():
             continue
-        guard_name = defined_type.get_namespace().upper() + "_" + defined_type.get_type_name().upper()
+        guard_name = defined_type.get_type_name()
         outfile.write(f"#ifndef __GRACHT_{guard_name}_DEFINED__\n")
         outfile.write(f"#define __GRACHT_{guard_name}_DEFINED__\n")
         outfile.write(f"SERIALIZE_VALUE({defined_type.get_type_name()}, {defined_type.get_type_name()})\n")
-- 
2.43.0

