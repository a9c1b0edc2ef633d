From fdd05db90d9ff91b540df8729fb360f6fac2ae3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:18 +0000
Subject: [PATCH 01/92] fix: reject non-hex characters when parsing keys and
 event ids/signatures

sscanf("%2hhx") accepts leading blanks, signs, 0x and single digits, so
texts such as " 1", "+1" or "1g" were taken for a byte.
---
 src/event.c |  7 +------
 src/key.c   | 12 ++++--------
 2 files changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/event.c b/src/event.c
index 733e358..e68e583 100644
--- a/src/event.c
+++ b/src/event.c
@@ -445,12 +445,7 @@ static int hex_to_bytes(const char* hex, unsigned char* bytes, size_t bytes_len)
         return 0;
     }
 
-    for (size_t i = 0; i < bytes_len; i++) {
-        if (sscanf(hex + i * 2, "%2hhx", &bytes[i]) != 1) {
-            return 0;
-        }
-    }
-    return 1;
+    return nostr_hex_decode(hex, bytes, bytes_len) == (int)bytes_len;
 }
 
 nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
diff --git a/src/key.c b/src/key.c
index 8b511ed..2802f08 100644
--- a/src/key.c
+++ b/src/key.c
@@ -385,10 +385,8 @@ nostr_error_t nostr_key_from_hex(const char* hex, nostr_key* key) {
         return NOSTR_ERR_INVALID_KEY;
     }
     
-    for (int i = 0; i < NOSTR_PUBKEY_SIZE; i++) {
-        if (sscanf(hex + i * 2, "%2hhx", &key->data[i]) != 1) {
-            return NOSTR_ERR_INVALID_KEY;
-        }
+    if (nostr_hex_decode(hex, key->data, NOSTR_PUBKEY_SIZE) != NOSTR_PUBKEY_SIZE) {
+        return NOSTR_ERR_INVALID_KEY;
     }
     
     return NOSTR_OK;
@@ -416,10 +414,8 @@ nostr_error_t nostr_privkey_from_hex(const char* hex, nostr_privkey* privkey) {
         return NOSTR_ERR_INVALID_KEY;
     }
     
-    for (int i = 0; i < NOSTR_PRIVKEY_SIZE; i++) {
-        if (sscanf(hex + i * 2, "%2hhx", &privkey->data[i]) != 1) {
-            return NOSTR_ERR_INVALID_KEY;
-        }
+    if (nostr_hex_decode(hex, privkey->data, NOSTR_PRIVKEY_SIZE) != NOSTR_PRIVKEY_SIZE) {
+        return NOSTR_ERR_INVALID_KEY;
     }
     
     return NOSTR_OK;
-- 
2.43.0


From fdf212935e1c943d050ff8c2fd56f681ab92e07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:00 +0000
Subject: [PATCH 02/92] fix: write created_at as an exact integer in event JSON
 and id serialization

---
 src/event.c          | 8 ++++++--
 src/relay_message.c  | 3 ++-
 src/relay_protocol.c | 5 ++++-
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/event.c b/src/event.c
index e68e583..439c0a8 100644
--- a/src/event.c
+++ b/src/event.c
@@ -294,7 +294,9 @@ static char* serialize_for_id(const nostr_event* event)
     cJSON* serialization = cJSON_CreateArray();
     cJSON_AddItemToArray(serialization, cJSON_CreateNumber(0));
     cJSON_AddItemToArray(serialization, cJSON_CreateString(pubkey_hex));
-    cJSON_AddItemToArray(serialization, cJSON_CreateNumber(event->created_at));
+    char created_at[24];
+    snprintf(created_at, sizeof(created_at), "%" PRId64, event->created_at);
+    cJSON_AddItemToArray(serialization, cJSON_CreateRaw(created_at));
     cJSON_AddItemToArray(serialization, cJSON_CreateNumber(event->kind));
 
     cJSON* tags_array = cJSON_CreateArray();
@@ -408,7 +410,9 @@ nostr_error_t nostr_event_to_json(const nostr_event* event, char** json)
     hex_buffer[64] = '\0';
     cJSON_AddStringToObject(root, "pubkey", hex_buffer);
 
-    cJSON_AddNumberToObject(root, "created_at", event->created_at);
+    char created_at[24];
+    snprintf(created_at, sizeof(created_at), "%" PRId64, event->created_at);
+    cJSON_AddRawToObject(root, "created_at", created_at);
     cJSON_AddNumberToObject(root, "kind", event->kind);
 
     cJSON* tags_array = cJSON_CreateArray();
diff --git a/src/relay_message.c b/src/relay_message.c
index 9a8ff3a..752a53f 100644
--- a/src/relay_message.c
+++ b/src/relay_message.c
@@ -410,7 +410,8 @@ nostr_relay_error_t nostr_relay_msg_serialize(const nostr_relay_msg_t* msg, char
                 cJSON_Delete(root);
                 return NOSTR_RELAY_ERR_MEMORY;
             }
-            cJSON* event_obj = cJSON_Parse(event_json);
+            cJSON_Minify(event_json);
+            cJSON* event_obj = cJSON_CreateRaw(event_json);
             free(event_json);
             if (!event_obj) {
                 cJSON_Delete(root);
diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index a698e1b..56594ee 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -7,6 +7,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <stdio.h>
+#include <inttypes.h>
 #include <time.h>
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
@@ -329,7 +330,9 @@ nostr_relay_error_t nostr_event_serialize_canonical(const nostr_event* event, ch
 
     cJSON_AddItemToArray(serialization, cJSON_CreateNumber(0));
     cJSON_AddItemToArray(serialization, cJSON_CreateString(pubkey_hex));
-    cJSON_AddItemToArray(serialization, cJSON_CreateNumber((double)event->created_at));
+    char created_at[24];
+    snprintf(created_at, sizeof(created_at), "%" PRId64, event->created_at);
+    cJSON_AddItemToArray(serialization, cJSON_CreateRaw(created_at));
     cJSON_AddItemToArray(serialization, cJSON_CreateNumber(event->kind));
 
     cJSON* tags_array = cJSON_CreateArray();
-- 
2.43.0


From f9382a0f83d7b4739151f3dca961afc3880ad356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:33 +0000
Subject: [PATCH 03/92] fix: keep the nonce tag intact when refreshing it fails
 or the tag has one value

---
 src/nip13.c | 46 +++++++++++++++++++++-------------------------
 1 file changed, 21 insertions(+), 25 deletions(-)

diff --git a/src/nip13.c b/src/nip13.c
index 0adc5e6..610a329 100644
--- a/src/nip13.c
+++ b/src/nip13.c
@@ -157,35 +157,31 @@ nostr_error_t nostr_nip13_add_nonce_tag(nostr_event* event, uint64_t nonce_value
         // Update existing nonce tag
         // Note: Old strings remain in arena (can't be individually freed) but will be
         // cleaned up when the event is destroyed. This is acceptable for mining workloads.
-        char* new_nonce = arena_strdup(event, nonce_str);
-        if (!new_nonce) {
+        size_t nonce_len = strlen(nonce_str) + 1;
+        size_t target_len = (count == 3) ? strlen(target_str) + 1 : 0;
+        int expand = event->tags[nonce_idx].count < count;
+        size_t values_size = expand ? (count + 1) * sizeof(char*) : 0;  // one more for alignment
+
+        // Reserve everything first, so that a failure leaves the tag as it was
+        if (arena_ensure_capacity(event, nonce_len + target_len + values_size) != 0) {
             return NOSTR_ERR_MEMORY;
         }
-        event->tags[nonce_idx].values[1] = new_nonce;
-
-        if (target_difficulty > 0) {
-            if (event->tags[nonce_idx].count < 3) {
-                // Need to expand values array - allocate new array from arena
-                size_t new_values_size = 3 * sizeof(char*);
-                if (arena_ensure_capacity(event, new_values_size) != 0) {
-                    return NOSTR_ERR_MEMORY;
-                }
-                char** new_values = (char**)((char*)event->tag_arena->memory + event->tag_arena->used);
-                event->tag_arena->used += new_values_size;
-                new_values[0] = event->tags[nonce_idx].values[0];
-                new_values[1] = event->tags[nonce_idx].values[1];
-                new_values[2] = NULL;
-                event->tags[nonce_idx].values = new_values;
-                event->tags[nonce_idx].count = 3;
-            }
 
-            char* new_target = arena_strdup(event, target_str);
-            if (!new_target) {
-                return NOSTR_ERR_MEMORY;
-            }
-            event->tags[nonce_idx].values[2] = new_target;
+        nostr_tag* tag = &event->tags[nonce_idx];
+        if (expand) {
+            nostr_tag_arena* arena = event->tag_arena;
+            arena->used += (sizeof(char*) - arena->used % sizeof(char*)) % sizeof(char*);
+            char** new_values = (char**)((char*)arena->memory + arena->used);
+            arena->used += count * sizeof(char*);
+            new_values[0] = tag->values[0];
+            tag->values = new_values;
+            tag->count = count;
+        }
+        tag->values[1] = arena_strdup(event, nonce_str);
+        if (count == 3) {
+            tag->values[2] = arena_strdup(event, target_str);
         } else {
-            event->tags[nonce_idx].count = 2;
+            tag->count = 2;
         }
     } else {
         err = nostr_event_add_tag(event, tag_values, count);
-- 
2.43.0


From 4cadec46308dc83b695438c81a01a923289893bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:43 +0000
Subject: [PATCH 04/92] fix: keep event content and tags intact on failed or
 self-referencing updates

---
 src/event.c | 76 ++++++++++++++++++++++++++++-------------------------
 1 file changed, 40 insertions(+), 36 deletions(-)

diff --git a/src/event.c b/src/event.c
index 439c0a8..f944307 100644
--- a/src/event.c
+++ b/src/event.c
@@ -122,12 +122,13 @@ nostr_error_t nostr_event_set_content(nostr_event* event, const char* content)
         return NOSTR_ERR_INVALID_PARAM;
     }
 
-    free(event->content);
-    event->content = strdup(content);
-    if (!event->content) {
+    char* copy = strdup(content);
+    if (!copy) {
         return NOSTR_ERR_MEMORY;
     }
 
+    free(event->content);
+    event->content = copy;
     return NOSTR_OK;
 }
 
@@ -161,9 +162,25 @@ nostr_error_t nostr_event_add_tag(nostr_event* event, const char** values, size_
     if (values_size > SIZE_MAX - strings_size) {
         return NOSTR_ERR_INVALID_PARAM;
     }
-    size_t total_size = values_size + strings_size;
-    
-    if (event->tag_arena->used + total_size > event->tag_arena->capacity) {
+    /* the value pointers need pointer alignment inside the byte arena */
+    size_t padding = (sizeof(char*) - event->tag_arena->used % sizeof(char*)) % sizeof(char*);
+    if (padding > SIZE_MAX - values_size - strings_size) {
+        return NOSTR_ERR_INVALID_PARAM;
+    }
+    size_t total_size = padding + values_size + strings_size;
+
+    nostr_tag* new_tags = realloc(event->tags, sizeof(nostr_tag) * (event->tags_count + 1));
+    if (!new_tags) {
+        return NOSTR_ERR_MEMORY;
+    }
+    event->tags = new_tags;
+
+    /* kept until the new values are copied: they may point into it */
+    void* old_memory = NULL;
+    if (total_size > event->tag_arena->capacity - event->tag_arena->used) {
+        if (total_size > SIZE_MAX - event->tag_arena->used) {
+            return NOSTR_ERR_MEMORY;
+        }
         size_t new_capacity = event->tag_arena->capacity;
         size_t required = event->tag_arena->used + total_size;
         while (new_capacity < required) {
@@ -171,55 +188,42 @@ nostr_error_t nostr_event_add_tag(nostr_event* event, const char** values, size_
             if (doubled <= new_capacity) return NOSTR_ERR_MEMORY;
             new_capacity = doubled;
         }
-        
-        void* old_memory = event->tag_arena->memory;
-        void* new_memory = realloc(event->tag_arena->memory, new_capacity);
+
+        void* new_memory = malloc(new_capacity);
         if (!new_memory) {
             return NOSTR_ERR_MEMORY;
         }
 
-        if (new_memory != old_memory) {
-            ptrdiff_t offset = (char*)new_memory - (char*)old_memory;
-            for (size_t i = 0; i < event->tags_count; i++) {
-                event->tags[i].values = (char**)((char*)event->tags[i].values + offset);
-                for (size_t j = 0; j < event->tags[i].count; j++) {
-                    if (event->tags[i].values[j]) {
-                        event->tags[i].values[j] += offset;
-                    }
+        old_memory = event->tag_arena->memory;
+        memcpy(new_memory, old_memory, event->tag_arena->used);
+        for (size_t i = 0; i < event->tags_count; i++) {
+            char** moved = (char**)((char*)new_memory + ((char*)event->tags[i].values - (char*)old_memory));
+            for (size_t j = 0; j < event->tags[i].count; j++) {
+                if (moved[j]) {
+                    moved[j] = (char*)new_memory + (moved[j] - (char*)old_memory);
                 }
             }
+            event->tags[i].values = moved;
         }
 
         event->tag_arena->memory = new_memory;
         event->tag_arena->capacity = new_capacity;
     }
 
-    nostr_tag* new_tags = realloc(event->tags, sizeof(nostr_tag) * (event->tags_count + 1));
-    if (!new_tags) {
-        return NOSTR_ERR_MEMORY;
-    }
-    event->tags = new_tags;
-
-    nostr_tag* tag = &event->tags[event->tags_count];
-    
-    tag->values = (char**)tag_arena_alloc(event->tag_arena, values_size);
-    if (!tag->values) {
-        return NOSTR_ERR_MEMORY;
-    }
-    
+    tag_arena_alloc(event->tag_arena, padding);
+    char** new_values = (char**)tag_arena_alloc(event->tag_arena, values_size);
     char* string_storage = (char*)tag_arena_alloc(event->tag_arena, strings_size);
-    if (!string_storage) {
-        return NOSTR_ERR_MEMORY;
-    }
-    
-    tag->count = count;
+
     for (size_t i = 0; i < count; i++) {
         size_t len = strlen(values[i]) + 1;
         memcpy(string_storage, values[i], len);
-        tag->values[i] = string_storage;
+        new_values[i] = string_storage;
         string_storage += len;
     }
+    free(old_memory);
 
+    event->tags[event->tags_count].values = new_values;
+    event->tags[event->tags_count].count = count;
     event->tags_count++;
     return NOSTR_OK;
 }
-- 
2.43.0


From c138ca7e490a061049e5400251df4ee0384416ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:08 +0000
Subject: [PATCH 05/92] fix: report an error instead of dropping elements when
 serializing runs out of memory

---
 src/event.c          |  89 ++++++++---------------------------
 src/json_internal.h  | 107 +++++++++++++++++++++++++++++++++++++++++++
 src/relay_message.c  |  62 +++++++++++++------------
 src/relay_protocol.c |  37 +--------------
 4 files changed, 162 insertions(+), 133 deletions(-)
 create mode 100644 src/json_internal.h

diff --git a/src/event.c b/src/event.c
index f944307..49aaf29 100644
--- a/src/event.c
+++ b/src/event.c
@@ -23,6 +23,7 @@
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
 #include <cjson/cJSON.h>
+#include "json_internal.h"
 #endif
 
 #ifdef HAVE_NOSCRYPT
@@ -287,39 +288,7 @@ static char* escape_json_string(const char* input)
 static char* serialize_for_id(const nostr_event* event)
 {
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
-    char pubkey_hex[65];
-    const char* content = event->content ? event->content : "";
-
-    for (int i = 0; i < NOSTR_PUBKEY_SIZE; i++) {
-        sprintf(pubkey_hex + i * 2, "%02x", event->pubkey.data[i]);
-    }
-    pubkey_hex[64] = '\0';
-
-    cJSON* serialization = cJSON_CreateArray();
-    cJSON_AddItemToArray(serialization, cJSON_CreateNumber(0));
-    cJSON_AddItemToArray(serialization, cJSON_CreateString(pubkey_hex));
-    char created_at[24];
-    snprintf(created_at, sizeof(created_at), "%" PRId64, event->created_at);
-    cJSON_AddItemToArray(serialization, cJSON_CreateRaw(created_at));
-    cJSON_AddItemToArray(serialization, cJSON_CreateNumber(event->kind));
-
-    cJSON* tags_array = cJSON_CreateArray();
-    for (size_t i = 0; i < event->tags_count; i++) {
-        cJSON* tag_array = cJSON_CreateArray();
-        for (size_t j = 0; j < event->tags[i].count; j++) {
-            const char* tag_value = event->tags[i].values[j] ? event->tags[i].values[j] : "";
-            cJSON_AddItemToArray(tag_array, cJSON_CreateString(tag_value));
-        }
-        cJSON_AddItemToArray(tags_array, tag_array);
-    }
-    cJSON_AddItemToArray(serialization, tags_array);
-    cJSON_AddItemToArray(serialization, cJSON_CreateString(content));
-
-    char* result = cJSON_PrintUnformatted(serialization);
-
-    cJSON_Delete(serialization);
-
-    return result;
+    return json_event_id_text(event);
 #else
     char pubkey_hex[65];
     char* content_escaped = escape_json_string(event->content ? event->content : "");
@@ -395,50 +364,32 @@ nostr_error_t nostr_event_to_json(const nostr_event* event, char** json)
     }
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
-    cJSON* root = cJSON_CreateObject();
-    if (!root) {
-        return NOSTR_ERR_MEMORY;
-    }
+    char id_hex[NOSTR_ID_SIZE * 2 + 1];
+    char pubkey_hex[NOSTR_PUBKEY_SIZE * 2 + 1];
+    char sig_hex[NOSTR_SIG_SIZE * 2 + 1];
 
-    char hex_buffer[129];  // 64 bytes * 2 + null terminator
-    
     for (int i = 0; i < NOSTR_ID_SIZE; i++) {
-        sprintf(hex_buffer + i * 2, "%02x", event->id[i]);
+        sprintf(id_hex + i * 2, "%02x", event->id[i]);
     }
-    hex_buffer[64] = '\0';
-    cJSON_AddStringToObject(root, "id", hex_buffer);
-
     for (int i = 0; i < NOSTR_PUBKEY_SIZE; i++) {
-        sprintf(hex_buffer + i * 2, "%02x", event->pubkey.data[i]);
-    }
-    hex_buffer[64] = '\0';
-    cJSON_AddStringToObject(root, "pubkey", hex_buffer);
-
-    char created_at[24];
-    snprintf(created_at, sizeof(created_at), "%" PRId64, event->created_at);
-    cJSON_AddRawToObject(root, "created_at", created_at);
-    cJSON_AddNumberToObject(root, "kind", event->kind);
-
-    cJSON* tags_array = cJSON_CreateArray();
-    for (size_t i = 0; i < event->tags_count; i++) {
-        cJSON* tag_array = cJSON_CreateArray();
-        for (size_t j = 0; j < event->tags[i].count; j++) {
-            const char* tag_value = event->tags[i].values[j] ? event->tags[i].values[j] : "";
-            cJSON_AddItemToArray(tag_array, cJSON_CreateString(tag_value));
-        }
-        cJSON_AddItemToArray(tags_array, tag_array);
+        sprintf(pubkey_hex + i * 2, "%02x", event->pubkey.data[i]);
     }
-    cJSON_AddItemToObject(root, "tags", tags_array);
-
-    cJSON_AddStringToObject(root, "content", event->content ? event->content : "");
-
     for (int i = 0; i < NOSTR_SIG_SIZE; i++) {
-        sprintf(hex_buffer + i * 2, "%02x", event->sig[i]);
+        sprintf(sig_hex + i * 2, "%02x", event->sig[i]);
     }
-    hex_buffer[128] = '\0';
-    cJSON_AddStringToObject(root, "sig", hex_buffer);
 
-    *json = cJSON_Print(root);
+    *json = NULL;
+    cJSON* root = cJSON_CreateObject();
+    if (root &&
+        json_object_add(root, "id", cJSON_CreateString(id_hex)) &&
+        json_object_add(root, "pubkey", cJSON_CreateString(pubkey_hex)) &&
+        json_object_add(root, "created_at", json_int64(event->created_at)) &&
+        json_object_add(root, "kind", cJSON_CreateNumber(event->kind)) &&
+        json_object_add(root, "tags", json_tags(event)) &&
+        json_object_add(root, "content", cJSON_CreateString(event->content ? event->content : "")) &&
+        json_object_add(root, "sig", cJSON_CreateString(sig_hex))) {
+        *json = cJSON_Print(root);
+    }
     cJSON_Delete(root);
 
     return *json ? NOSTR_OK : NOSTR_ERR_MEMORY;
diff --git a/src/json_internal.h b/src/json_internal.h
new file mode 100644
index 0000000..8a896a4
--- /dev/null
+++ b/src/json_internal.h
@@ -0,0 +1,107 @@
+#ifndef NOSTR_JSON_INTERNAL_H
+#define NOSTR_JSON_INTERNAL_H
+
+#include "nostr.h"
+#include <stdio.h>
+#include <string.h>
+#include <inttypes.h>
+#include <cjson/cJSON.h>
+
+/* Appends item, which may be NULL after a failed allocation; frees it and
+ * returns 0 when it cannot be added. */
+static inline int json_array_add(cJSON* array, cJSON* item)
+{
+    if (!item || !cJSON_AddItemToArray(array, item)) {
+        cJSON_Delete(item);
+        return 0;
+    }
+    return 1;
+}
+
+static inline int json_object_add(cJSON* object, const char* name, cJSON* item)
+{
+    if (!item || !cJSON_AddItemToObject(object, name, item)) {
+        cJSON_Delete(item);
+        return 0;
+    }
+    return 1;
+}
+
+/* cJSON numbers are doubles; timestamps are written exactly */
+static inline cJSON* json_int64(int64_t value)
+{
+    char text[24];
+    snprintf(text, sizeof(text), "%" PRId64, value);
+    return cJSON_CreateRaw(text);
+}
+
+static inline cJSON* json_tags(const nostr_event* event)
+{
+    cJSON* tags = cJSON_CreateArray();
+    for (size_t i = 0; tags && i < event->tags_count; i++) {
+        cJSON* tag = cJSON_CreateArray();
+        int ok = tag != NULL;
+        for (size_t j = 0; ok && j < event->tags[i].count; j++) {
+            const char* value = event->tags[i].values[j];
+            ok = json_array_add(tag, cJSON_CreateString(value ? value : ""));
+        }
+        if (!ok) {
+            cJSON_Delete(tag);
+            tag = NULL;
+        }
+        if (!json_array_add(tags, tag)) {
+            cJSON_Delete(tags);
+            tags = NULL;
+        }
+    }
+    return tags;
+}
+
+/* The array [0,pubkey,created_at,kind,tags,content] that the event id hashes */
+static inline char* json_event_id_text(const nostr_event* event)
+{
+    char pubkey_hex[NOSTR_PUBKEY_SIZE * 2 + 1];
+    for (int i = 0; i < NOSTR_PUBKEY_SIZE; i++) {
+        sprintf(pubkey_hex + i * 2, "%02x", event->pubkey.data[i]);
+    }
+
+    char* text = NULL;
+    cJSON* array = cJSON_CreateArray();
+    if (array &&
+        json_array_add(array, cJSON_CreateNumber(0)) &&
+        json_array_add(array, cJSON_CreateString(pubkey_hex)) &&
+        json_array_add(array, json_int64(event->created_at)) &&
+        json_array_add(array, cJSON_CreateNumber(event->kind)) &&
+        json_array_add(array, json_tags(event)) &&
+        json_array_add(array, cJSON_CreateString(event->content ? event->content : ""))) {
+        text = cJSON_PrintUnformatted(array);
+    }
+    cJSON_Delete(array);
+    return text;
+}
+
+/* Parses exactly one JSON value. Text behind it is an error, and so is an
+ * escaped NUL, which a C string cannot hold. */
+static inline cJSON* json_parse_strict(const char* json, size_t len)
+{
+    for (size_t i = 0; i + 1 < len; i++) {
+        if (json[i] == '\\') {
+            if (len - i >= 6 && memcmp(json + i, "\\u0000", 6) == 0) {
+                return NULL;
+            }
+            i++;
+        }
+    }
+
+    const char* end = NULL;
+    cJSON* root = cJSON_ParseWithLengthOpts(json, len, &end, 0);
+    for (; root && end < json + len; end++) {
+        if (*end != ' ' && *end != '\t' && *end != '\r' && *end != '\n') {
+            cJSON_Delete(root);
+            root = NULL;
+        }
+    }
+    return root;
+}
+
+#endif
diff --git a/src/relay_message.c b/src/relay_message.c
index 752a53f..f801696 100644
--- a/src/relay_message.c
+++ b/src/relay_message.c
@@ -9,6 +9,7 @@
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
 #include <cjson/cJSON.h>
+#include "json_internal.h"
 #endif
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
@@ -396,11 +397,9 @@ nostr_relay_error_t nostr_relay_msg_serialize(const nostr_relay_msg_t* msg, char
         return NOSTR_RELAY_ERR_MEMORY;
     }
 
+    int complete = 0;
     switch (msg->type) {
         case NOSTR_RELAY_MSG_EVENT: {
-            cJSON_AddItemToArray(root, cJSON_CreateString("EVENT"));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.event.subscription_id));
-
             if (!msg->data.event.event) {
                 cJSON_Delete(root);
                 return NOSTR_RELAY_ERR_MISSING_FIELD;
@@ -411,57 +410,57 @@ nostr_relay_error_t nostr_relay_msg_serialize(const nostr_relay_msg_t* msg, char
                 return NOSTR_RELAY_ERR_MEMORY;
             }
             cJSON_Minify(event_json);
-            cJSON* event_obj = cJSON_CreateRaw(event_json);
+            complete = json_array_add(root, cJSON_CreateString("EVENT")) &&
+                       json_array_add(root, cJSON_CreateString(msg->data.event.subscription_id)) &&
+                       json_array_add(root, cJSON_CreateRaw(event_json));
             free(event_json);
-            if (!event_obj) {
-                cJSON_Delete(root);
-                return NOSTR_RELAY_ERR_MEMORY;
-            }
-            cJSON_AddItemToArray(root, event_obj);
             break;
         }
 
         case NOSTR_RELAY_MSG_OK:
-            cJSON_AddItemToArray(root, cJSON_CreateString("OK"));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.ok.event_id));
-            cJSON_AddItemToArray(root, cJSON_CreateBool(msg->data.ok.success));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.ok.message));
+            complete = json_array_add(root, cJSON_CreateString("OK")) &&
+                       json_array_add(root, cJSON_CreateString(msg->data.ok.event_id)) &&
+                       json_array_add(root, cJSON_CreateBool(msg->data.ok.success)) &&
+                       json_array_add(root, cJSON_CreateString(msg->data.ok.message));
             break;
 
         case NOSTR_RELAY_MSG_EOSE:
-            cJSON_AddItemToArray(root, cJSON_CreateString("EOSE"));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.eose.subscription_id));
+            complete = json_array_add(root, cJSON_CreateString("EOSE")) &&
+                       json_array_add(root, cJSON_CreateString(msg->data.eose.subscription_id));
             break;
 
         case NOSTR_RELAY_MSG_CLOSED:
-            cJSON_AddItemToArray(root, cJSON_CreateString("CLOSED"));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.closed.subscription_id));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.closed.message));
+            complete = json_array_add(root, cJSON_CreateString("CLOSED")) &&
+                       json_array_add(root, cJSON_CreateString(msg->data.closed.subscription_id)) &&
+                       json_array_add(root, cJSON_CreateString(msg->data.closed.message));
             break;
 
         case NOSTR_RELAY_MSG_NOTICE:
-            cJSON_AddItemToArray(root, cJSON_CreateString("NOTICE"));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.notice.message));
+            complete = json_array_add(root, cJSON_CreateString("NOTICE")) &&
+                       json_array_add(root, cJSON_CreateString(msg->data.notice.message));
             break;
 
         case NOSTR_RELAY_MSG_AUTH:
-            cJSON_AddItemToArray(root, cJSON_CreateString("AUTH"));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.auth.challenge));
+            complete = json_array_add(root, cJSON_CreateString("AUTH")) &&
+                       json_array_add(root, cJSON_CreateString(msg->data.auth.challenge));
             break;
 
         case NOSTR_RELAY_MSG_COUNT: {
-            cJSON_AddItemToArray(root, cJSON_CreateString("COUNT"));
-            cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.count.query_id));
             cJSON* count_obj = cJSON_CreateObject();
-            if (!count_obj) {
+            if (!count_obj ||
+                !json_object_add(count_obj, "count", json_int64(msg->data.count.count)) ||
+                (msg->data.count.approximate &&
+                 !json_object_add(count_obj, "approximate", cJSON_CreateBool(1)))) {
+                cJSON_Delete(count_obj);
                 cJSON_Delete(root);
                 return NOSTR_RELAY_ERR_MEMORY;
             }
-            cJSON_AddNumberToObject(count_obj, "count", (double)msg->data.count.count);
-            if (msg->data.count.approximate) {
-                cJSON_AddBoolToObject(count_obj, "approximate", cJSON_True);
+            complete = json_array_add(root, cJSON_CreateString("COUNT")) &&
+                       json_array_add(root, cJSON_CreateString(msg->data.count.query_id)) &&
+                       cJSON_AddItemToArray(root, count_obj);
+            if (!complete) {
+                cJSON_Delete(count_obj);
             }
-            cJSON_AddItemToArray(root, count_obj);
             break;
         }
 
@@ -470,6 +469,11 @@ nostr_relay_error_t nostr_relay_msg_serialize(const nostr_relay_msg_t* msg, char
             return NOSTR_RELAY_ERR_UNKNOWN_MESSAGE_TYPE;
     }
 
+    if (!complete) {
+        cJSON_Delete(root);
+        return NOSTR_RELAY_ERR_MEMORY;
+    }
+
     char* json_str = cJSON_PrintUnformatted(root);
     cJSON_Delete(root);
 
diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index 56594ee..e884dc1 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -7,11 +7,11 @@
 #include <stdlib.h>
 #include <string.h>
 #include <stdio.h>
-#include <inttypes.h>
 #include <time.h>
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
 #include <cjson/cJSON.h>
+#include "json_internal.h"
 #endif
 
 const char* nostr_relay_error_string(nostr_relay_error_t error)
@@ -317,40 +317,7 @@ nostr_relay_error_t nostr_event_serialize_canonical(const nostr_event* event, ch
         return NOSTR_RELAY_ERR_INVALID_JSON;
     }
 
-    char pubkey_hex[65];
-    for (int i = 0; i < NOSTR_PUBKEY_SIZE; i++) {
-        sprintf(pubkey_hex + i * 2, "%02x", event->pubkey.data[i]);
-    }
-    pubkey_hex[64] = '\0';
-
-    cJSON* serialization = cJSON_CreateArray();
-    if (!serialization) {
-        return NOSTR_RELAY_ERR_MEMORY;
-    }
-
-    cJSON_AddItemToArray(serialization, cJSON_CreateNumber(0));
-    cJSON_AddItemToArray(serialization, cJSON_CreateString(pubkey_hex));
-    char created_at[24];
-    snprintf(created_at, sizeof(created_at), "%" PRId64, event->created_at);
-    cJSON_AddItemToArray(serialization, cJSON_CreateRaw(created_at));
-    cJSON_AddItemToArray(serialization, cJSON_CreateNumber(event->kind));
-
-    cJSON* tags_array = cJSON_CreateArray();
-    for (size_t i = 0; i < event->tags_count; i++) {
-        cJSON* tag_array = cJSON_CreateArray();
-        for (size_t j = 0; j < event->tags[i].count; j++) {
-            const char* tag_value = event->tags[i].values[j] ? event->tags[i].values[j] : "";
-            cJSON_AddItemToArray(tag_array, cJSON_CreateString(tag_value));
-        }
-        cJSON_AddItemToArray(tags_array, tag_array);
-    }
-    cJSON_AddItemToArray(serialization, tags_array);
-
-    cJSON_AddItemToArray(serialization, cJSON_CreateString(event->content ? event->content : ""));
-
-    char* json_str = cJSON_PrintUnformatted(serialization);
-    cJSON_Delete(serialization);
-
+    char* json_str = json_event_id_text(event);
     if (!json_str) {
         return NOSTR_RELAY_ERR_MEMORY;
     }
-- 
2.43.0


From 3f166972bbac42d685de32116dd245ea44c71b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:26 +0000
Subject: [PATCH 06/92] fix: parse event JSON strictly and respect the given
 length

---
 src/event.c          | 231 ++++++++++++++++++++++++-------------------
 src/json_internal.h  |  22 ++++-
 src/relay_protocol.c |  17 +++-
 3 files changed, 162 insertions(+), 108 deletions(-)

diff --git a/src/event.c b/src/event.c
index 49aaf29..c3c1a48 100644
--- a/src/event.c
+++ b/src/event.c
@@ -57,6 +57,7 @@ static nostr_error_t tag_arena_create(nostr_tag_arena** arena, size_t initial_ca
     (*arena)->memory = malloc(initial_capacity);
     if (!(*arena)->memory) {
         free(*arena);
+        *arena = NULL;
         return NOSTR_ERR_MEMORY;
     }
     
@@ -407,137 +408,167 @@ static int hex_to_bytes(const char* hex, unsigned char* bytes, size_t bytes_len)
     return nostr_hex_decode(hex, bytes, bytes_len) == (int)bytes_len;
 }
 
-nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
+#ifdef NOSTR_FEATURE_JSON_ENHANCED
+/* Integers of larger magnitude are not exact in a JSON number (a double) */
+#define MAX_JSON_INTEGER 9007199254740991.0
+
+static int parse_json_integer(const cJSON* item, double min, double max, int64_t* value)
 {
-    if (!json || !event) {
-        return NOSTR_ERR_INVALID_PARAM;
+    if (!(item->valuedouble >= min && item->valuedouble <= max)) {
+        return 0;
     }
 
-#ifdef NOSTR_FEATURE_JSON_ENHANCED
-    cJSON* root = cJSON_Parse(json);
-    if (!root) {
+    *value = (int64_t)item->valuedouble;
+    return (double)*value == item->valuedouble;
+}
+
+static nostr_error_t parse_hex_member(const cJSON* root, const char* name, unsigned char* bytes, size_t bytes_len)
+{
+    const cJSON* item = cJSON_GetObjectItemCaseSensitive(root, name);
+    if (!item) {
+        return NOSTR_OK;
+    }
+    if (!cJSON_IsString(item)) {
         return NOSTR_ERR_JSON_PARSE;
     }
+    return hex_to_bytes(item->valuestring, bytes, bytes_len) ? NOSTR_OK : NOSTR_ERR_INVALID_EVENT;
+}
 
-    *event = calloc(1, sizeof(nostr_event));
-    if (!*event) {
-        cJSON_Delete(root);
-        return NOSTR_ERR_MEMORY;
-    }
-    
-    if (tag_arena_create(&(*event)->tag_arena, 1024) != NOSTR_OK) {
-        free(*event);
-        cJSON_Delete(root);
-        return NOSTR_ERR_MEMORY;
+static nostr_error_t parse_tags_member(const cJSON* tags_json, nostr_event* event)
+{
+    const nostr_config* config = nostr_config_get_current();
+    if (config && cJSON_GetArraySize(tags_json) > (int)config->max_tags) {
+        return NOSTR_ERR_INVALID_PARAM;
     }
 
-    cJSON* id_json = cJSON_GetObjectItem(root, "id");
-    if (id_json && cJSON_IsString(id_json)) {
-        if (!hex_to_bytes(id_json->valuestring, (*event)->id, NOSTR_ID_SIZE)) {
-            nostr_event_destroy(*event);
-            cJSON_Delete(root);
-            return NOSTR_ERR_INVALID_EVENT;
+    const cJSON* tag_json;
+    cJSON_ArrayForEach(tag_json, tags_json) {
+        int tag_size = cJSON_GetArraySize(tag_json);
+        if (!cJSON_IsArray(tag_json) || tag_size == 0) {
+            return NOSTR_ERR_JSON_PARSE;
         }
-    }
 
-    cJSON* pubkey_json = cJSON_GetObjectItem(root, "pubkey");
-    if (pubkey_json && cJSON_IsString(pubkey_json)) {
-        if (!hex_to_bytes(pubkey_json->valuestring, (*event)->pubkey.data, NOSTR_PUBKEY_SIZE)) {
-            nostr_event_destroy(*event);
-            cJSON_Delete(root);
-            return NOSTR_ERR_INVALID_EVENT;
+        const char** values = malloc(sizeof(char*) * tag_size);
+        if (!values) {
+            return NOSTR_ERR_MEMORY;
+        }
+
+        nostr_error_t err = NOSTR_OK;
+        size_t count = 0;
+        const cJSON* value_json;
+        cJSON_ArrayForEach(value_json, tag_json) {
+            if (!cJSON_IsString(value_json)) {
+                err = NOSTR_ERR_JSON_PARSE;
+                break;
+            }
+            values[count++] = value_json->valuestring;
+        }
+        if (err == NOSTR_OK) {
+            err = nostr_event_add_tag(event, values, count);
+        }
+        free(values);
+        if (err != NOSTR_OK) {
+            return err;
         }
     }
 
-    cJSON* created_at_json = cJSON_GetObjectItem(root, "created_at");
-    if (created_at_json && cJSON_IsNumber(created_at_json)) {
-        (*event)->created_at = (int64_t)created_at_json->valuedouble;
+    return NOSTR_OK;
+}
+
+static nostr_error_t parse_event_members(const cJSON* root, nostr_event* event)
+{
+    nostr_error_t err = parse_hex_member(root, "id", event->id, NOSTR_ID_SIZE);
+    if (err == NOSTR_OK) {
+        err = parse_hex_member(root, "pubkey", event->pubkey.data, NOSTR_PUBKEY_SIZE);
+    }
+    if (err == NOSTR_OK) {
+        err = parse_hex_member(root, "sig", event->sig, NOSTR_SIG_SIZE);
+    }
+    if (err != NOSTR_OK) {
+        return err;
     }
 
-    cJSON* kind_json = cJSON_GetObjectItem(root, "kind");
-    if (kind_json && cJSON_IsNumber(kind_json)) {
-        (*event)->kind = (uint16_t)kind_json->valueint;
+    const cJSON* created_at_json = cJSON_GetObjectItemCaseSensitive(root, "created_at");
+    if (created_at_json) {
+        if (!cJSON_IsNumber(created_at_json)) {
+            return NOSTR_ERR_JSON_PARSE;
+        }
+        if (!parse_json_integer(created_at_json, -MAX_JSON_INTEGER, MAX_JSON_INTEGER, &event->created_at)) {
+            return NOSTR_ERR_INVALID_EVENT;
+        }
     }
 
-    cJSON* content_json = cJSON_GetObjectItem(root, "content");
-    if (content_json && cJSON_IsString(content_json)) {
-        const nostr_config* cfg = nostr_config_get_current();
-        if (cfg && strlen(content_json->valuestring) > cfg->max_content_size) {
-            nostr_event_destroy(*event);
-            cJSON_Delete(root);
-            return NOSTR_ERR_INVALID_PARAM;
+    const cJSON* kind_json = cJSON_GetObjectItemCaseSensitive(root, "kind");
+    if (kind_json) {
+        int64_t kind;
+        if (!cJSON_IsNumber(kind_json)) {
+            return NOSTR_ERR_JSON_PARSE;
         }
-        (*event)->content = strdup(content_json->valuestring);
-        if (!(*event)->content) {
-            nostr_event_destroy(*event);
-            cJSON_Delete(root);
-            return NOSTR_ERR_MEMORY;
+        if (!parse_json_integer(kind_json, 0, UINT16_MAX, &kind)) {
+            return NOSTR_ERR_INVALID_EVENT;
         }
+        event->kind = (uint16_t)kind;
     }
 
-    cJSON* tags_json = cJSON_GetObjectItem(root, "tags");
-    if (tags_json && cJSON_IsArray(tags_json)) {
-        int tags_count = cJSON_GetArraySize(tags_json);
+    const cJSON* content_json = cJSON_GetObjectItemCaseSensitive(root, "content");
+    if (content_json) {
+        if (!cJSON_IsString(content_json)) {
+            return NOSTR_ERR_JSON_PARSE;
+        }
         const nostr_config* config = nostr_config_get_current();
-        if (config && tags_count > (int)config->max_tags) {
-            nostr_event_destroy(*event);
-            cJSON_Delete(root);
+        if (config && strlen(content_json->valuestring) > config->max_content_size) {
             return NOSTR_ERR_INVALID_PARAM;
         }
-        if (tags_count > 0) {
-            (*event)->tags = calloc(tags_count, sizeof(nostr_tag));
-            if (!(*event)->tags) {
-                nostr_event_destroy(*event);
-                cJSON_Delete(root);
-                return NOSTR_ERR_MEMORY;
-            }
-
-            (*event)->tags_count = 0;
-            for (int i = 0; i < tags_count; i++) {
-                cJSON* tag_json = cJSON_GetArrayItem(tags_json, i);
-                if (cJSON_IsArray(tag_json)) {
-                    int tag_size = cJSON_GetArraySize(tag_json);
-                    if (tag_size > 0) {
-                        const char** temp_values = malloc(sizeof(char*) * tag_size);
-                        if (!temp_values) {
-                            nostr_event_destroy(*event);
-                            cJSON_Delete(root);
-                            return NOSTR_ERR_MEMORY;
-                        }
-                        
-                        for (int j = 0; j < tag_size; j++) {
-                            cJSON* value_json = cJSON_GetArrayItem(tag_json, j);
-                            if (cJSON_IsString(value_json)) {
-                                temp_values[j] = value_json->valuestring;
-                            } else {
-                                temp_values[j] = "";
-                            }
-                        }
-                        
-                        if (nostr_event_add_tag(*event, temp_values, tag_size) != NOSTR_OK) {
-                            free(temp_values);
-                            nostr_event_destroy(*event);
-                            cJSON_Delete(root);
-                            return NOSTR_ERR_MEMORY;
-                        }
-                        
-                        free(temp_values);
-                    }
-                }
-            }
+        err = nostr_event_set_content(event, content_json->valuestring);
+        if (err != NOSTR_OK) {
+            return err;
         }
     }
 
-    cJSON* sig_json = cJSON_GetObjectItem(root, "sig");
-    if (sig_json && cJSON_IsString(sig_json)) {
-        if (!hex_to_bytes(sig_json->valuestring, (*event)->sig, NOSTR_SIG_SIZE)) {
-            nostr_event_destroy(*event);
-            cJSON_Delete(root);
-            return NOSTR_ERR_INVALID_EVENT;
+    const cJSON* tags_json = cJSON_GetObjectItemCaseSensitive(root, "tags");
+    if (tags_json) {
+        if (!cJSON_IsArray(tags_json)) {
+            return NOSTR_ERR_JSON_PARSE;
         }
+        return parse_tags_member(tags_json, event);
+    }
+
+    return NOSTR_OK;
+}
+#endif
+
+nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
+{
+    if (!json || !event) {
+        return NOSTR_ERR_INVALID_PARAM;
+    }
+
+#ifdef NOSTR_FEATURE_JSON_ENHANCED
+    *event = NULL;
+    cJSON* root = json_parse_strict(json, strlen(json));
+    if (!cJSON_IsObject(root)) {
+        cJSON_Delete(root);
+        return NOSTR_ERR_JSON_PARSE;
+    }
+
+    nostr_event* parsed = calloc(1, sizeof(nostr_event));
+    if (!parsed) {
+        cJSON_Delete(root);
+        return NOSTR_ERR_MEMORY;
     }
 
+    nostr_error_t err = NOSTR_ERR_MEMORY;
+    if (tag_arena_create(&parsed->tag_arena, 1024) == NOSTR_OK) {
+        err = parse_event_members(root, parsed);
+    }
     cJSON_Delete(root);
+
+    if (err != NOSTR_OK) {
+        nostr_event_destroy(parsed);
+        return err;
+    }
+
+    *event = parsed;
     return NOSTR_OK;
 #else
     return NOSTR_ERR_NOT_SUPPORTED;
diff --git a/src/json_internal.h b/src/json_internal.h
index 8a896a4..1c1cc01 100644
--- a/src/json_internal.h
+++ b/src/json_internal.h
@@ -2,6 +2,7 @@
 #define NOSTR_JSON_INTERNAL_H
 
 #include "nostr.h"
+#include <ctype.h>
 #include <stdio.h>
 #include <string.h>
 #include <inttypes.h>
@@ -80,16 +81,27 @@ static inline char* json_event_id_text(const nostr_event* event)
     return text;
 }
 
-/* Parses exactly one JSON value. Text behind it is an error, and so is an
- * escaped NUL, which a C string cannot hold. */
+/* Parses exactly one JSON value. Text behind it is an error, and so are \u
+ * escapes that are malformed (cJSON reads them as NUL) or denote NUL, which a
+ * C string cannot hold. */
 static inline cJSON* json_parse_strict(const char* json, size_t len)
 {
     for (size_t i = 0; i + 1 < len; i++) {
-        if (json[i] == '\\') {
-            if (len - i >= 6 && memcmp(json + i, "\\u0000", 6) == 0) {
+        if (json[i] != '\\') {
+            continue;
+        }
+        i++;
+        if (json[i] == 'u') {
+            int zero = 1;
+            for (size_t j = i + 1; j <= i + 4; j++) {
+                if (j >= len || !isxdigit((unsigned char)json[j])) {
+                    return NULL;
+                }
+                zero = zero && json[j] == '0';
+            }
+            if (zero) {
                 return NULL;
             }
-            i++;
         }
     }
 
diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index e884dc1..9eab61d 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -289,13 +289,24 @@ bool nostr_event_is_expired_now(const nostr_event* event)
 
 nostr_relay_error_t nostr_event_parse(const char* json, size_t json_len, nostr_event** event)
 {
-    (void)json_len;
-
     if (!json || !event) {
         return NOSTR_RELAY_ERR_INVALID_JSON;
     }
 
-    nostr_error_t err = nostr_event_from_json(json, event);
+    nostr_error_t err;
+    if (json_len > 0) {
+        *event = NULL;
+        char* text = malloc(json_len + 1);
+        if (!text) {
+            return NOSTR_RELAY_ERR_MEMORY;
+        }
+        memcpy(text, json, json_len);
+        text[json_len] = '\0';
+        err = nostr_event_from_json(text, event);
+        free(text);
+    } else {
+        err = nostr_event_from_json(json, event);
+    }
 
     switch (err) {
         case NOSTR_OK:
-- 
2.43.0


From 78d93453147825a0bbbfdd618c96f63208ddec6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:25 +0000
Subject: [PATCH 07/92] fix: keep bech32 key decoding in bounds and refuse
 other entities as public keys

---
 src/bech32.c | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/bech32.c b/src/bech32.c
index 5bb58d9..fd34dc0 100644
--- a/src/bech32.c
+++ b/src/bech32.c
@@ -120,9 +120,14 @@ nostr_error_t nostr_key_to_bech32(const nostr_key* key, const char* prefix, char
     }
     
     size_t prefix_len = strlen(prefix);
-    if (prefix_len == 0 || bech32_size < prefix_len + 1 + 52 + 6 + 1) {
+    if (prefix_len == 0 || prefix_len > 90 - (1 + 52 + 6) || bech32_size < prefix_len + 1 + 52 + 6 + 1) {
         return NOSTR_ERR_INVALID_PARAM;
     }
+    for (size_t i = 0; i < prefix_len; i++) {
+        if (prefix[i] < 33 || prefix[i] > 126 || (prefix[i] >= 'A' && prefix[i] <= 'Z')) {
+            return NOSTR_ERR_INVALID_PARAM;
+        }
+    }
     
     uint8_t data[52];
     int data_len = bech32_convert_bits(key->data, NOSTR_PUBKEY_SIZE, data, sizeof(data), 8, 5, 1);
@@ -176,10 +181,21 @@ nostr_error_t nostr_key_from_bech32(const char* bech32, nostr_key* key) {
     if (sep >= sizeof(hrp)) {
         return NOSTR_ERR_ENCODING;
     }
-    strncpy(hrp, bech32, sep);
+    memcpy(hrp, bech32, sep);
     hrp[sep] = '\0';
-    
-    uint8_t data[84];
+
+    for (int i = 0; i < sep; i++) {
+        if (hrp[i] < 33 || hrp[i] > 126 || (hrp[i] >= 'A' && hrp[i] <= 'Z')) {
+            return NOSTR_ERR_ENCODING;
+        }
+    }
+
+    /* A private key or an event id is not a public key */
+    if (strcmp(hrp, "nsec") == 0 || strcmp(hrp, "note") == 0) {
+        return NOSTR_ERR_ENCODING;
+    }
+
+    uint8_t data[90];
     for (int i = sep + 1; i < len; i++) {
         int val = bech32_charset_decode(bech32[i]);
         if (val == -1) {
@@ -246,11 +262,11 @@ nostr_error_t nostr_privkey_from_bech32(const char* bech32, nostr_privkey* privk
     }
     
     size_t len = strlen(bech32);
-    if (len < 8 || len > 90) {
+    if (len < 5 + 6 || len > 90) {
         return NOSTR_ERR_ENCODING;
     }
     
-    uint8_t data[84];
+    uint8_t data[90];
     for (int i = 5; i < len; i++) {
         int val = bech32_charset_decode(bech32[i]);
         if (val == -1) {
@@ -317,11 +333,11 @@ nostr_error_t nostr_event_id_from_bech32(const char* bech32, uint8_t* id) {
     }
     
     size_t len = strlen(bech32);
-    if (len < 8 || len > 90) {
+    if (len < 5 + 6 || len > 90) {
         return NOSTR_ERR_ENCODING;
     }
     
-    uint8_t data[84];
+    uint8_t data[90];
     for (int i = 5; i < len; i++) {
         int val = bech32_charset_decode(bech32[i]);
         if (val == -1) {
-- 
2.43.0


From 52867a94cb11c6ce25ae5f9e6f97791e27b35c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 08/92] fix: NIP-19 entities: no silently dropped relays,
 strict TLV fields, terminated identifiers

---
 src/nip21.c | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/nip21.c b/src/nip21.c
index e3e783d..52b90ef 100644
--- a/src/nip21.c
+++ b/src/nip21.c
@@ -12,6 +12,9 @@
 #define TLV_AUTHOR  2
 #define TLV_KIND    3
 
+/* Largest TLV form of an entity: special, all relays, author and kind */
+#define TLV_MAX_SIZE (2 + 255 + NOSTR_URI_MAX_RELAYS * (2 + 255) + 2 + 32 + 2 + 4)
+
 static nostr_error_t decode_bech32_to_bytes(const char* bech32, const char* expected_hrp,
                                             uint8_t* out, size_t out_size, size_t* out_len) {
     if (!bech32 || !out) return NOSTR_ERR_INVALID_PARAM;
@@ -79,7 +82,10 @@ static nostr_error_t encode_bytes_to_bech32(const uint8_t* data, size_t data_len
     }
 
     uint8_t checksum[6];
-    bech32_create_checksum(hrp, conv, conv_len, checksum);
+    if (!bech32_create_checksum(hrp, conv, conv_len, checksum)) {
+        free(conv);
+        return NOSTR_ERR_MEMORY;
+    }
 
     memcpy(out, hrp, hrp_len);
     out[hrp_len] = '1';
@@ -145,13 +151,15 @@ static nostr_error_t parse_tlv(const uint8_t* data, size_t data_len,
                 }
                 break;
             case TLV_AUTHOR:
-                if (author && len == 32 && has_author) {
+                if (author && has_author) {
+                    if (len != 32) goto cleanup_error;
                     memcpy(author, data + pos, 32);
                     *has_author = 1;
                 }
                 break;
             case TLV_KIND:
-                if (kind && len == 4 && has_kind) {
+                if (kind && has_kind) {
+                    if (len != 4) goto cleanup_error;
                     *kind = ((uint32_t)data[pos] << 24) |
                             ((uint32_t)data[pos + 1] << 16) |
                             ((uint32_t)data[pos + 2] << 8) |
@@ -163,7 +171,7 @@ static nostr_error_t parse_tlv(const uint8_t* data, size_t data_len,
         pos += len;
     }
 
-    return NOSTR_OK;
+    if (pos == data_len) return NOSTR_OK;
 
 cleanup_error:
     if (relays) {
@@ -183,7 +191,7 @@ static size_t build_tlv(uint8_t* out, size_t out_size,
                         const uint32_t* kind) {
     size_t pos = 0;
 
-    if (special && special_len > 0) {
+    if (special) {
         if (special_len > 255) return 0;
         if (pos + 2 + special_len > out_size) return 0;
         out[pos++] = TLV_SPECIAL;
@@ -197,7 +205,8 @@ static size_t build_tlv(uint8_t* out, size_t out_size,
             relay_count = NOSTR_URI_MAX_RELAYS;
         for (size_t i = 0; i < relay_count && relays[i]; i++) {
             size_t rlen = strlen(relays[i]);
-            if (rlen > 255 || pos + 2 + rlen > out_size) continue;
+            if (!is_valid_relay_url(relays[i], rlen)) return 0;
+            if (pos + 2 + rlen > out_size) return 0;
             out[pos++] = TLV_RELAY;
             out[pos++] = (uint8_t)rlen;
             memcpy(out + pos, relays[i], rlen);
@@ -229,7 +238,7 @@ static size_t build_tlv(uint8_t* out, size_t out_size,
 nostr_error_t nostr_nprofile_encode(const nostr_nprofile* profile, char* bech32, size_t bech32_size) {
     if (!profile || !bech32) return NOSTR_ERR_INVALID_PARAM;
 
-    uint8_t tlv[4096];
+    uint8_t tlv[TLV_MAX_SIZE];
     size_t tlv_len = build_tlv(tlv, sizeof(tlv),
                                profile->pubkey.data, 32,
                                profile->relays, profile->relay_count,
@@ -244,7 +253,7 @@ nostr_error_t nostr_nprofile_decode(const char* bech32, nostr_nprofile* profile)
 
     memset(profile, 0, sizeof(nostr_nprofile));
 
-    uint8_t data[4096];
+    uint8_t data[TLV_MAX_SIZE];
     size_t data_len;
     nostr_error_t err = decode_bech32_to_bytes(bech32, "nprofile", data, sizeof(data), &data_len);
     if (err != NOSTR_OK) return err;
@@ -279,7 +288,7 @@ void nostr_nprofile_free(nostr_nprofile* profile) {
 nostr_error_t nostr_nevent_encode(const nostr_nevent* nevent, char* bech32, size_t bech32_size) {
     if (!nevent || !bech32) return NOSTR_ERR_INVALID_PARAM;
 
-    uint8_t tlv[4096];
+    uint8_t tlv[TLV_MAX_SIZE];
     size_t tlv_len = build_tlv(tlv, sizeof(tlv),
                                nevent->id, 32,
                                nevent->relays, nevent->relay_count,
@@ -295,7 +304,7 @@ nostr_error_t nostr_nevent_decode(const char* bech32, nostr_nevent* nevent) {
 
     memset(nevent, 0, sizeof(nostr_nevent));
 
-    uint8_t data[4096];
+    uint8_t data[TLV_MAX_SIZE];
     size_t data_len;
     nostr_error_t err = decode_bech32_to_bytes(bech32, "nevent", data, sizeof(data), &data_len);
     if (err != NOSTR_OK) return err;
@@ -323,7 +332,7 @@ void nostr_nevent_free(nostr_nevent* nevent) {
 nostr_error_t nostr_naddr_encode(const nostr_naddr* addr, char* bech32, size_t bech32_size) {
     if (!addr || !bech32) return NOSTR_ERR_INVALID_PARAM;
 
-    uint8_t tlv[4096];
+    uint8_t tlv[TLV_MAX_SIZE];
     size_t id_len = strnlen(addr->identifier, NOSTR_URI_MAX_IDENTIFIER_LEN);
     size_t tlv_len = build_tlv(tlv, sizeof(tlv),
                                (const uint8_t*)addr->identifier, id_len,
@@ -339,7 +348,7 @@ nostr_error_t nostr_naddr_decode(const char* bech32, nostr_naddr* addr) {
 
     memset(addr, 0, sizeof(nostr_naddr));
 
-    uint8_t data[4096];
+    uint8_t data[TLV_MAX_SIZE];
     size_t data_len;
     nostr_error_t err = decode_bech32_to_bytes(bech32, "naddr", data, sizeof(data), &data_len);
     if (err != NOSTR_OK) return err;
@@ -354,7 +363,8 @@ nostr_error_t nostr_naddr_decode(const char* bech32, nostr_naddr* addr) {
                     addr->pubkey.data, &has_author,
                     &addr->kind, &has_kind);
 
-    if (err != NOSTR_OK || !has_author || !has_kind || special_len >= NOSTR_URI_MAX_IDENTIFIER_LEN) {
+    if (err != NOSTR_OK || !has_author || !has_kind || special_len >= NOSTR_URI_MAX_IDENTIFIER_LEN ||
+        memchr(special, '\0', special_len)) {
         nostr_naddr_free(addr);
         return err != NOSTR_OK ? err : NOSTR_ERR_ENCODING;
     }
@@ -389,7 +399,7 @@ nostr_error_t nostr_nrelay_decode(const char* bech32, nostr_nrelay* relay) {
 
     memset(relay, 0, sizeof(nostr_nrelay));
 
-    uint8_t data[512];
+    uint8_t data[TLV_MAX_SIZE];
     size_t data_len;
     nostr_error_t err = decode_bech32_to_bytes(bech32, "nrelay", data, sizeof(data), &data_len);
     if (err != NOSTR_OK) return err;
@@ -399,7 +409,8 @@ nostr_error_t nostr_nrelay_decode(const char* bech32, nostr_nrelay* relay) {
     size_t unused_count = 0;
 
     err = parse_tlv(data, data_len, special, sizeof(special), &special_len, NULL, &unused_count, 0, NULL, NULL, NULL, NULL);
-    if (err != NOSTR_OK || special_len == 0 || special_len >= NOSTR_URI_MAX_RELAY_LEN) {
+    if (err != NOSTR_OK || special_len == 0 || special_len >= NOSTR_URI_MAX_RELAY_LEN ||
+        memchr(special, '\0', special_len)) {
         return err != NOSTR_OK ? err : NOSTR_ERR_ENCODING;
     }
 
@@ -417,7 +428,7 @@ nostr_error_t nostr_uri_parse(const char* uri, nostr_uri* result) {
     if (strncmp(uri, "nostr:", 6) != 0) return NOSTR_ERR_ENCODING;
     const char* entity = uri + 6;
 
-    if (strncmp(entity, "npub1", 5) == 0) {
+    if (strncmp(entity, "npub1", 5) == 0 && !strchr(entity + 5, '1')) {
         result->type = NOSTR_URI_NPUB;
         return nostr_key_from_bech32(entity, &result->data.npub);
     }
-- 
2.43.0


From eb442c173a1b51fd70ae6a8e81f369a2c68ee289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:52 +0000
Subject: [PATCH 09/92] fix: reject filter JSON whose conditions cannot be read
 instead of widening the filter

---
 src/relay_filter.c | 132 ++++++++++++++++++++++++++++-----------------
 1 file changed, 83 insertions(+), 49 deletions(-)

diff --git a/src/relay_filter.c b/src/relay_filter.c
index 6ef4301..b0ddf1b 100644
--- a/src/relay_filter.c
+++ b/src/relay_filter.c
@@ -11,22 +11,27 @@
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
 #include <cjson/cJSON.h>
+#include "json_internal.h"
 #endif
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
 
+/* A condition that cannot be read must not widen the filter: members of a
+ * wrong type or out of range are errors, only absent ones mean "any". */
+
 static nostr_relay_error_t parse_string_array(cJSON* arr, char*** out_arr, size_t* out_count)
 {
-    if (!arr || !cJSON_IsArray(arr)) {
-        *out_arr = NULL;
-        *out_count = 0;
+    *out_arr = NULL;
+    *out_count = 0;
+    if (!arr) {
         return NOSTR_RELAY_OK;
     }
+    if (!cJSON_IsArray(arr)) {
+        return NOSTR_RELAY_ERR_INVALID_JSON;
+    }
 
     int count = cJSON_GetArraySize(arr);
     if (count == 0) {
-        *out_arr = NULL;
-        *out_count = 0;
         return NOSTR_RELAY_OK;
     }
 
@@ -34,44 +39,59 @@ static nostr_relay_error_t parse_string_array(cJSON* arr, char*** out_arr, size_
         return NOSTR_RELAY_ERR_INVALID_JSON;
     }
 
+    cJSON* item;
+    cJSON_ArrayForEach(item, arr) {
+        if (!cJSON_IsString(item) || !item->valuestring) {
+            return NOSTR_RELAY_ERR_INVALID_JSON;
+        }
+    }
+
     *out_arr = calloc((size_t)count, sizeof(char*));
     if (!*out_arr) {
         return NOSTR_RELAY_ERR_MEMORY;
     }
 
-    *out_count = 0;
-    for (int i = 0; i < count; i++) {
-        cJSON* item = cJSON_GetArrayItem(arr, i);
-        if (cJSON_IsString(item) && item->valuestring) {
-            (*out_arr)[*out_count] = strdup(item->valuestring);
-            if (!(*out_arr)[*out_count]) {
-                for (size_t j = 0; j < *out_count; j++) {
-                    free((*out_arr)[j]);
-                }
-                free(*out_arr);
-                *out_arr = NULL;
-                *out_count = 0;
-                return NOSTR_RELAY_ERR_MEMORY;
+    cJSON_ArrayForEach(item, arr) {
+        (*out_arr)[*out_count] = strdup(item->valuestring);
+        if (!(*out_arr)[*out_count]) {
+            for (size_t j = 0; j < *out_count; j++) {
+                free((*out_arr)[j]);
             }
-            (*out_count)++;
+            free(*out_arr);
+            *out_arr = NULL;
+            *out_count = 0;
+            return NOSTR_RELAY_ERR_MEMORY;
         }
+        (*out_count)++;
     }
 
     return NOSTR_RELAY_OK;
 }
 
-static nostr_relay_error_t parse_int_array(cJSON* arr, int32_t** out_arr, size_t* out_count)
+static nostr_relay_error_t parse_integer(const cJSON* item, int64_t min, int64_t max, int64_t* out)
 {
-    if (!arr || !cJSON_IsArray(arr)) {
-        *out_arr = NULL;
-        *out_count = 0;
+    if (!cJSON_IsNumber(item) ||
+        !(item->valuedouble >= (double)min && item->valuedouble <= (double)max) ||
+        item->valuedouble != (double)(int64_t)item->valuedouble) {
+        return NOSTR_RELAY_ERR_INVALID_JSON;
+    }
+    *out = (int64_t)item->valuedouble;
+    return NOSTR_RELAY_OK;
+}
+
+static nostr_relay_error_t parse_kind_array(cJSON* arr, int32_t** out_arr, size_t* out_count)
+{
+    *out_arr = NULL;
+    *out_count = 0;
+    if (!arr) {
         return NOSTR_RELAY_OK;
     }
+    if (!cJSON_IsArray(arr)) {
+        return NOSTR_RELAY_ERR_INVALID_JSON;
+    }
 
     int count = cJSON_GetArraySize(arr);
     if (count == 0) {
-        *out_arr = NULL;
-        *out_count = 0;
         return NOSTR_RELAY_OK;
     }
 
@@ -84,12 +104,16 @@ static nostr_relay_error_t parse_int_array(cJSON* arr, int32_t** out_arr, size_t
         return NOSTR_RELAY_ERR_MEMORY;
     }
 
-    *out_count = 0;
-    for (int i = 0; i < count; i++) {
-        cJSON* item = cJSON_GetArrayItem(arr, i);
-        if (cJSON_IsNumber(item)) {
-            (*out_arr)[(*out_count)++] = (int32_t)item->valueint;
+    cJSON* item;
+    cJSON_ArrayForEach(item, arr) {
+        int64_t kind;
+        if (parse_integer(item, 0, UINT16_MAX, &kind) != NOSTR_RELAY_OK) {
+            free(*out_arr);
+            *out_arr = NULL;
+            *out_count = 0;
+            return NOSTR_RELAY_ERR_INVALID_JSON;
         }
+        (*out_arr)[(*out_count)++] = (int32_t)kind;
     }
 
     return NOSTR_RELAY_OK;
@@ -103,26 +127,27 @@ nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_
 
     memset(filter, 0, sizeof(nostr_filter_t));
 
-    cJSON* root = (json_len > 0) ? cJSON_ParseWithLength(json, json_len) : cJSON_Parse(json);
-    if (!root) {
+    cJSON* root = json_parse_strict(json, json_len > 0 ? json_len : strlen(json));
+    if (!cJSON_IsObject(root)) {
+        cJSON_Delete(root);
         return NOSTR_RELAY_ERR_INVALID_JSON;
     }
 
     nostr_relay_error_t err;
 
-    err = parse_string_array(cJSON_GetObjectItem(root, "ids"), &filter->ids, &filter->ids_count);
+    err = parse_string_array(cJSON_GetObjectItemCaseSensitive(root, "ids"), &filter->ids, &filter->ids_count);
     if (err != NOSTR_RELAY_OK) goto cleanup;
 
-    err = parse_string_array(cJSON_GetObjectItem(root, "authors"), &filter->authors, &filter->authors_count);
+    err = parse_string_array(cJSON_GetObjectItemCaseSensitive(root, "authors"), &filter->authors, &filter->authors_count);
     if (err != NOSTR_RELAY_OK) goto cleanup;
 
-    err = parse_int_array(cJSON_GetObjectItem(root, "kinds"), &filter->kinds, &filter->kinds_count);
+    err = parse_kind_array(cJSON_GetObjectItemCaseSensitive(root, "kinds"), &filter->kinds, &filter->kinds_count);
     if (err != NOSTR_RELAY_OK) goto cleanup;
 
-    err = parse_string_array(cJSON_GetObjectItem(root, "#e"), &filter->e_tags, &filter->e_tags_count);
+    err = parse_string_array(cJSON_GetObjectItemCaseSensitive(root, "#e"), &filter->e_tags, &filter->e_tags_count);
     if (err != NOSTR_RELAY_OK) goto cleanup;
 
-    err = parse_string_array(cJSON_GetObjectItem(root, "#p"), &filter->p_tags, &filter->p_tags_count);
+    err = parse_string_array(cJSON_GetObjectItemCaseSensitive(root, "#p"), &filter->p_tags, &filter->p_tags_count);
     if (err != NOSTR_RELAY_OK) goto cleanup;
 
     size_t generic_count = 0;
@@ -167,24 +192,33 @@ nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_
         filter->generic_tags_count = generic_count;
     }
 
-    cJSON* since = cJSON_GetObjectItem(root, "since");
-    if (since && cJSON_IsNumber(since)) {
-        filter->since = (int64_t)since->valuedouble;
+    /* since and until are timestamps that a JSON number holds exactly; 0 means
+     * "no limit" in the filter, which is not what an upper limit of 0 says */
+    const int64_t max_timestamp = (int64_t)1 << 53;
+    cJSON* since = cJSON_GetObjectItemCaseSensitive(root, "since");
+    if (since) {
+        err = parse_integer(since, 0, max_timestamp, &filter->since);
+        if (err != NOSTR_RELAY_OK) goto cleanup;
     }
 
-    cJSON* until = cJSON_GetObjectItem(root, "until");
-    if (until && cJSON_IsNumber(until)) {
-        filter->until = (int64_t)until->valuedouble;
+    cJSON* until = cJSON_GetObjectItemCaseSensitive(root, "until");
+    if (until) {
+        err = parse_integer(until, 1, max_timestamp, &filter->until);
+        if (err != NOSTR_RELAY_OK) goto cleanup;
     }
 
-    cJSON* limit = cJSON_GetObjectItem(root, "limit");
-    if (limit && cJSON_IsNumber(limit)) {
-        filter->limit = limit->valueint;
+    cJSON* limit = cJSON_GetObjectItemCaseSensitive(root, "limit");
+    if (limit) {
+        int64_t value;
+        err = parse_integer(limit, 0, max_timestamp, &value);
+        if (err != NOSTR_RELAY_OK) goto cleanup;
+        filter->limit = value < INT32_MAX ? (int32_t)value : INT32_MAX;
     }
 
-    cJSON* search = cJSON_GetObjectItem(root, "search");
-    if (search && cJSON_IsString(search) && search->valuestring) {
-        if (strlen(search->valuestring) > NOSTR_DEFAULT_MAX_CONTENT_LENGTH) {
+    cJSON* search = cJSON_GetObjectItemCaseSensitive(root, "search");
+    if (search) {
+        if (!cJSON_IsString(search) || !search->valuestring ||
+            strlen(search->valuestring) > NOSTR_DEFAULT_MAX_CONTENT_LENGTH) {
             err = NOSTR_RELAY_ERR_INVALID_JSON;
             goto cleanup;
         }
-- 
2.43.0


From 3c84f76838f11e62d20007dab47d71b677be1e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:01 +0000
Subject: [PATCH 10/92] fix: consider every event tag when matching tag filters

---
 src/relay_filter.c | 67 +++++++++++++++++-----------------------------
 1 file changed, 25 insertions(+), 42 deletions(-)

diff --git a/src/relay_filter.c b/src/relay_filter.c
index b0ddf1b..2935741 100644
--- a/src/relay_filter.c
+++ b/src/relay_filter.c
@@ -377,6 +377,23 @@ static bool hex_starts_with(const char* hex, size_t hex_len, const char* prefix)
     return strncmp(hex, prefix, prefix_len) == 0;
 }
 
+/* Whether some tag of that name has one of the values as its first value */
+static bool event_has_tag_value(const nostr_event* event, const char* name, char* const* values, size_t values_count)
+{
+    for (size_t i = 0; event->tags && i < event->tags_count; i++) {
+        const nostr_tag* tag = &event->tags[i];
+        if (tag->count < 2 || !tag->values[0] || !tag->values[1] || strcmp(tag->values[0], name) != 0) {
+            continue;
+        }
+        for (size_t j = 0; j < values_count; j++) {
+            if (strcmp(tag->values[1], values[j]) == 0) {
+                return true;
+            }
+        }
+    }
+    return false;
+}
+
 bool nostr_filter_matches(const nostr_filter_t* filter, const nostr_event* event)
 {
     if (!filter || !event) return false;
@@ -426,54 +443,20 @@ bool nostr_filter_matches(const nostr_filter_t* filter, const nostr_event* event
         return false;
     }
 
-    if (filter->e_tags_count > 0) {
-        bool matched = false;
-        const char* e_values[NOSTR_MAX_TAG_FILTER_VALUES];
-        size_t e_count = nostr_event_get_tag_values(event, "e", e_values, NOSTR_MAX_TAG_FILTER_VALUES);
-
-        for (size_t i = 0; i < filter->e_tags_count && !matched; i++) {
-            for (size_t j = 0; j < e_count; j++) {
-                if (e_values[j] && strcmp(e_values[j], filter->e_tags[i]) == 0) {
-                    matched = true;
-                    break;
-                }
-            }
-        }
-        if (!matched) return false;
+    if (filter->e_tags_count > 0 && !event_has_tag_value(event, "e", filter->e_tags, filter->e_tags_count)) {
+        return false;
     }
 
-    if (filter->p_tags_count > 0) {
-        bool matched = false;
-        const char* p_values[NOSTR_MAX_TAG_FILTER_VALUES];
-        size_t p_count = nostr_event_get_tag_values(event, "p", p_values, NOSTR_MAX_TAG_FILTER_VALUES);
-
-        for (size_t i = 0; i < filter->p_tags_count && !matched; i++) {
-            for (size_t j = 0; j < p_count; j++) {
-                if (p_values[j] && strcmp(p_values[j], filter->p_tags[i]) == 0) {
-                    matched = true;
-                    break;
-                }
-            }
-        }
-        if (!matched) return false;
+    if (filter->p_tags_count > 0 && !event_has_tag_value(event, "p", filter->p_tags, filter->p_tags_count)) {
+        return false;
     }
 
     for (size_t t = 0; t < filter->generic_tags_count; t++) {
-        char tag_name[2] = { filter->generic_tags[t].tag_name, '\0' };
-
-        const char* tag_values[NOSTR_MAX_TAG_FILTER_VALUES];
-        size_t tag_count = nostr_event_get_tag_values(event, tag_name, tag_values, NOSTR_MAX_TAG_FILTER_VALUES);
-
-        bool matched = false;
-        for (size_t i = 0; i < filter->generic_tags[t].values_count && !matched; i++) {
-            for (size_t j = 0; j < tag_count; j++) {
-                if (tag_values[j] && strcmp(tag_values[j], filter->generic_tags[t].values[i]) == 0) {
-                    matched = true;
-                    break;
-                }
-            }
+        const nostr_generic_tag_filter_t* generic = &filter->generic_tags[t];
+        char tag_name[2] = { generic->tag_name, '\0' };
+        if (!event_has_tag_value(event, tag_name, generic->values, generic->values_count)) {
+            return false;
         }
-        if (!matched) return false;
     }
 
     return true;
-- 
2.43.0


From 7dfa03c1ac344fab27df6040a86d03f98a13c50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:26 +0000
Subject: [PATCH 11/92] fix: parse JSON from a terminated copy and reject
 embedded NULs

---
 src/json_internal.h | 21 +++++++++++++++++----
 src/relay_filter.c  |  2 +-
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/json_internal.h b/src/json_internal.h
index 1c1cc01..3b8adc2 100644
--- a/src/json_internal.h
+++ b/src/json_internal.h
@@ -4,6 +4,7 @@
 #include "nostr.h"
 #include <ctype.h>
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 #include <inttypes.h>
 #include <cjson/cJSON.h>
@@ -82,10 +83,14 @@ static inline char* json_event_id_text(const nostr_event* event)
 }
 
 /* Parses exactly one JSON value. Text behind it is an error, and so are \u
- * escapes that are malformed (cJSON reads them as NUL) or denote NUL, which a
- * C string cannot hold. */
+ * escapes that are malformed (cJSON reads them as NUL) and NUL characters,
+ * which a C string cannot hold. Parses a terminated copy: cJSON can look past
+ * the given length. */
 static inline cJSON* json_parse_strict(const char* json, size_t len)
 {
+    if (memchr(json, '\0', len)) {
+        return NULL;
+    }
     for (size_t i = 0; i + 1 < len; i++) {
         if (json[i] != '\\') {
             continue;
@@ -105,14 +110,22 @@ static inline cJSON* json_parse_strict(const char* json, size_t len)
         }
     }
 
+    char* copy = malloc(len + 1);
+    if (!copy) {
+        return NULL;
+    }
+    memcpy(copy, json, len);
+    copy[len] = '\0';
+
     const char* end = NULL;
-    cJSON* root = cJSON_ParseWithLengthOpts(json, len, &end, 0);
-    for (; root && end < json + len; end++) {
+    cJSON* root = cJSON_ParseWithOpts(copy, &end, 0);
+    for (; root && end < copy + len; end++) {
         if (*end != ' ' && *end != '\t' && *end != '\r' && *end != '\n') {
             cJSON_Delete(root);
             root = NULL;
         }
     }
+    free(copy);
     return root;
 }
 
diff --git a/src/relay_filter.c b/src/relay_filter.c
index 2935741..0052528 100644
--- a/src/relay_filter.c
+++ b/src/relay_filter.c
@@ -194,7 +194,7 @@ nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_
 
     /* since and until are timestamps that a JSON number holds exactly; 0 means
      * "no limit" in the filter, which is not what an upper limit of 0 says */
-    const int64_t max_timestamp = (int64_t)1 << 53;
+    const int64_t max_timestamp = ((int64_t)1 << 53) - 1;
     cJSON* since = cJSON_GetObjectItemCaseSensitive(root, "since");
     if (since) {
         err = parse_integer(since, 0, max_timestamp, &filter->since);
-- 
2.43.0


From 0eb571c7729ea7d25fde15be8e6da4d346f1a6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:32 +0000
Subject: [PATCH 12/92] fix: reject event text with an embedded NUL when its
 length is given

---
 src/relay_protocol.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index 9eab61d..2e3e110 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -296,6 +296,9 @@ nostr_relay_error_t nostr_event_parse(const char* json, size_t json_len, nostr_e
     nostr_error_t err;
     if (json_len > 0) {
         *event = NULL;
+        if (memchr(json, '\0', json_len)) {
+            return NOSTR_RELAY_ERR_INVALID_JSON;
+        }
         char* text = malloc(json_len + 1);
         if (!text) {
             return NOSTR_RELAY_ERR_MEMORY;
-- 
2.43.0


From 788dfb2acdf150448521d2165437d289f654a3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:07 +0000
Subject: [PATCH 13/92] fix: reject client messages with trailing text or
 embedded NULs

---
 src/relay_message.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/relay_message.c b/src/relay_message.c
index f801696..83f265d 100644
--- a/src/relay_message.c
+++ b/src/relay_message.c
@@ -89,7 +89,7 @@ nostr_relay_error_t nostr_client_msg_parse(const char* json, size_t json_len, no
     memset(msg, 0, sizeof(nostr_client_msg_t));
     msg->type = NOSTR_CLIENT_MSG_UNKNOWN;
 
-    cJSON* root = (json_len > 0) ? cJSON_ParseWithLength(json, json_len) : cJSON_Parse(json);
+    cJSON* root = json_parse_strict(json, json_len > 0 ? json_len : strlen(json));
     if (!root || !cJSON_IsArray(root)) {
         if (root) cJSON_Delete(root);
         return NOSTR_RELAY_ERR_INVALID_JSON;
-- 
2.43.0


From 91dcc88c8fcbcb9e93402749d1d4033eef5c08b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:17 +0000
Subject: [PATCH 14/92] fix: build the event object of relay EVENT messages
 directly

---
 src/event.c         | 25 ++-----------------------
 src/json_internal.h | 32 ++++++++++++++++++++++++++++++++
 src/relay_message.c |  9 +--------
 3 files changed, 35 insertions(+), 31 deletions(-)

diff --git a/src/event.c b/src/event.c
index c3c1a48..8a21163 100644
--- a/src/event.c
+++ b/src/event.c
@@ -365,30 +365,9 @@ nostr_error_t nostr_event_to_json(const nostr_event* event, char** json)
     }
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
-    char id_hex[NOSTR_ID_SIZE * 2 + 1];
-    char pubkey_hex[NOSTR_PUBKEY_SIZE * 2 + 1];
-    char sig_hex[NOSTR_SIG_SIZE * 2 + 1];
-
-    for (int i = 0; i < NOSTR_ID_SIZE; i++) {
-        sprintf(id_hex + i * 2, "%02x", event->id[i]);
-    }
-    for (int i = 0; i < NOSTR_PUBKEY_SIZE; i++) {
-        sprintf(pubkey_hex + i * 2, "%02x", event->pubkey.data[i]);
-    }
-    for (int i = 0; i < NOSTR_SIG_SIZE; i++) {
-        sprintf(sig_hex + i * 2, "%02x", event->sig[i]);
-    }
-
     *json = NULL;
-    cJSON* root = cJSON_CreateObject();
-    if (root &&
-        json_object_add(root, "id", cJSON_CreateString(id_hex)) &&
-        json_object_add(root, "pubkey", cJSON_CreateString(pubkey_hex)) &&
-        json_object_add(root, "created_at", json_int64(event->created_at)) &&
-        json_object_add(root, "kind", cJSON_CreateNumber(event->kind)) &&
-        json_object_add(root, "tags", json_tags(event)) &&
-        json_object_add(root, "content", cJSON_CreateString(event->content ? event->content : "")) &&
-        json_object_add(root, "sig", cJSON_CreateString(sig_hex))) {
+    cJSON* root = json_event_object(event);
+    if (root) {
         *json = cJSON_Print(root);
     }
     cJSON_Delete(root);
diff --git a/src/json_internal.h b/src/json_internal.h
index 3b8adc2..749f10e 100644
--- a/src/json_internal.h
+++ b/src/json_internal.h
@@ -59,6 +59,38 @@ static inline cJSON* json_tags(const nostr_event* event)
     return tags;
 }
 
+/* The object of NIP-01, or NULL when out of memory */
+static inline cJSON* json_event_object(const nostr_event* event)
+{
+    char id_hex[NOSTR_ID_SIZE * 2 + 1];
+    char pubkey_hex[NOSTR_PUBKEY_SIZE * 2 + 1];
+    char sig_hex[NOSTR_SIG_SIZE * 2 + 1];
+
+    for (int i = 0; i < NOSTR_ID_SIZE; i++) {
+        sprintf(id_hex + i * 2, "%02x", event->id[i]);
+    }
+    for (int i = 0; i < NOSTR_PUBKEY_SIZE; i++) {
+        sprintf(pubkey_hex + i * 2, "%02x", event->pubkey.data[i]);
+    }
+    for (int i = 0; i < NOSTR_SIG_SIZE; i++) {
+        sprintf(sig_hex + i * 2, "%02x", event->sig[i]);
+    }
+
+    cJSON* root = cJSON_CreateObject();
+    if (root &&
+        json_object_add(root, "id", cJSON_CreateString(id_hex)) &&
+        json_object_add(root, "pubkey", cJSON_CreateString(pubkey_hex)) &&
+        json_object_add(root, "created_at", json_int64(event->created_at)) &&
+        json_object_add(root, "kind", cJSON_CreateNumber(event->kind)) &&
+        json_object_add(root, "tags", json_tags(event)) &&
+        json_object_add(root, "content", cJSON_CreateString(event->content ? event->content : "")) &&
+        json_object_add(root, "sig", cJSON_CreateString(sig_hex))) {
+        return root;
+    }
+    cJSON_Delete(root);
+    return NULL;
+}
+
 /* The array [0,pubkey,created_at,kind,tags,content] that the event id hashes */
 static inline char* json_event_id_text(const nostr_event* event)
 {
diff --git a/src/relay_message.c b/src/relay_message.c
index 83f265d..14f9baa 100644
--- a/src/relay_message.c
+++ b/src/relay_message.c
@@ -404,16 +404,9 @@ nostr_relay_error_t nostr_relay_msg_serialize(const nostr_relay_msg_t* msg, char
                 cJSON_Delete(root);
                 return NOSTR_RELAY_ERR_MISSING_FIELD;
             }
-            char* event_json = NULL;
-            if (nostr_event_to_json(msg->data.event.event, &event_json) != NOSTR_OK || !event_json) {
-                cJSON_Delete(root);
-                return NOSTR_RELAY_ERR_MEMORY;
-            }
-            cJSON_Minify(event_json);
             complete = json_array_add(root, cJSON_CreateString("EVENT")) &&
                        json_array_add(root, cJSON_CreateString(msg->data.event.subscription_id)) &&
-                       json_array_add(root, cJSON_CreateRaw(event_json));
-            free(event_json);
+                       json_array_add(root, json_event_object(msg->data.event.event));
             break;
         }
 
-- 
2.43.0


From 2f79658339850f280e3c82b1718cbbcbc7a3b8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:00 +0000
Subject: [PATCH 15/92] fix: authorize deletion by address for long identifiers

---
 src/relay_protocol.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index 2e3e110..28e2381 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -643,15 +643,16 @@ bool nostr_deletion_authorized_address(const nostr_deletion_request_t* request,
         d_tag = "";
     }
 
-    char target_address[256];
-    int written = snprintf(target_address, sizeof(target_address), "%d:%s:%s",
-                          target_event->kind, target_pubkey, d_tag);
-    if (written < 0 || (size_t)written >= sizeof(target_address)) {
+    char prefix[96];
+    int prefix_len = snprintf(prefix, sizeof(prefix), "%d:%s:",
+                              target_event->kind, target_pubkey);
+    if (prefix_len < 0 || (size_t)prefix_len >= sizeof(prefix)) {
         return false;
     }
 
     for (size_t i = 0; i < request->addresses_count; i++) {
-        if (strcmp(request->addresses[i], target_address) == 0) {
+        if (strncmp(request->addresses[i], prefix, (size_t)prefix_len) == 0 &&
+            strcmp(request->addresses[i] + prefix_len, d_tag) == 0) {
             return true;
         }
     }
-- 
2.43.0


From 3a13d77feb9470c20b4ccd9c413de4633b5f4320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:25 +0000
Subject: [PATCH 16/92] fix: avoid overflow in nostr_validate_timestamp

---
 src/relay_protocol.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index 28e2381..4a6eb99 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -109,6 +109,12 @@ bool nostr_validate_subscription_id(const char* sub_id)
 bool nostr_validate_timestamp(int64_t timestamp, int64_t max_future_seconds)
 {
     int64_t now = nostr_timestamp_now();
+    if (max_future_seconds > 0 && now > INT64_MAX - max_future_seconds) {
+        return true;
+    }
+    if (max_future_seconds < 0 && now < INT64_MIN - max_future_seconds) {
+        return false;
+    }
     return timestamp <= (now + max_future_seconds);
 }
 
-- 
2.43.0


From 348707ef3cf9d8db08ca15b28a7ace80cc8e7fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:25 +0000
Subject: [PATCH 17/92] fix: tag iteration goes on behind an empty tag

---
 src/relay_protocol.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index 4a6eb99..a7cb6e7 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -700,7 +700,10 @@ bool nostr_tag_iterator_next_info(nostr_tag_iterator_t* iter, nostr_tag_info_t*
     }
 
     size_t count = 0;
-    const char** values = nostr_tag_iterator_next(iter, &count);
+    const char** values;
+    do {
+        values = nostr_tag_iterator_next(iter, &count);
+    } while (count == 0 && iter->event && iter->current_index < iter->event->tags_count);
 
     if (!values || count == 0) {
         tag->name = NULL;
-- 
2.43.0


From d1cba269f92ebb244f463142e5526ca9643abdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:32 +0000
Subject: [PATCH 18/92] fix: nostr_relay_info_set_nips keeps the list when it
 fails

---
 src/relay_nip11.c | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/relay_nip11.c b/src/relay_nip11.c
index 46e8e77..2d8c826 100644
--- a/src/relay_nip11.c
+++ b/src/relay_nip11.c
@@ -46,20 +46,18 @@ nostr_relay_error_t nostr_relay_info_set_nips(nostr_relay_info_t* info, const in
         return NOSTR_RELAY_ERR_MISSING_FIELD;
     }
 
-    free(info->supported_nips);
-    info->supported_nips = NULL;
-    info->supported_nips_count = 0;
-
+    int32_t* copy = NULL;
     if (count == 0 || !nips) {
-        return NOSTR_RELAY_OK;
-    }
-
-    int32_t* copy = malloc(count * sizeof(int32_t));
-    if (!copy) {
-        return NOSTR_RELAY_ERR_MEMORY;
+        count = 0;
+    } else {
+        copy = malloc(count * sizeof(int32_t));
+        if (!copy) {
+            return NOSTR_RELAY_ERR_MEMORY;
+        }
+        memcpy(copy, nips, count * sizeof(int32_t));
     }
 
-    memcpy(copy, nips, count * sizeof(int32_t));
+    free(info->supported_nips);
     info->supported_nips = copy;
     info->supported_nips_count = count;
     return NOSTR_RELAY_OK;
-- 
2.43.0


From c6fdbd337b88e70d9f5f20c11c25b884f6445ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:32 +0000
Subject: [PATCH 19/92] fix: relay information documents are complete and exact
 or an error

---
 src/relay_nip11.c | 424 +++++++++++++++++++---------------------------
 1 file changed, 178 insertions(+), 246 deletions(-)

diff --git a/src/relay_nip11.c b/src/relay_nip11.c
index 2d8c826..6ca3ef4 100644
--- a/src/relay_nip11.c
+++ b/src/relay_nip11.c
@@ -9,6 +9,7 @@
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
 #include <cjson/cJSON.h>
+#include "json_internal.h"
 #endif
 
 void nostr_relay_limitation_init(nostr_relay_limitation_t* limitation)
@@ -134,283 +135,168 @@ void nostr_relay_info_free(nostr_relay_info_t* info)
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
 
-nostr_relay_error_t nostr_relay_limitation_serialize(const nostr_relay_limitation_t* limitation,
-                                                     char* buf, size_t buf_size, size_t* out_len)
+static int json_add_number(cJSON* object, const char* name, int64_t value)
 {
-    if (!limitation || !buf || buf_size == 0) {
-        return NOSTR_RELAY_ERR_INVALID_JSON;
-    }
-
-    cJSON* obj = cJSON_CreateObject();
-    if (!obj) {
-        return NOSTR_RELAY_ERR_MEMORY;
-    }
-
-    if (limitation->max_message_length > 0) {
-        cJSON_AddNumberToObject(obj, "max_message_length", limitation->max_message_length);
-    }
-    if (limitation->max_subscriptions > 0) {
-        cJSON_AddNumberToObject(obj, "max_subscriptions", limitation->max_subscriptions);
-    }
-    if (limitation->max_filters > 0) {
-        cJSON_AddNumberToObject(obj, "max_filters", limitation->max_filters);
-    }
-    if (limitation->max_limit > 0) {
-        cJSON_AddNumberToObject(obj, "max_limit", limitation->max_limit);
-    }
-    if (limitation->max_subid_length > 0) {
-        cJSON_AddNumberToObject(obj, "max_subid_length", limitation->max_subid_length);
-    }
-    if (limitation->max_event_tags > 0) {
-        cJSON_AddNumberToObject(obj, "max_event_tags", limitation->max_event_tags);
-    }
-    if (limitation->max_content_length > 0) {
-        cJSON_AddNumberToObject(obj, "max_content_length", limitation->max_content_length);
-    }
-    if (limitation->min_pow_difficulty > 0) {
-        cJSON_AddNumberToObject(obj, "min_pow_difficulty", limitation->min_pow_difficulty);
-    }
-    cJSON_AddBoolToObject(obj, "auth_required", limitation->auth_required);
-    cJSON_AddBoolToObject(obj, "payment_required", limitation->payment_required);
-    cJSON_AddBoolToObject(obj, "restricted_writes", limitation->restricted_writes);
-    if (limitation->created_at_lower_limit > 0) {
-        cJSON_AddNumberToObject(obj, "created_at_lower_limit", (double)limitation->created_at_lower_limit);
-    }
-    if (limitation->created_at_upper_limit > 0) {
-        cJSON_AddNumberToObject(obj, "created_at_upper_limit", (double)limitation->created_at_upper_limit);
-    }
-    if (limitation->default_limit > 0) {
-        cJSON_AddNumberToObject(obj, "default_limit", limitation->default_limit);
-    }
-
-    char* json_str = cJSON_PrintUnformatted(obj);
-    cJSON_Delete(obj);
-
-    if (!json_str) {
-        return NOSTR_RELAY_ERR_MEMORY;
-    }
+    return json_object_add(object, name, json_int64(value));
+}
 
-    size_t len = strlen(json_str);
-    if (out_len) *out_len = len;
+static int json_add_positive(cJSON* object, const char* name, int64_t value)
+{
+    return value <= 0 || json_add_number(object, name, value);
+}
 
-    if (len >= buf_size) {
-        free(json_str);
-        return NOSTR_RELAY_ERR_BUFFER_TOO_SMALL;
-    }
+static int json_add_text(cJSON* object, const char* name, const char* text)
+{
+    return !text || json_object_add(object, name, cJSON_CreateString(text));
+}
 
-    memcpy(buf, json_str, len + 1);
-    free(json_str);
-    return NOSTR_RELAY_OK;
+static int json_add_bool(cJSON* object, const char* name, bool value)
+{
+    return json_object_add(object, name, cJSON_CreateBool(value));
 }
 
-nostr_relay_error_t nostr_relay_info_serialize(const nostr_relay_info_t* info,
-                                               char* buf, size_t buf_size, size_t* out_len)
+static int json_add_ints(cJSON* object, const char* name, const int32_t* values, size_t count)
 {
-    if (!info || !buf || buf_size == 0) {
-        return NOSTR_RELAY_ERR_INVALID_JSON;
+    cJSON* array = cJSON_CreateArray();
+    int ok = array != NULL;
+    for (size_t i = 0; ok && i < count; i++) {
+        ok = json_array_add(array, cJSON_CreateNumber(values[i]));
     }
-
-    cJSON* obj = cJSON_CreateObject();
-    if (!obj) {
-        return NOSTR_RELAY_ERR_MEMORY;
+    if (!ok) {
+        cJSON_Delete(array);
+        return 0;
     }
+    return json_object_add(object, name, array);
+}
 
-    if (info->name) {
-        cJSON_AddStringToObject(obj, "name", info->name);
-    }
-    if (info->description) {
-        cJSON_AddStringToObject(obj, "description", info->description);
-    }
-    if (info->banner) {
-        cJSON_AddStringToObject(obj, "banner", info->banner);
-    }
-    if (info->icon) {
-        cJSON_AddStringToObject(obj, "icon", info->icon);
-    }
-    if (info->pubkey) {
-        cJSON_AddStringToObject(obj, "pubkey", info->pubkey);
+static int json_add_texts(cJSON* object, const char* name, const char** values, size_t count)
+{
+    if (count == 0 || !values) {
+        return 1;
     }
-    if (info->self_pubkey) {
-        cJSON_AddStringToObject(obj, "self", info->self_pubkey);
+    cJSON* array = cJSON_CreateArray();
+    int ok = array != NULL;
+    for (size_t i = 0; ok && i < count; i++) {
+        ok = !values[i] || json_array_add(array, cJSON_CreateString(values[i]));
     }
-    if (info->contact) {
-        cJSON_AddStringToObject(obj, "contact", info->contact);
+    if (!ok) {
+        cJSON_Delete(array);
+        return 0;
     }
+    return json_object_add(object, name, array);
+}
 
-    cJSON* nips_arr = cJSON_CreateArray();
-    if (!nips_arr) {
-        cJSON_Delete(obj);
-        return NOSTR_RELAY_ERR_MEMORY;
-    }
-    for (size_t i = 0; i < info->supported_nips_count; i++) {
-        cJSON_AddItemToArray(nips_arr, cJSON_CreateNumber(info->supported_nips[i]));
+static cJSON* limitation_object(const nostr_relay_limitation_t* limitation)
+{
+    cJSON* obj = cJSON_CreateObject();
+    if (obj &&
+        json_add_positive(obj, "max_message_length", limitation->max_message_length) &&
+        json_add_positive(obj, "max_subscriptions", limitation->max_subscriptions) &&
+        json_add_positive(obj, "max_filters", limitation->max_filters) &&
+        json_add_positive(obj, "max_limit", limitation->max_limit) &&
+        json_add_positive(obj, "max_subid_length", limitation->max_subid_length) &&
+        json_add_positive(obj, "max_event_tags", limitation->max_event_tags) &&
+        json_add_positive(obj, "max_content_length", limitation->max_content_length) &&
+        json_add_positive(obj, "min_pow_difficulty", limitation->min_pow_difficulty) &&
+        json_add_bool(obj, "auth_required", limitation->auth_required) &&
+        json_add_bool(obj, "payment_required", limitation->payment_required) &&
+        json_add_bool(obj, "restricted_writes", limitation->restricted_writes) &&
+        json_add_positive(obj, "created_at_lower_limit", limitation->created_at_lower_limit) &&
+        json_add_positive(obj, "created_at_upper_limit", limitation->created_at_upper_limit) &&
+        json_add_positive(obj, "default_limit", limitation->default_limit)) {
+        return obj;
     }
-    cJSON_AddItemToObject(obj, "supported_nips", nips_arr);
+    cJSON_Delete(obj);
+    return NULL;
+}
 
-    if (info->software) {
-        cJSON_AddStringToObject(obj, "software", info->software);
-    }
-    if (info->version) {
-        cJSON_AddStringToObject(obj, "version", info->version);
-    }
-    if (info->privacy_policy) {
-        cJSON_AddStringToObject(obj, "privacy_policy", info->privacy_policy);
-    }
-    if (info->terms_of_service) {
-        cJSON_AddStringToObject(obj, "terms_of_service", info->terms_of_service);
+static cJSON* retention_object(const nostr_relay_retention_t* retention)
+{
+    cJSON* obj = cJSON_CreateObject();
+    if (obj &&
+        (retention->kinds_count == 0 || !retention->kinds ||
+         json_add_ints(obj, "kinds", retention->kinds, retention->kinds_count)) &&
+        (retention->time == 0 || json_add_number(obj, "time", retention->time)) &&
+        json_add_positive(obj, "count", retention->count)) {
+        return obj;
     }
+    cJSON_Delete(obj);
+    return NULL;
+}
 
-    cJSON* limitation_obj = cJSON_CreateObject();
-    if (info->limitation.max_message_length > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "max_message_length", info->limitation.max_message_length);
-    }
-    if (info->limitation.max_subscriptions > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "max_subscriptions", info->limitation.max_subscriptions);
-    }
-    if (info->limitation.max_filters > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "max_filters", info->limitation.max_filters);
-    }
-    if (info->limitation.max_limit > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "max_limit", info->limitation.max_limit);
-    }
-    if (info->limitation.max_subid_length > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "max_subid_length", info->limitation.max_subid_length);
-    }
-    if (info->limitation.max_event_tags > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "max_event_tags", info->limitation.max_event_tags);
-    }
-    if (info->limitation.max_content_length > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "max_content_length", info->limitation.max_content_length);
-    }
-    if (info->limitation.min_pow_difficulty > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "min_pow_difficulty", info->limitation.min_pow_difficulty);
-    }
-    cJSON_AddBoolToObject(limitation_obj, "auth_required", info->limitation.auth_required);
-    cJSON_AddBoolToObject(limitation_obj, "payment_required", info->limitation.payment_required);
-    cJSON_AddBoolToObject(limitation_obj, "restricted_writes", info->limitation.restricted_writes);
-    if (info->limitation.created_at_lower_limit > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "created_at_lower_limit", (double)info->limitation.created_at_lower_limit);
-    }
-    if (info->limitation.created_at_upper_limit > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "created_at_upper_limit", (double)info->limitation.created_at_upper_limit);
+static int json_add_retention(cJSON* object, const nostr_relay_info_t* info)
+{
+    if (info->retention_count == 0 || !info->retention) {
+        return 1;
     }
-    if (info->limitation.default_limit > 0) {
-        cJSON_AddNumberToObject(limitation_obj, "default_limit", info->limitation.default_limit);
+    cJSON* array = cJSON_CreateArray();
+    int ok = array != NULL;
+    for (size_t i = 0; ok && i < info->retention_count; i++) {
+        ok = json_array_add(array, retention_object(&info->retention[i]));
     }
-    cJSON_AddItemToObject(obj, "limitation", limitation_obj);
-
-    if (info->retention_count > 0 && info->retention) {
-        cJSON* retention_arr = cJSON_CreateArray();
-        for (size_t i = 0; i < info->retention_count; i++) {
-            cJSON* ret_obj = cJSON_CreateObject();
-            if (info->retention[i].kinds_count > 0) {
-                cJSON* kinds_arr = cJSON_CreateArray();
-                for (size_t j = 0; j < info->retention[i].kinds_count; j++) {
-                    cJSON_AddItemToArray(kinds_arr, cJSON_CreateNumber(info->retention[i].kinds[j]));
-                }
-                cJSON_AddItemToObject(ret_obj, "kinds", kinds_arr);
-            }
-            if (info->retention[i].time != 0) {
-                cJSON_AddNumberToObject(ret_obj, "time", (double)info->retention[i].time);
-            }
-            if (info->retention[i].count > 0) {
-                cJSON_AddNumberToObject(ret_obj, "count", info->retention[i].count);
-            }
-            cJSON_AddItemToArray(retention_arr, ret_obj);
-        }
-        cJSON_AddItemToObject(obj, "retention", retention_arr);
+    if (!ok) {
+        cJSON_Delete(array);
+        return 0;
     }
+    return json_object_add(object, "retention", array);
+}
 
-    if (info->relay_countries_count > 0 && info->relay_countries) {
-        cJSON* countries_arr = cJSON_CreateArray();
-        for (size_t i = 0; i < info->relay_countries_count; i++) {
-            cJSON_AddItemToArray(countries_arr, cJSON_CreateString(info->relay_countries[i]));
-        }
-        cJSON_AddItemToObject(obj, "relay_countries", countries_arr);
-    }
+static cJSON* fee_object(const nostr_relay_fee_t* fee, bool with_period, bool with_kinds)
+{
+    char amount[24];
+    snprintf(amount, sizeof(amount), "%" PRIu64, fee->amount);
 
-    if (info->language_tags_count > 0 && info->language_tags) {
-        cJSON* langs_arr = cJSON_CreateArray();
-        for (size_t i = 0; i < info->language_tags_count; i++) {
-            cJSON_AddItemToArray(langs_arr, cJSON_CreateString(info->language_tags[i]));
-        }
-        cJSON_AddItemToObject(obj, "language_tags", langs_arr);
+    cJSON* obj = cJSON_CreateObject();
+    if (obj &&
+        (!with_kinds || fee->kinds_count == 0 || !fee->kinds ||
+         json_add_ints(obj, "kinds", fee->kinds, fee->kinds_count)) &&
+        json_object_add(obj, "amount", cJSON_CreateRaw(amount)) &&
+        json_add_text(obj, "unit", fee->unit) &&
+        (!with_period || json_add_positive(obj, "period", fee->period))) {
+        return obj;
     }
+    cJSON_Delete(obj);
+    return NULL;
+}
 
-    if (info->tags_count > 0 && info->tags) {
-        cJSON* tags_arr = cJSON_CreateArray();
-        for (size_t i = 0; i < info->tags_count; i++) {
-            cJSON_AddItemToArray(tags_arr, cJSON_CreateString(info->tags[i]));
-        }
-        cJSON_AddItemToObject(obj, "tags", tags_arr);
+static int json_add_fee_list(cJSON* object, const char* name, const nostr_relay_fee_t* fees, size_t count,
+                             bool with_period, bool with_kinds)
+{
+    if (count == 0 || !fees) {
+        return 1;
     }
-
-    if (info->posting_policy) {
-        cJSON_AddStringToObject(obj, "posting_policy", info->posting_policy);
+    cJSON* array = cJSON_CreateArray();
+    int ok = array != NULL;
+    for (size_t i = 0; ok && i < count; i++) {
+        ok = json_array_add(array, fee_object(&fees[i], with_period, with_kinds));
     }
-    if (info->payments_url) {
-        cJSON_AddStringToObject(obj, "payments_url", info->payments_url);
+    if (!ok) {
+        cJSON_Delete(array);
+        return 0;
     }
+    return json_object_add(object, name, array);
+}
 
-    bool has_fees = (info->fees.admission_count > 0 ||
-                     info->fees.subscription_count > 0 ||
-                     info->fees.publication_count > 0);
-    if (has_fees) {
-        cJSON* fees_obj = cJSON_CreateObject();
-
-        if (info->fees.admission_count > 0 && info->fees.admission) {
-            cJSON* admission_arr = cJSON_CreateArray();
-            for (size_t i = 0; i < info->fees.admission_count; i++) {
-                cJSON* fee_obj = cJSON_CreateObject();
-                cJSON_AddNumberToObject(fee_obj, "amount", (double)info->fees.admission[i].amount);
-                if (info->fees.admission[i].unit) {
-                    cJSON_AddStringToObject(fee_obj, "unit", info->fees.admission[i].unit);
-                }
-                cJSON_AddItemToArray(admission_arr, fee_obj);
-            }
-            cJSON_AddItemToObject(fees_obj, "admission", admission_arr);
-        }
-
-        if (info->fees.subscription_count > 0 && info->fees.subscription) {
-            cJSON* sub_arr = cJSON_CreateArray();
-            for (size_t i = 0; i < info->fees.subscription_count; i++) {
-                cJSON* fee_obj = cJSON_CreateObject();
-                cJSON_AddNumberToObject(fee_obj, "amount", (double)info->fees.subscription[i].amount);
-                if (info->fees.subscription[i].unit) {
-                    cJSON_AddStringToObject(fee_obj, "unit", info->fees.subscription[i].unit);
-                }
-                if (info->fees.subscription[i].period > 0) {
-                    cJSON_AddNumberToObject(fee_obj, "period", info->fees.subscription[i].period);
-                }
-                cJSON_AddItemToArray(sub_arr, fee_obj);
-            }
-            cJSON_AddItemToObject(fees_obj, "subscription", sub_arr);
-        }
-
-        if (info->fees.publication_count > 0 && info->fees.publication) {
-            cJSON* pub_arr = cJSON_CreateArray();
-            for (size_t i = 0; i < info->fees.publication_count; i++) {
-                cJSON* fee_obj = cJSON_CreateObject();
-                if (info->fees.publication[i].kinds_count > 0 && info->fees.publication[i].kinds) {
-                    cJSON* kinds_arr = cJSON_CreateArray();
-                    for (size_t j = 0; j < info->fees.publication[i].kinds_count; j++) {
-                        cJSON_AddItemToArray(kinds_arr, cJSON_CreateNumber(info->fees.publication[i].kinds[j]));
-                    }
-                    cJSON_AddItemToObject(fee_obj, "kinds", kinds_arr);
-                }
-                cJSON_AddNumberToObject(fee_obj, "amount", (double)info->fees.publication[i].amount);
-                if (info->fees.publication[i].unit) {
-                    cJSON_AddStringToObject(fee_obj, "unit", info->fees.publication[i].unit);
-                }
-                cJSON_AddItemToArray(pub_arr, fee_obj);
-            }
-            cJSON_AddItemToObject(fees_obj, "publication", pub_arr);
-        }
-
-        cJSON_AddItemToObject(obj, "fees", fees_obj);
+static int json_add_fees(cJSON* object, const nostr_relay_fees_t* fees)
+{
+    if (fees->admission_count == 0 && fees->subscription_count == 0 && fees->publication_count == 0) {
+        return 1;
+    }
+    cJSON* obj = cJSON_CreateObject();
+    if (obj &&
+        json_add_fee_list(obj, "admission", fees->admission, fees->admission_count, false, false) &&
+        json_add_fee_list(obj, "subscription", fees->subscription, fees->subscription_count, true, false) &&
+        json_add_fee_list(obj, "publication", fees->publication, fees->publication_count, false, true)) {
+        return json_object_add(object, "fees", obj);
     }
+    cJSON_Delete(obj);
+    return 0;
+}
 
-    char* json_str = cJSON_PrintUnformatted(obj);
+/* Prints obj, which may be NULL after a failed allocation, and deletes it */
+static nostr_relay_error_t write_document(cJSON* obj, char* buf, size_t buf_size, size_t* out_len)
+{
+    char* json_str = obj ? cJSON_PrintUnformatted(obj) : NULL;
     cJSON_Delete(obj);
 
     if (!json_str) {
@@ -430,6 +316,52 @@ nostr_relay_error_t nostr_relay_info_serialize(const nostr_relay_info_t* info,
     return NOSTR_RELAY_OK;
 }
 
+nostr_relay_error_t nostr_relay_limitation_serialize(const nostr_relay_limitation_t* limitation,
+                                                     char* buf, size_t buf_size, size_t* out_len)
+{
+    if (!limitation || !buf || buf_size == 0) {
+        return NOSTR_RELAY_ERR_INVALID_JSON;
+    }
+
+    return write_document(limitation_object(limitation), buf, buf_size, out_len);
+}
+
+nostr_relay_error_t nostr_relay_info_serialize(const nostr_relay_info_t* info,
+                                               char* buf, size_t buf_size, size_t* out_len)
+{
+    if (!info || !buf || buf_size == 0) {
+        return NOSTR_RELAY_ERR_INVALID_JSON;
+    }
+
+    cJSON* obj = cJSON_CreateObject();
+    if (obj &&
+        !(json_add_text(obj, "name", info->name) &&
+          json_add_text(obj, "description", info->description) &&
+          json_add_text(obj, "banner", info->banner) &&
+          json_add_text(obj, "icon", info->icon) &&
+          json_add_text(obj, "pubkey", info->pubkey) &&
+          json_add_text(obj, "self", info->self_pubkey) &&
+          json_add_text(obj, "contact", info->contact) &&
+          json_add_ints(obj, "supported_nips", info->supported_nips, info->supported_nips_count) &&
+          json_add_text(obj, "software", info->software) &&
+          json_add_text(obj, "version", info->version) &&
+          json_add_text(obj, "privacy_policy", info->privacy_policy) &&
+          json_add_text(obj, "terms_of_service", info->terms_of_service) &&
+          json_object_add(obj, "limitation", limitation_object(&info->limitation)) &&
+          json_add_retention(obj, info) &&
+          json_add_texts(obj, "relay_countries", info->relay_countries, info->relay_countries_count) &&
+          json_add_texts(obj, "language_tags", info->language_tags, info->language_tags_count) &&
+          json_add_texts(obj, "tags", info->tags, info->tags_count) &&
+          json_add_text(obj, "posting_policy", info->posting_policy) &&
+          json_add_text(obj, "payments_url", info->payments_url) &&
+          json_add_fees(obj, &info->fees))) {
+        cJSON_Delete(obj);
+        obj = NULL;
+    }
+
+    return write_document(obj, buf, buf_size, out_len);
+}
+
 #else
 
 nostr_relay_error_t nostr_relay_limitation_serialize(const nostr_relay_limitation_t* limitation,
-- 
2.43.0


From 9eec6b75a776e7f5cec89b5cc30e21bdfa03493f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:04 +0000
Subject: [PATCH 20/92] fix: committed proof-of-work targets beyond int are
 honoured

---
 src/nip13.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nip13.c b/src/nip13.c
index 610a329..d011ee6 100644
--- a/src/nip13.c
+++ b/src/nip13.c
@@ -262,7 +262,7 @@ nostr_error_t nostr_nip13_verify_pow(const nostr_event* event, int min_difficult
     }
     
     if (event->tags[nonce_idx].count >= 3 && event->tags[nonce_idx].values[2]) {
-        int committed_difficulty = atoi(event->tags[nonce_idx].values[2]);
+        long committed_difficulty = strtol(event->tags[nonce_idx].values[2], NULL, 10);
         if (committed_difficulty > 0 && difficulty < committed_difficulty) {
             return NOSTR_ERR_INVALID_EVENT;
         }
-- 
2.43.0


From f68643064d105b544aa2c89d87506b3510e31ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:28 +0000
Subject: [PATCH 21/92] fix: a failed key-pair operation leaves no usable or
 half-updated pair

---
 src/key.c | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/key.c b/src/key.c
index 2802f08..d53589f 100644
--- a/src/key.c
+++ b/src/key.c
@@ -506,6 +506,7 @@ nostr_error_t nostr_keypair_generate(nostr_keypair* keypair)
     
     nostr_error_t err = nostr_key_generate(&keypair->privkey, &keypair->pubkey);
     if (err != NOSTR_OK) {
+        nostr_keypair_destroy(keypair);
         return err;
     }
     
@@ -519,12 +520,14 @@ nostr_error_t nostr_keypair_from_private_hex(nostr_keypair* keypair, const char*
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    nostr_error_t err = nostr_privkey_from_hex(privkey_hex, &keypair->privkey);
-    if (err != NOSTR_OK) {
-        return err;
+    nostr_privkey privkey;
+    nostr_error_t err = nostr_privkey_from_hex(privkey_hex, &privkey);
+    if (err == NOSTR_OK) {
+        err = nostr_keypair_from_private_key(keypair, &privkey);
     }
     
-    return nostr_keypair_from_private_key(keypair, &keypair->privkey);
+    secure_wipe(&privkey, sizeof(privkey));
+    return err;
 }
 
 nostr_error_t nostr_keypair_from_private_key(nostr_keypair* keypair, const nostr_privkey* privkey)
@@ -550,13 +553,13 @@ nostr_error_t nostr_keypair_from_private_key(nostr_keypair* keypair, const nostr
     
     if (NCValidateSecretKey(nc_ctx, &nc_secret) != NC_SUCCESS) {
         secure_wipe(nc_secret.key, NC_SEC_KEY_SIZE);
-        secure_wipe(&keypair->privkey, sizeof(nostr_privkey));
+        nostr_keypair_destroy(keypair);
         return NOSTR_ERR_INVALID_KEY;
     }
     
     if (NCGetPublicKey(nc_ctx, &nc_secret, &nc_public) != NC_SUCCESS) {
         secure_wipe(nc_secret.key, NC_SEC_KEY_SIZE);
-        secure_wipe(&keypair->privkey, sizeof(nostr_privkey));
+        nostr_keypair_destroy(keypair);
         return NOSTR_ERR_INVALID_KEY;
     }
     
@@ -565,30 +568,30 @@ nostr_error_t nostr_keypair_from_private_key(nostr_keypair* keypair, const nostr
     
 #elif defined(HAVE_SECP256K1)
     if (!secp256k1_ec_seckey_verify(secp256k1_ctx, privkey->data)) {
-        secure_wipe(&keypair->privkey, sizeof(nostr_privkey));
+        nostr_keypair_destroy(keypair);
         return NOSTR_ERR_INVALID_KEY;
     }
     
     secp256k1_pubkey pubkey_internal;
     if (!secp256k1_ec_pubkey_create(secp256k1_ctx, &pubkey_internal, privkey->data)) {
-        secure_wipe(&keypair->privkey, sizeof(nostr_privkey));
+        nostr_keypair_destroy(keypair);
         return NOSTR_ERR_INVALID_KEY;
     }
     
     secp256k1_xonly_pubkey xonly_pubkey;
     int parity;
     if (!secp256k1_xonly_pubkey_from_pubkey(secp256k1_ctx, &xonly_pubkey, &parity, &pubkey_internal)) {
-        secure_wipe(&keypair->privkey, sizeof(nostr_privkey));
+        nostr_keypair_destroy(keypair);
         return NOSTR_ERR_INVALID_KEY;
     }
     
     if (!secp256k1_xonly_pubkey_serialize(secp256k1_ctx, keypair->pubkey.data, &xonly_pubkey)) {
-        secure_wipe(&keypair->privkey, sizeof(nostr_privkey));
+        nostr_keypair_destroy(keypair);
         return NOSTR_ERR_INVALID_KEY;
     }
 #else
     // No crypto backend available
-    secure_wipe(&keypair->privkey, sizeof(nostr_privkey));
+    nostr_keypair_destroy(keypair);
     return NOSTR_ERR_NOT_SUPPORTED;
 #endif
     
-- 
2.43.0


From e63399a8c1ae808beca9050ec983267f5283c55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:29 +0000
Subject: [PATCH 22/92] fix: nostr_key_ecdh returns the x coordinate both
 parties share

---
 src/key.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/key.c b/src/key.c
index d53589f..dc9b3ee 100644
--- a/src/key.c
+++ b/src/key.c
@@ -434,6 +434,16 @@ nostr_error_t nostr_privkey_to_hex(const nostr_privkey* privkey, char* hex, size
     return NOSTR_OK;
 }
 
+#if defined(HAVE_SECP256K1) && !defined(HAVE_NOSCRYPT)
+static int ecdh_copy_x(unsigned char* output, const unsigned char* x32, const unsigned char* y32, void* data)
+{
+    (void)y32;
+    (void)data;
+    memcpy(output, x32, 32);
+    return 1;
+}
+#endif
+
 nostr_error_t nostr_key_ecdh(const nostr_privkey* privkey, const nostr_key* pubkey, uint8_t shared_secret[32])
 {
     if (!privkey || !pubkey || !shared_secret) {
@@ -475,7 +485,7 @@ nostr_error_t nostr_key_ecdh(const nostr_privkey* privkey, const nostr_key* pubk
         return NOSTR_ERR_INVALID_KEY;
     }
     
-    if (!secp256k1_ecdh(secp256k1_ctx, shared_secret, &secp_pubkey, privkey->data, NULL, NULL)) {
+    if (!secp256k1_ecdh(secp256k1_ctx, shared_secret, &secp_pubkey, privkey->data, ecdh_copy_x, NULL)) {
         return NOSTR_ERR_INVALID_KEY;
     }
 #else
-- 
2.43.0


From ec9f7fc7cb65dee08781c74b3f3ff49651e761f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:42 +0000
Subject: [PATCH 23/92] fix: HD derivation before initialization and partial
 keys on failure

---
 src/hd_key.c | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/hd_key.c b/src/hd_key.c
index 5ffafd6..5642657 100644
--- a/src/hd_key.c
+++ b/src/hd_key.c
@@ -44,6 +44,11 @@ nostr_error_t nostr_hd_key_from_seed(const uint8_t* seed, size_t seed_len, nostr
     }
     
     memset(master, 0, sizeof(nostr_hd_key));
+
+    nostr_error_t err = nostr_init();
+    if (err != NOSTR_OK) {
+        return err;
+    }
     
     if (!HMAC(EVP_sha512(), HD_SEED_KEY, strlen(HD_SEED_KEY), seed, seed_len, hash, &hash_len)) {
         return NOSTR_ERR_MEMORY;
@@ -98,12 +103,8 @@ nostr_error_t nostr_hd_key_from_seed(const uint8_t* seed, size_t seed_len, nostr
     return NOSTR_OK;
 }
 
-nostr_error_t nostr_hd_key_derive(const nostr_hd_key* parent, uint32_t index, nostr_hd_key* child)
+static nostr_error_t hd_key_derive_child(const nostr_hd_key* parent, uint32_t index, nostr_hd_key* child)
 {
-    if (!parent || !child) {
-        return NOSTR_ERR_INVALID_PARAM;
-    }
-
     memset(child, 0, sizeof(nostr_hd_key));
 
     unsigned char data[37];
@@ -205,6 +206,30 @@ nostr_error_t nostr_hd_key_derive(const nostr_hd_key* parent, uint32_t index, no
     return NOSTR_OK;
 }
 
+nostr_error_t nostr_hd_key_derive(const nostr_hd_key* parent, uint32_t index, nostr_hd_key* child)
+{
+    if (!parent || !child) {
+        return NOSTR_ERR_INVALID_PARAM;
+    }
+
+    nostr_error_t err = nostr_init();
+    if (err != NOSTR_OK) {
+        return err;
+    }
+
+    /* Built aside: child may be the parent, and a failure must leave no partial key in it. */
+    nostr_hd_key derived;
+    err = hd_key_derive_child(parent, index, &derived);
+    if (err == NOSTR_OK) {
+        memcpy(child, &derived, sizeof(nostr_hd_key));
+    } else if (child != parent) {
+        memset(child, 0, sizeof(nostr_hd_key));
+    }
+
+    secure_wipe(&derived, sizeof(derived));
+    return err;
+}
+
 nostr_error_t nostr_hd_key_derive_path(const nostr_hd_key* master, const char* path, nostr_hd_key* derived)
 {
     if (!master || !path || !derived) {
-- 
2.43.0


From 47b2a87b3011be4a1c79d8a1defc9ad4b941ce81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:42 +0000
Subject: [PATCH 24/92] fix: HD paths are parsed strictly

---
 src/hd_key.c | 63 +++++++++++++++++++++-------------------------------
 1 file changed, 25 insertions(+), 38 deletions(-)

diff --git a/src/hd_key.c b/src/hd_key.c
index 5642657..b84522e 100644
--- a/src/hd_key.c
+++ b/src/hd_key.c
@@ -245,62 +245,49 @@ nostr_error_t nostr_hd_key_derive_path(const nostr_hd_key* master, const char* p
         return NOSTR_OK;
     }
 
-    size_t path_len = strlen(path + 2);
-    char* path_copy = strdup(path + 2);
-    if (!path_copy) {
-        return NOSTR_ERR_MEMORY;
-    }
-
     nostr_hd_key current;
     memcpy(&current, master, sizeof(nostr_hd_key));
 
-    char* saveptr;
-    char* token = strtok_r(path_copy, "/", &saveptr);
+    const char* p = path + 1;
+    nostr_error_t err = NOSTR_OK;
 
-    while (token != NULL) {
-        size_t token_len = strlen(token);
-        int hardened = 0;
+    while (*p != '\0') {
+        uint32_t index = 0;
 
-        if (token_len > 0 && (token[token_len - 1] == '\'' || token[token_len - 1] == 'h')) {
-            hardened = 1;
-            token[token_len - 1] = '\0';
+        if (*p != '/' || p[1] < '0' || p[1] > '9') {
+            err = NOSTR_ERR_INVALID_PARAM;
+            break;
         }
 
-        char* endptr;
-        uint32_t index = strtoul(token, &endptr, 10);
-        if (*endptr != '\0' || index >= HD_HARDENED_FLAG) {
-            secure_wipe(path_copy, path_len);
-            free(path_copy);
-            secure_wipe(&current, sizeof(current));
-            return NOSTR_ERR_INVALID_PARAM;
+        for (p++; *p >= '0' && *p <= '9'; p++) {
+            uint32_t digit = (uint32_t)(*p - '0');
+            if (index > (HD_HARDENED_FLAG - 1 - digit) / 10) {
+                err = NOSTR_ERR_INVALID_PARAM;
+                break;
+            }
+            index = index * 10 + digit;
+        }
+        if (err != NOSTR_OK) {
+            break;
         }
 
-        if (hardened) {
+        if (*p == '\'' || *p == 'h') {
             index |= HD_HARDENED_FLAG;
+            p++;
         }
 
-        nostr_hd_key next;
-        nostr_error_t err = nostr_hd_key_derive(&current, index, &next);
+        err = nostr_hd_key_derive(&current, index, &current);
         if (err != NOSTR_OK) {
-            secure_wipe(path_copy, path_len);
-            free(path_copy);
-            secure_wipe(&current, sizeof(current));
-            return err;
+            break;
         }
-
-        secure_wipe(&current, sizeof(current));
-        memcpy(&current, &next, sizeof(nostr_hd_key));
-        secure_wipe(&next, sizeof(next));
-
-        token = strtok_r(NULL, "/", &saveptr);
     }
 
-    secure_wipe(path_copy, path_len);
-    free(path_copy);
-    memcpy(derived, &current, sizeof(nostr_hd_key));
+    if (err == NOSTR_OK) {
+        memcpy(derived, &current, sizeof(nostr_hd_key));
+    }
     secure_wipe(&current, sizeof(current));
 
-    return NOSTR_OK;
+    return err;
 }
 
 nostr_error_t nostr_hd_key_to_keypair(const nostr_hd_key* hd_key, nostr_keypair* keypair)
-- 
2.43.0


From e24c615e1272d15f16197d3c4ccdf221eae0d1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:42 +0000
Subject: [PATCH 25/92] fix: an HD key without a valid private key exports no
 usable pair

---
 src/hd_key.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hd_key.c b/src/hd_key.c
index b84522e..743d897 100644
--- a/src/hd_key.c
+++ b/src/hd_key.c
@@ -302,7 +302,12 @@ nostr_error_t nostr_hd_key_to_keypair(const nostr_hd_key* hd_key, nostr_keypair*
     memcpy(&keypair->pubkey, &hd_key->pubkey, sizeof(nostr_key));
     keypair->initialized = 1;
 
-    return NOSTR_OK;
+    nostr_error_t err = nostr_keypair_validate(keypair);
+    if (err != NOSTR_OK) {
+        nostr_keypair_destroy(keypair);
+    }
+
+    return err;
 }
 
 static int bip39_word_index(const char* word)
-- 
2.43.0


From 9d0373d87ca22466dc8658fc19ea3bb66e0c93f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:21 +0000
Subject: [PATCH 26/92] fix: mnemonics with irregular blanks do not validate

---
 src/hd_key.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hd_key.c b/src/hd_key.c
index 743d897..befc078 100644
--- a/src/hd_key.c
+++ b/src/hd_key.c
@@ -400,6 +400,12 @@ nostr_error_t nostr_mnemonic_validate(const char* mnemonic)
     }
 
     size_t mnemonic_len = strlen(mnemonic);
+
+    /* The seed is derived from the text itself: words are separated by exactly one space. */
+    if (mnemonic[0] == ' ' || mnemonic[mnemonic_len - 1] == ' ' || strstr(mnemonic, "  ")) {
+        return NOSTR_ERR_INVALID_PARAM;
+    }
+
     char* mnemonic_copy = strdup(mnemonic);
     if (!mnemonic_copy) {
         return NOSTR_ERR_MEMORY;
-- 
2.43.0


From 69c62b3dc7c65c2449dd6c3d2bcfbe10b1478218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:23 +0000
Subject: [PATCH 27/92] fix: delegation conditions take plain numbers and all
 time bounds

---
 src/nip26.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/nip26.c b/src/nip26.c
index 269412f..ed3ad66 100644
--- a/src/nip26.c
+++ b/src/nip26.c
@@ -61,6 +61,14 @@ static void cleanup_conditions(nostr_delegation_conditions *out)
     out->kind_count = 0;
 }
 
+/* A number is plain decimal digits and runs to the end of its clause. */
+static int ends_clause(const char *start, const char *end, int allow_negative)
+{
+    if (allow_negative && *start == '-')
+        start++;
+    return *start >= '0' && *start <= '9' && (*end == '&' || *end == '\0');
+}
+
 static int parse_delegation_conditions(const char *conditions, nostr_delegation_conditions *out)
 {
     if (!conditions || !out)
@@ -92,7 +100,7 @@ static int parse_delegation_conditions(const char *conditions, nostr_delegation_
             char *endptr;
             errno = 0;
             unsigned long val = strtoul(p, &endptr, 10);
-            if (errno != 0 || endptr == p || val > UINT16_MAX) {
+            if (errno != 0 || !ends_clause(p, endptr, 0) || val > UINT16_MAX) {
                 cleanup_conditions(out);
                 return 0;
             }
@@ -117,11 +125,12 @@ static int parse_delegation_conditions(const char *conditions, nostr_delegation_
             char *endptr;
             errno = 0;
             long long val = strtoll(p, &endptr, 10);
-            if (errno != 0 || endptr == p) {
+            if (errno != 0 || !ends_clause(p, endptr, 1)) {
                 cleanup_conditions(out);
                 return 0;
             }
-            out->created_after = (int64_t)val;
+            if (!out->has_created_after || val > out->created_after)
+                out->created_after = (int64_t)val;
             out->has_created_after = 1;
             p = endptr;
             parsed++;
@@ -131,11 +140,12 @@ static int parse_delegation_conditions(const char *conditions, nostr_delegation_
             char *endptr;
             errno = 0;
             long long val = strtoll(p, &endptr, 10);
-            if (errno != 0 || endptr == p) {
+            if (errno != 0 || !ends_clause(p, endptr, 1)) {
                 cleanup_conditions(out);
                 return 0;
             }
-            out->created_before = (int64_t)val;
+            if (!out->has_created_before || val < out->created_before)
+                out->created_before = (int64_t)val;
             out->has_created_before = 1;
             p = endptr;
             parsed++;
-- 
2.43.0


From 1417e4e69a4e749319cb814e07b3f1bdb6fba59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:59 +0000
Subject: [PATCH 28/92] fix: failed event creation does not return a freed
 event

---
 src/event.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/event.c b/src/event.c
index 8a21163..d39b4b6 100644
--- a/src/event.c
+++ b/src/event.c
@@ -99,6 +99,7 @@ nostr_error_t nostr_event_create(nostr_event** event)
 
     if (tag_arena_create(&(*event)->tag_arena, 1024) != NOSTR_OK) {
         free(*event);
+        *event = NULL;
         return NOSTR_ERR_MEMORY;
     }
 
-- 
2.43.0


From d5736ce8e0172ec3a9e353b7322a5245c52de080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:59 +0000
Subject: [PATCH 29/92] fix: thread readers skip malformed event ids

---
 src/nip10.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/nip10.c b/src/nip10.c
index b8d6a90..5d2a139 100644
--- a/src/nip10.c
+++ b/src/nip10.c
@@ -4,6 +4,7 @@
 
 #include <stdlib.h>
 #include <string.h>
+#include <ctype.h>
 
 typedef struct {
     char event_id[65];
@@ -25,13 +26,24 @@ static void copy_bounded(char* dest, const char* src, size_t max_len)
     dest[len] = '\0';
 }
 
+static int is_event_id(const char* str)
+{
+    if (!str || strlen(str) != 64)
+        return 0;
+    for (size_t i = 0; i < 64; i++) {
+        if (!isxdigit((unsigned char)str[i]))
+            return 0;
+    }
+    return 1;
+}
+
 static int parse_e_tag(const nostr_tag* tag, e_tag_info* info)
 {
     if (!tag || !info || tag->count < 2 || !tag->values[0] || strcmp(tag->values[0], "e") != 0) {
         return 0;
     }
 
-    if (!tag->values[1]) {
+    if (!is_event_id(tag->values[1])) {
         return 0;
     }
 
-- 
2.43.0


From c9e0994d3e33de26e9c43fe55b8161534b8bf931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:00 +0000
Subject: [PATCH 30/92] fix: mentioned events are neither thread root nor reply

---
 src/nip10.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/nip10.c b/src/nip10.c
index 5d2a139..cdc28b3 100644
--- a/src/nip10.c
+++ b/src/nip10.c
@@ -140,14 +140,18 @@ static nostr_error_t find_e_tag_by_marker(const nostr_event* event, const char*
         }
     }
 
-    if (use_positional_fallback == 0) {
-        copy_id_and_relay(&e_tags[0], out_id, id_size, relay_hint, relay_hint_size);
-        free(e_tags);
-        return NOSTR_OK;
+    /* position among the tags that are not mentions: first is the root, last the reply */
+    const e_tag_info* found = NULL;
+    for (size_t i = 0; i < e_tag_count; i++) {
+        if (strcmp(e_tags[i].marker, "mention") == 0)
+            continue;
+        found = &e_tags[i];
+        if (use_positional_fallback == 0)
+            break;
     }
 
-    if (use_positional_fallback == 1 && e_tag_count >= 1) {
-        copy_id_and_relay(&e_tags[e_tag_count - 1], out_id, id_size, relay_hint, relay_hint_size);
+    if (found) {
+        copy_id_and_relay(found, out_id, id_size, relay_hint, relay_hint_size);
         free(e_tags);
         return NOSTR_OK;
     }
-- 
2.43.0


From 65b26fe08cbbe8e48354d0b3a748abde0030d286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:00 +0000
Subject: [PATCH 31/92] fix: failed reply tagging adds no tag

---
 src/nip10.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nip10.c b/src/nip10.c
index cdc28b3..12a02da 100644
--- a/src/nip10.c
+++ b/src/nip10.c
@@ -205,8 +205,11 @@ nostr_error_t nostr_event_add_reply_tags(nostr_event* event, const char* root_id
 
     if (reply_id) {
         err = add_e_tag(event, reply_id, reply_relay, "reply", reply_pubkey);
-        if (err != NOSTR_OK)
+        if (err != NOSTR_OK) {
+            if (root_id)
+                event->tags_count--;
             return err;
+        }
     }
 
     return NOSTR_OK;
-- 
2.43.0


From d0a8c1a6e575e2622aaafff5fe7923d6d6bedf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:00 +0000
Subject: [PATCH 32/92] fix: reactions with a malformed target are not parsed
 as valid

---
 src/nip25.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/nip25.c b/src/nip25.c
index 6500a39..0ad6eb1 100644
--- a/src/nip25.c
+++ b/src/nip25.c
@@ -126,15 +126,17 @@ nostr_error_t nostr_reaction_parse(const nostr_event* event, char* reaction_cont
         const char* value = tag->values[1];
 
         if (strcmp(name, "e") == 0) {
-            last_e_id = value;
+            if (is_valid_hex_string(value, 64))
+                last_e_id = value;
         } else if (strcmp(name, "p") == 0) {
-            last_p_key = value;
+            if (is_valid_hex_string(value, 64))
+                last_p_key = value;
         } else if (strcmp(name, "k") == 0 && target_kind) {
             char* endptr;
             errno = 0;
             unsigned long kind_val = strtoul(value, &endptr, 10);
-            if (errno == 0 && endptr != value && *endptr == '\0') {
-                *target_kind = (kind_val > UINT16_MAX) ? UINT16_MAX : (uint16_t)kind_val;
+            if (errno == 0 && endptr != value && *endptr == '\0' && *value != '-' && kind_val <= UINT16_MAX) {
+                *target_kind = (uint16_t)kind_val;
             }
         }
     }
-- 
2.43.0


From d6533cb74c3452c5339cba8a9b75780fd2b7b97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:00 +0000
Subject: [PATCH 33/92] fix: reposts with a malformed target are not parsed as
 valid

---
 src/nip18.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/nip18.c b/src/nip18.c
index 593fdaf..fb62dc1 100644
--- a/src/nip18.c
+++ b/src/nip18.c
@@ -142,16 +142,18 @@ nostr_error_t nostr_repost_parse(const nostr_event* event, char* reposted_event_
         const char* value = tag->values[1];
 
         if (strcmp(name, "e") == 0) {
-            found_e_id = value;
-            if (tag->count >= 3 && tag->values[2])
-                found_relay = tag->values[2];
+            if (is_valid_hex_string(value, 64)) {
+                found_e_id = value;
+                found_relay = (tag->count >= 3) ? tag->values[2] : NULL;
+            }
         } else if (strcmp(name, "p") == 0) {
-            found_p_key = value;
+            if (is_valid_hex_string(value, 64))
+                found_p_key = value;
         } else if (strcmp(name, "k") == 0) {
             char* endptr;
             errno = 0;
             unsigned long kind_val = strtoul(value, &endptr, 10);
-            if (errno == 0 && endptr != value && *endptr == '\0' && kind_val <= UINT16_MAX)
+            if (errno == 0 && endptr != value && *endptr == '\0' && *value != '-' && kind_val <= UINT16_MAX)
                 found_kind = (uint16_t)kind_val;
         }
     }
-- 
2.43.0


From e09e838c237e542f58ec9661150e67af64f48e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:15 +0000
Subject: [PATCH 34/92] fix: failed list metadata change keeps the old value

---
 src/nip51.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/nip51.c b/src/nip51.c
index 14c992d..d06e83d 100644
--- a/src/nip51.c
+++ b/src/nip51.c
@@ -167,11 +167,12 @@ static nostr_error_t set_string_field(nostr_list* list, char** field, const char
     if (!list) {
         return NOSTR_ERR_INVALID_PARAM;
     }
-    free(*field);
-    *field = value ? strdup(value) : NULL;
-    if (value && !*field) {
+    char* copy = value ? strdup(value) : NULL;
+    if (value && !copy) {
         return NOSTR_ERR_MEMORY;
     }
+    free(*field);
+    *field = copy;
     return NOSTR_OK;
 }
 
-- 
2.43.0


From 6e3cae3cecb7af1046e20e60a5a657ac0a88b694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:43 +0000
Subject: [PATCH 35/92] fix: long private list items can be read back

---
 src/nip51.c | 47 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/src/nip51.c b/src/nip51.c
index d06e83d..f71ece9 100644
--- a/src/nip51.c
+++ b/src/nip51.c
@@ -608,12 +608,9 @@ static size_t encode_utf8(char* dest, size_t max_len, size_t len, unsigned int c
     return len;
 }
 
-static nostr_error_t parse_private_content(const char* json, nostr_list* list)
+/* fields: room for four strings of field_size bytes each, none of which can be longer than the text */
+static nostr_error_t parse_private_items(const char* json, nostr_list* list, char* fields, size_t field_size)
 {
-    if (!json || strlen(json) < 2) {
-        return NOSTR_OK;
-    }
-
     const char* p = json;
     while (*p && *p != '[') {
         p++;
@@ -633,10 +630,11 @@ static nostr_error_t parse_private_content(const char* json, nostr_list* list)
         }
         p++;
 
-        char tag_type[64] = {0};
-        char value[1024] = {0};
-        char relay_hint[512] = {0};
-        char petname[256] = {0};
+        char* tag_type = fields;
+        char* value = tag_type + field_size;
+        char* relay_hint = value + field_size;
+        char* petname = relay_hint + field_size;
+        tag_type[0] = value[0] = relay_hint[0] = petname[0] = '\0';
         int field = 0;
 
         while (*p && *p != ']') {
@@ -651,14 +649,17 @@ static nostr_error_t parse_private_content(const char* json, nostr_list* list)
             p++;
 
             char* dest;
-            size_t max_len;
+            size_t max_len = field_size - 1;
             switch (field) {
-            case 0:  dest = tag_type;   max_len = sizeof(tag_type) - 1;   break;
-            case 1:  dest = value;      max_len = sizeof(value) - 1;      break;
-            case 2:  dest = relay_hint; max_len = sizeof(relay_hint) - 1; break;
-            case 3:  dest = petname;    max_len = sizeof(petname) - 1;    break;
+            case 0:  dest = tag_type;   break;
+            case 1:  dest = value;      break;
+            case 2:  dest = relay_hint; break;
+            case 3:  dest = petname;    break;
             default:
-                while (*p && *p != '"') p++;
+                while (*p && *p != '"') {
+                    if (*p == '\\' && *(p+1)) p++;
+                    p++;
+                }
                 if (*p == '"') p++;
                 field++;
                 continue;
@@ -750,6 +751,22 @@ static nostr_error_t parse_private_content(const char* json, nostr_list* list)
     return NOSTR_OK;
 }
 
+static nostr_error_t parse_private_content(const char* json, nostr_list* list)
+{
+    if (!json || strlen(json) < 2) {
+        return NOSTR_OK;
+    }
+
+    size_t field_size = strlen(json) + 1;
+    char* fields = calloc(4, field_size);
+    if (!fields) {
+        return NOSTR_ERR_MEMORY;
+    }
+    nostr_error_t err = parse_private_items(json, list, fields, field_size);
+    free(fields);
+    return err;
+}
+
 nostr_error_t nostr_list_from_event(const nostr_event* event, const nostr_keypair* keypair,
                                     nostr_list** list)
 {
-- 
2.43.0


From c7034eb133464de708161693cabaa7578e0ee694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:14 +0000
Subject: [PATCH 36/92] fix: nip05 verify honours the response length

---
 src/nip05.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/nip05.c b/src/nip05.c
index b6438bb..7557ba6 100644
--- a/src/nip05.c
+++ b/src/nip05.c
@@ -315,14 +315,24 @@ nostr_error_t nostr_nip05_verify(const char* identifier, const char* expected_pu
         return NOSTR_ERR_INVALID_PARAM;
     }
 
+    /* the callback need not terminate what it received */
+    char* json = malloc(response_len + 1);
+    if (!json) {
+        free(response);
+        return NOSTR_ERR_MEMORY;
+    }
+    memcpy(json, response, response_len);
+    json[response_len] = '\0';
+    free(response);
+
     char pubkey_hex[65];
     char** relays = NULL;
     size_t relay_count = 0;
 
-    err = nostr_nip05_parse_response(response, name, pubkey_hex, sizeof(pubkey_hex),
+    err = nostr_nip05_parse_response(json, name, pubkey_hex, sizeof(pubkey_hex),
                                      relays_out ? &relays : NULL,
                                      relay_count_out ? &relay_count : NULL);
-    free(response);
+    free(json);
 
     if (err != NOSTR_OK) return err;
 
-- 
2.43.0


From 92bea288ddeb54820f3a6d3e316c401cb9c38781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:14 +0000
Subject: [PATCH 37/92] fix: nip05 responses are parsed as JSON, not searched

---
 src/nip05.c | 205 +++++++++++++++++++++++++++++++---------------------
 1 file changed, 123 insertions(+), 82 deletions(-)

diff --git a/src/nip05.c b/src/nip05.c
index 7557ba6..d960de0 100644
--- a/src/nip05.c
+++ b/src/nip05.c
@@ -52,50 +52,114 @@ static int is_valid_domain(const char* s, size_t len) {
     return has_dot;
 }
 
-static const char* skip_ws_and_colon(const char* p) {
-    if (!p) return p;
-    while (*p == ' ' || *p == ':' || *p == '\n' || *p == '\t' || *p == '\r') p++;
+#define NIP05_MAX_JSON_DEPTH 64
+
+static const char* skip_ws(const char* p) {
+    while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') p++;
     return p;
 }
 
-static int is_escaped_quote(const char* json, const char* p) {
-    if (p <= json) return 0;
-    size_t idx = (size_t)(p - json) - 1;
-    int backslashes = 0;
-    while (json[idx] == '\\') {
-        backslashes++;
-        if (idx == 0) break;
-        idx--;
+/* p is at the opening quote; returns the character after the closing one */
+static const char* skip_string(const char* p) {
+    for (p++; *p != '"'; p++) {
+        if ((unsigned char)*p < 0x20) return NULL;
+        if (*p != '\\') continue;
+        p++;
+        if (*p == 'u') {
+            for (int i = 1; i <= 4; i++) {
+                if (!is_hex_char(p[i])) return NULL;
+            }
+            p += 4;
+        } else if (*p == '\0' || !strchr("\"\\/bfnrt", *p)) {
+            return NULL;
+        }
     }
-    return backslashes % 2 == 1;
+    return p + 1;
 }
 
-static const char* json_strstr(const char* json, const char* needle) {
-    if (!json || !needle) return NULL;
-
-    int in_string = 0;
-    size_t needle_len = strlen(needle);
+static const char* skip_number(const char* p) {
+    if (*p == '-') p++;
+    if (*p == '0') {
+        p++;
+    } else {
+        if (!isdigit((unsigned char)*p)) return NULL;
+        while (isdigit((unsigned char)*p)) p++;
+    }
+    if (*p == '.') {
+        p++;
+        if (!isdigit((unsigned char)*p)) return NULL;
+        while (isdigit((unsigned char)*p)) p++;
+    }
+    if (*p == 'e' || *p == 'E') {
+        p++;
+        if (*p == '+' || *p == '-') p++;
+        if (!isdigit((unsigned char)*p)) return NULL;
+        while (isdigit((unsigned char)*p)) p++;
+    }
+    return p;
+}
 
-    for (const char* p = json; *p; p++) {
-        if (!in_string && strncmp(p, needle, needle_len) == 0) {
-            return p;
-        }
-        if (*p == '"' && !is_escaped_quote(json, p)) {
-            in_string = !in_string;
+/* returns the character after the JSON value at p, or NULL if it is not well-formed */
+static const char* skip_value(const char* p, int depth) {
+    if (*p == '"') return skip_string(p);
+    if (*p == '{' || *p == '[') {
+        int object = *p == '{';
+        char close = object ? '}' : ']';
+        if (depth >= NIP05_MAX_JSON_DEPTH) return NULL;
+        p = skip_ws(p + 1);
+        if (*p == close) return p + 1;
+        for (;;) {
+            if (object) {
+                if (*p != '"' || !(p = skip_string(p))) return NULL;
+                p = skip_ws(p);
+                if (*p != ':') return NULL;
+                p = skip_ws(p + 1);
+            }
+            if (!(p = skip_value(p, depth + 1))) return NULL;
+            p = skip_ws(p);
+            if (*p == close) return p + 1;
+            if (*p != ',') return NULL;
+            p = skip_ws(p + 1);
         }
     }
+    if (strncmp(p, "true", 4) == 0 || strncmp(p, "null", 4) == 0) return p + 4;
+    if (strncmp(p, "false", 5) == 0) return p + 5;
+    return skip_number(p);
+}
+
+/* the value of the first member called key of a (well-formed) object, NULL if there is none */
+static const char* find_member(const char* object, const char* key) {
+    size_t key_len = strlen(key);
+    if (*object != '{') return NULL;
+    const char* p = skip_ws(object + 1);
+    while (*p == '"') {
+        const char* name = p + 1;
+        p = skip_string(p);
+        size_t len = (size_t)(p - name) - 1;
+        p = skip_ws(skip_ws(p) + 1);
+        if (len == key_len && memcmp(name, key, len) == 0) return p;
+        p = skip_ws(skip_value(p, 0));
+        if (*p == ',') p = skip_ws(p + 1);
+    }
     return NULL;
 }
 
-static int contains_unicode_escape(const char* s, size_t len) {
-    for (size_t i = 0; i + 1 < len; i++) {
-        if (s[i] == '\\' && s[i + 1] == 'u') return 1;
+/* copies a string as it is written between its quotes, undoing the optional escape of '/' */
+static char* copy_url(const char* s, size_t len) {
+    char* out = malloc(len + 1);
+    if (!out) return NULL;
+    size_t n = 0;
+    for (size_t i = 0; i < len; i++) {
+        if (s[i] == '\\' && i + 1 < len && s[i + 1] == '/') continue;
+        out[n++] = s[i];
     }
-    return 0;
+    out[n] = '\0';
+    return out;
 }
 
-static int is_valid_relay_url(const char* url, size_t len) {
-    if (len < 6 || contains_unicode_escape(url, len)) return 0;
+static int is_valid_relay_url(const char* url) {
+    /* an escape other than that of '/' is left in place: no URL contains a backslash */
+    if (strlen(url) < 6 || strchr(url, '\\')) return 0;
     return strncmp(url, "wss://", 6) == 0 || strncmp(url, "ws://", 5) == 0;
 }
 
@@ -180,19 +244,16 @@ nostr_error_t nostr_nip05_parse_response(const char* json, const char* name,
         if (name[i] == '"' || name[i] == '\\') return NOSTR_ERR_INVALID_PARAM;
     }
 
-    const char* names_pos = json_strstr(json, "\"names\"");
-    if (!names_pos) return NOSTR_ERR_NOT_FOUND;
+    const char* root = skip_ws(json);
+    const char* root_end = skip_value(root, 0);
+    if (!root_end || *skip_ws(root_end) != '\0') return NOSTR_ERR_JSON_PARSE;
 
-    names_pos = skip_ws_and_colon(names_pos + 7);
+    const char* names_pos = find_member(root, "names");
+    if (!names_pos) return NOSTR_ERR_NOT_FOUND;
     if (*names_pos != '{') return NOSTR_ERR_JSON_PARSE;
 
-    char search_name[NIP05_MAX_NAME_LEN + 4];
-    snprintf(search_name, sizeof(search_name), "\"%s\"", name);
-
-    const char* name_pos = json_strstr(names_pos, search_name);
+    const char* name_pos = find_member(names_pos, name);
     if (!name_pos) return NOSTR_ERR_NOT_FOUND;
-
-    name_pos = skip_ws_and_colon(name_pos + strlen(search_name));
     if (*name_pos != '"') return NOSTR_ERR_JSON_PARSE;
     name_pos++;
 
@@ -208,31 +269,18 @@ nostr_error_t nostr_nip05_parse_response(const char* json, const char* name,
 
     if (!relays || !relay_count) return NOSTR_OK;
 
-    const char* relays_pos = json_strstr(json, "\"relays\"");
+    const char* relays_pos = find_member(root, "relays");
     if (!relays_pos) return NOSTR_OK;
 
-    relays_pos = skip_ws_and_colon(relays_pos + 8);
-    if (*relays_pos != '{') return NOSTR_OK;
-
-    char pubkey_search[68];
-    snprintf(pubkey_search, sizeof(pubkey_search), "\"%s\"", pubkey_hex);
-
-    const char* pubkey_relays = json_strstr(relays_pos, pubkey_search);
-    if (!pubkey_relays) return NOSTR_OK;
-
-    pubkey_relays = skip_ws_and_colon(pubkey_relays + strlen(pubkey_search));
-    if (*pubkey_relays != '[') return NOSTR_OK;
-    pubkey_relays++;
+    const char* pubkey_relays = find_member(relays_pos, pubkey_hex);
+    if (!pubkey_relays || *pubkey_relays != '[') return NOSTR_OK;
 
     size_t count = 0;
-    const char* p = pubkey_relays;
-    int in_string = 0;
-    while (*p && *p != ']') {
-        if (*p == '"' && !is_escaped_quote(pubkey_relays, p)) {
-            in_string = !in_string;
-            if (!in_string) count++;
-        }
-        p++;
+    const char* p;
+    for (p = skip_ws(pubkey_relays + 1); *p != ']'; ) {
+        if (*p == '"') count++;
+        p = skip_ws(skip_value(p, 0));
+        if (*p == ',') p = skip_ws(p + 1);
     }
 
     if (count == 0) return NOSTR_OK;
@@ -242,30 +290,23 @@ nostr_error_t nostr_nip05_parse_response(const char* json, const char* name,
     if (!relay_array) return NOSTR_ERR_MEMORY;
 
     size_t idx = 0;
-    p = pubkey_relays;
-    while (*p && *p != ']' && idx < count) {
-        while (*p && *p != '"' && *p != ']') p++;
-        if (*p != '"') break;
-        p++;
-
-        const char* relay_start = p;
-        while (*p && (*p != '"' || is_escaped_quote(pubkey_relays, p))) p++;
-        if (*p != '"') break;
-
-        size_t relay_len = p - relay_start;
-        if (!is_valid_relay_url(relay_start, relay_len)) {
-            p++;
-            continue;
-        }
-        relay_array[idx] = malloc(relay_len + 1);
-        if (!relay_array[idx]) {
-            nostr_nip05_free_relays(relay_array, idx);
-            return NOSTR_ERR_MEMORY;
+    for (p = skip_ws(pubkey_relays + 1); *p != ']'; ) {
+        const char* end = skip_value(p, 0);
+        if (*p == '"') {
+            relay_array[idx] = copy_url(p + 1, (size_t)(end - p) - 2);
+            if (!relay_array[idx]) {
+                nostr_nip05_free_relays(relay_array, idx);
+                return NOSTR_ERR_MEMORY;
+            }
+            if (is_valid_relay_url(relay_array[idx])) {
+                idx++;
+            } else {
+                free(relay_array[idx]);
+                relay_array[idx] = NULL;
+            }
         }
-        memcpy(relay_array[idx], relay_start, relay_len);
-        relay_array[idx][relay_len] = '\0';
-        idx++;
-        p++;
+        p = skip_ws(end);
+        if (*p == ',') p = skip_ws(p + 1);
     }
 
     *relays = relay_array;
-- 
2.43.0


From 1fd2940c6a289ec9377c8156c9937e6f18c0b4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:55 +0000
Subject: [PATCH 38/92] fix: zap requests list every relay and leave no
 dangling event

---
 src/zap.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/zap.c b/src/zap.c
index 962b91f..6871010 100644
--- a/src/zap.c
+++ b/src/zap.c
@@ -59,19 +59,32 @@ nostr_error_t nostr_zap_create_request(nostr_event** event, uint64_t amount, con
         err = nostr_event_set_content(*event, content);
         if (err != NOSTR_OK) {
             nostr_event_destroy(*event);
+            *event = NULL;
             return err;
         }
     }
     
-    const char* relay_tag[16];
+    if (relays_count >= SIZE_MAX / sizeof(char*)) {
+        nostr_event_destroy(*event);
+        *event = NULL;
+        return NOSTR_ERR_INVALID_PARAM;
+    }
+    const char** relay_tag = malloc((relays_count + 1) * sizeof(char*));
+    if (!relay_tag) {
+        nostr_event_destroy(*event);
+        *event = NULL;
+        return NOSTR_ERR_MEMORY;
+    }
     relay_tag[0] = "relays";
     size_t tag_count = 1;
-    for (size_t i = 0; i < relays_count && tag_count < 16; i++) {
+    for (size_t i = 0; i < relays_count; i++) {
         relay_tag[tag_count++] = relays[i];
     }
     err = nostr_event_add_tag(*event, relay_tag, tag_count);
+    free(relay_tag);
     if (err != NOSTR_OK) {
         nostr_event_destroy(*event);
+        *event = NULL;
         return err;
     }
     
@@ -81,6 +94,7 @@ nostr_error_t nostr_zap_create_request(nostr_event** event, uint64_t amount, con
     err = nostr_event_add_tag(*event, amount_tag, 2);
     if (err != NOSTR_OK) {
         nostr_event_destroy(*event);
+        *event = NULL;
         return err;
     }
     
@@ -89,6 +103,7 @@ nostr_error_t nostr_zap_create_request(nostr_event** event, uint64_t amount, con
         err = nostr_event_add_tag(*event, lnurl_tag, 2);
         if (err != NOSTR_OK) {
             nostr_event_destroy(*event);
+            *event = NULL;
             return err;
         }
     }
@@ -97,12 +112,14 @@ nostr_error_t nostr_zap_create_request(nostr_event** event, uint64_t amount, con
     err = nostr_key_to_hex(recipient, pubkey_hex, sizeof(pubkey_hex));
     if (err != NOSTR_OK) {
         nostr_event_destroy(*event);
+        *event = NULL;
         return err;
     }
     const char* p_tag[] = {"p", pubkey_hex};
     err = nostr_event_add_tag(*event, p_tag, 2);
     if (err != NOSTR_OK) {
         nostr_event_destroy(*event);
+        *event = NULL;
         return err;
     }
     
-- 
2.43.0


From 0f2cbffabe52023fce7e31990e41094783bb4e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:55 +0000
Subject: [PATCH 39/92] fix: lnurl validation decodes the data and checks the
 checksum

---
 src/zap.c | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/zap.c b/src/zap.c
index 6871010..389195d 100644
--- a/src/zap.c
+++ b/src/zap.c
@@ -1,4 +1,5 @@
 #include "nostr.h"
+#include "bech32_internal.h"
 
 #ifdef NOSTR_FEATURE_NIP57
 
@@ -10,13 +11,7 @@
 #define ZAP_REQUEST_KIND 9734
 #define ZAP_RECEIPT_KIND 9735
 
-static int is_valid_bech32_char(char c)
-{
-    const char* charset = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
-    return strchr(charset, tolower(c)) != NULL;
-}
-
-static int decode_bech32(const char* bech32, char* hrp, uint8_t* data, size_t* data_len)
+static int decode_bech32(const char* bech32, char* hrp, size_t hrp_size, uint8_t* data, size_t* data_len)
 {
     size_t bech32_len = strlen(bech32);
     if (bech32_len < 8 || bech32_len > 90) {
@@ -30,16 +25,27 @@ static int decode_bech32(const char* bech32, char* hrp, uint8_t* data, size_t* d
         }
     }
     
-    if (separator < 1 || separator + 7 > bech32_len) {
+    if (separator < 1 || separator >= hrp_size || separator + 7 > bech32_len) {
         return 0;
     }
     
-    if (hrp) {
-        memcpy(hrp, bech32, separator);
-        hrp[separator] = '\0';
+    memcpy(hrp, bech32, separator);
+    hrp[separator] = '\0';
+    
+    size_t count = bech32_len - separator - 1;
+    if (count > *data_len) {
+        return 0;
+    }
+    for (size_t i = 0; i < count; ++i) {
+        int value = bech32_charset_decode(bech32[separator + 1 + i]);
+        if (value < 0) {
+            return 0;
+        }
+        data[i] = (uint8_t)value;
     }
+    *data_len = count;
     
-    return 1;
+    return bech32_verify_checksum(hrp, data, count);
 }
 
 nostr_error_t nostr_zap_create_request(nostr_event** event, uint64_t amount, const nostr_key* recipient, const char* lnurl, const char* content, const char** relays, size_t relays_count)
@@ -140,7 +146,7 @@ nostr_error_t nostr_zap_validate_lnurl(const char* lnurl, char* nostr_pubkey, bo
     uint8_t data[256];
     size_t data_len = sizeof(data);
     
-    if (!decode_bech32(lnurl, hrp, data, &data_len)) {
+    if (!decode_bech32(lnurl, hrp, sizeof(hrp), data, &data_len)) {
         return NOSTR_ERR_ENCODING;
     }
     
-- 
2.43.0


From 888904933459a873448d5760a1864c0d8df0513c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:55 +0000
Subject: [PATCH 40/92] fix: zap receipts: exact invoice amounts, no leaks

---
 src/zap.c | 129 ++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 92 insertions(+), 37 deletions(-)

diff --git a/src/zap.c b/src/zap.c
index 389195d..b3ed541 100644
--- a/src/zap.c
+++ b/src/zap.c
@@ -157,12 +157,78 @@ nostr_error_t nostr_zap_validate_lnurl(const char* lnurl, char* nostr_pubkey, bo
     return NOSTR_OK;
 }
 
+/* The amount is the part of a BOLT11 prefix after the network: digits, optionally a multiplier */
+static int parse_invoice_amount(const char* invoice, uint64_t* amount)
+{
+    *amount = 0;
+    
+    const char* separator = strrchr(invoice, '1');
+    if (!separator || tolower((unsigned char)invoice[0]) != 'l' || tolower((unsigned char)invoice[1]) != 'n') {
+        return 0;
+    }
+    
+    const char* amt_start = invoice + 2;
+    while (amt_start < separator && isalpha((unsigned char)*amt_start)) amt_start++;
+    if (amt_start == invoice + 2) {
+        return 0;
+    }
+    if (amt_start == separator) {
+        return 1;
+    }
+    
+    uint64_t amt = 0;
+    const char* amt_end = amt_start;
+    while (amt_end < separator && isdigit((unsigned char)*amt_end)) {
+        uint64_t digit = (uint64_t)(*amt_end - '0');
+        if (amt > (UINT64_MAX - digit) / 10) {
+            return 0;
+        }
+        amt = amt * 10 + digit;
+        amt_end++;
+    }
+    if (amt_end == amt_start || amt_end + 1 < separator) {
+        return 0;
+    }
+    
+    uint64_t factor = 100000000000;
+    if (amt_end < separator) {
+        switch (tolower((unsigned char)*amt_end)) {
+            case 'm':
+                factor = 100000000;
+                break;
+            case 'u':
+                factor = 100000;
+                break;
+            case 'n':
+                factor = 100;
+                break;
+            case 'p':
+                *amount = amt / 10;
+                return amt % 10 == 0;
+            default:
+                return 0;
+        }
+    }
+    if (amt > UINT64_MAX / factor) {
+        return 0;
+    }
+    *amount = amt * factor;
+    return 1;
+}
+
 nostr_error_t nostr_zap_parse_receipt(const nostr_event* event, uint64_t* amount, char** bolt11, char* preimage, nostr_event** zap_request)
 {
     if (!event || event->kind != ZAP_RECEIPT_KIND) {
         return NOSTR_ERR_INVALID_PARAM;
     }
     
+    nostr_error_t err = NOSTR_OK;
+    const char* invoice = NULL;
+    if (amount) *amount = 0;
+    if (bolt11) *bolt11 = NULL;
+    if (preimage) preimage[0] = '\0';
+    if (zap_request) *zap_request = NULL;
+    
     for (size_t i = 0; i < event->tags_count; i++) {
         if (event->tags[i].count < 2) {
             continue;
@@ -171,10 +237,14 @@ nostr_error_t nostr_zap_parse_receipt(const nostr_event* event, uint64_t* amount
         const char* tag_name = event->tags[i].values[0];
         const char* tag_value = event->tags[i].values[1];
         
-        if (strcmp(tag_name, "bolt11") == 0 && bolt11) {
-            *bolt11 = strdup(tag_value);
-            if (!*bolt11) {
-                return NOSTR_ERR_MEMORY;
+        if (strcmp(tag_name, "bolt11") == 0 && !invoice) {
+            invoice = tag_value;
+            if (bolt11) {
+                *bolt11 = strdup(tag_value);
+                if (!*bolt11) {
+                    err = NOSTR_ERR_MEMORY;
+                    goto fail;
+                }
             }
         } else if (strcmp(tag_name, "preimage") == 0 && preimage) {
             size_t len = strlen(tag_value);
@@ -182,47 +252,32 @@ nostr_error_t nostr_zap_parse_receipt(const nostr_event* event, uint64_t* amount
                 memcpy(preimage, tag_value, len);
                 preimage[len] = '\0';
             }
-        } else if (strcmp(tag_name, "description") == 0 && zap_request) {
-            nostr_error_t err = nostr_event_from_json(tag_value, zap_request);
+        } else if (strcmp(tag_name, "description") == 0 && zap_request && !*zap_request) {
+            err = nostr_event_from_json(tag_value, zap_request);
             if (err != NOSTR_OK) {
-                if (bolt11 && *bolt11) {
-                    free(*bolt11);
-                    *bolt11 = NULL;
-                }
-                return err;
+                *zap_request = NULL;
+                goto fail;
             }
         }
     }
     
-    if (amount && bolt11 && *bolt11) {
-        const char* amt_start = strstr(*bolt11, "lnbc");
-        if (amt_start) {
-            amt_start += 4;
-            char* amt_end;
-            unsigned long amt = strtoul(amt_start, &amt_end, 10);
-            if (amt_end > amt_start) {
-                char multiplier = tolower(*amt_end);
-                switch (multiplier) {
-                    case 'm':
-                        *amount = amt * 100000000;
-                        break;
-                    case 'u':
-                        *amount = amt * 100000;
-                        break;
-                    case 'n':
-                        *amount = amt * 100;
-                        break;
-                    case 'p':
-                        *amount = amt / 10;
-                        break;
-                    default:
-                        *amount = amt * 100000000000;
-                }
-            }
-        }
+    if (amount && invoice && !parse_invoice_amount(invoice, amount)) {
+        err = NOSTR_ERR_INVALID_EVENT;
+        goto fail;
     }
     
     return NOSTR_OK;
+
+fail:
+    if (bolt11) {
+        free(*bolt11);
+        *bolt11 = NULL;
+    }
+    if (zap_request) {
+        nostr_event_destroy(*zap_request);
+        *zap_request = NULL;
+    }
+    return err;
 }
 
 nostr_error_t nostr_zap_verify(const nostr_event* receipt, const nostr_event* request, const char* server_pubkey)
-- 
2.43.0


From fa7a66b77669fa377cc0189363313181366417f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:55 +0000
Subject: [PATCH 41/92] fix: zap verification needs the invoice amount and the
 true embedded request

---
 src/zap.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/zap.c b/src/zap.c
index b3ed541..0228d09 100644
--- a/src/zap.c
+++ b/src/zap.c
@@ -314,6 +314,14 @@ nostr_error_t nostr_zap_verify(const nostr_event* receipt, const nostr_event* re
         return NOSTR_ERR_INVALID_EVENT;
     }
     
+    /* the id inside the description is only a claim about it */
+    err = nostr_event_compute_id(embedded_request);
+    if (err != NOSTR_OK) {
+        nostr_event_destroy(embedded_request);
+        if (bolt11) free(bolt11);
+        return err;
+    }
+    
     int id_match = nostr_constant_time_memcmp(request->id, embedded_request->id, NOSTR_ID_SIZE) == 0;
     if (!id_match) {
         nostr_event_destroy(embedded_request);
@@ -329,7 +337,7 @@ nostr_error_t nostr_zap_verify(const nostr_event* receipt, const nostr_event* re
         }
     }
     
-    if (request_amount > 0 && receipt_amount > 0 && request_amount != receipt_amount) {
+    if (request_amount > 0 && request_amount != receipt_amount) {
         nostr_event_destroy(embedded_request);
         if (bolt11) free(bolt11);
         return NOSTR_ERR_INVALID_EVENT;
-- 
2.43.0


From be671b61347f573f6b52b1b7582a39ebf194ab19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:57 +0000
Subject: [PATCH 42/92] fix: threaded mining reads its found flag under the
 lock, failed start joins and cleans up

---
 src/nip13.c | 54 ++++++++++++++++++++++++-----------------------------
 1 file changed, 24 insertions(+), 30 deletions(-)

diff --git a/src/nip13.c b/src/nip13.c
index d011ee6..e7e91e2 100644
--- a/src/nip13.c
+++ b/src/nip13.c
@@ -291,8 +291,8 @@ static DWORD WINAPI mining_thread(LPVOID arg)
     uint64_t nonce = data->start_nonce;
     uint64_t iterations = 0;
     
-    while (!*(data->global_found) && 
-           (data->max_iterations == 0 || iterations < data->max_iterations)) {
+    /* global_found is shared: it is only looked at under the mutex */
+    while (data->max_iterations == 0 || iterations < data->max_iterations) {
         
         EnterCriticalSection(data->mutex);
         if (*(data->global_found)) {
@@ -353,8 +353,8 @@ static void* mining_thread(void* arg)
     uint64_t nonce = data->start_nonce;
     uint64_t iterations = 0;
     
-    while (!*(data->global_found) && 
-           (data->max_iterations == 0 || iterations < data->max_iterations)) {
+    /* global_found is shared: it is only looked at under the mutex */
+    while (data->max_iterations == 0 || iterations < data->max_iterations) {
         
         pthread_mutex_lock(data->mutex);
         if (*(data->global_found)) {
@@ -440,6 +440,8 @@ nostr_error_t nostr_nip13_mine_event_threaded(nostr_event* event, int target_dif
     CRITICAL_SECTION mutex;
     InitializeCriticalSection(&mutex);
     int global_found = 0;
+    int started = 0;
+    nostr_error_t result = NOSTR_ERR_NOT_FOUND;
     
     for (int i = 0; i < num_threads; i++) {
         thread_data[i].event = event;
@@ -453,29 +455,21 @@ nostr_error_t nostr_nip13_mine_event_threaded(nostr_event* event, int target_dif
         
         threads[i] = CreateThread(NULL, 0, mining_thread, &thread_data[i], 0, NULL);
         if (threads[i] == NULL) {
+            EnterCriticalSection(&mutex);
             global_found = 1;
-            for (int j = 0; j < i; j++) {
-                if (threads[j] != NULL) {
-                    WaitForSingleObject(threads[j], INFINITE);
-                    CloseHandle(threads[j]);
-                }
-            }
-            DeleteCriticalSection(&mutex);
-            free(threads);
-            free(thread_data);
-            return NOSTR_ERR_PROTOCOL;
+            LeaveCriticalSection(&mutex);
+            result = NOSTR_ERR_PROTOCOL;
+            break;
         }
+        started++;
     }
     
-    for (int i = 0; i < num_threads; i++) {
-        if (threads[i] != NULL) {
-            WaitForSingleObject(threads[i], INFINITE);
-            CloseHandle(threads[i]);
-        }
+    for (int i = 0; i < started; i++) {
+        WaitForSingleObject(threads[i], INFINITE);
+        CloseHandle(threads[i]);
     }
     
-    nostr_error_t result = NOSTR_ERR_NOT_FOUND;
-    for (int i = 0; i < num_threads; i++) {
+    for (int i = 0; i < started; i++) {
         if (thread_data[i].found) {
             result = NOSTR_OK;
             break;
@@ -496,6 +490,8 @@ nostr_error_t nostr_nip13_mine_event_threaded(nostr_event* event, int target_dif
     
     pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
     int global_found = 0;
+    int started = 0;
+    nostr_error_t result = NOSTR_ERR_NOT_FOUND;
     
     for (int i = 0; i < num_threads; i++) {
         thread_data[i].event = event;
@@ -508,22 +504,20 @@ nostr_error_t nostr_nip13_mine_event_threaded(nostr_event* event, int target_dif
         thread_data[i].global_found = &global_found;
         
         if (pthread_create(&threads[i], NULL, mining_thread, &thread_data[i]) != 0) {
+            pthread_mutex_lock(&mutex);
             global_found = 1;
-            for (int j = 0; j < i; j++) {
-                pthread_join(threads[j], NULL);
-            }
-            free(threads);
-            free(thread_data);
-            return NOSTR_ERR_PROTOCOL;
+            pthread_mutex_unlock(&mutex);
+            result = NOSTR_ERR_PROTOCOL;
+            break;
         }
+        started++;
     }
     
-    for (int i = 0; i < num_threads; i++) {
+    for (int i = 0; i < started; i++) {
         pthread_join(threads[i], NULL);
     }
     
-    nostr_error_t result = NOSTR_ERR_NOT_FOUND;
-    for (int i = 0; i < num_threads; i++) {
+    for (int i = 0; i < started; i++) {
         if (thread_data[i].found) {
             result = NOSTR_OK;
             break;
-- 
2.43.0


From a8de77f077c47f9f8df2b053f468608fc0995849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:06 +0000
Subject: [PATCH 43/92] fix: operations always initialize under the lock
 (unlocked checks raced with nostr_init)

---
 src/event.c | 32 ++++++++++++--------------------
 src/key.c   | 32 ++++++++++++--------------------
 2 files changed, 24 insertions(+), 40 deletions(-)

diff --git a/src/event.c b/src/event.c
index d39b4b6..8e2a2b5 100644
--- a/src/event.c
+++ b/src/event.c
@@ -562,11 +562,9 @@ nostr_error_t nostr_event_sign(nostr_event* event, const nostr_privkey* privkey)
     }
 
 #ifdef HAVE_NOSCRYPT
-    if (!nc_ctx) {
-        nostr_error_t err = nostr_init();
-        if (err != NOSTR_OK) {
-            return err;
-        }
+    nostr_error_t init_err = nostr_init();
+    if (init_err != NOSTR_OK) {
+        return init_err;
     }
 
     NCSecretKey nc_secret;
@@ -602,11 +600,9 @@ nostr_error_t nostr_event_sign(nostr_event* event, const nostr_privkey* privkey)
     secure_wipe(random32, sizeof(random32));
 
 #elif defined(HAVE_SECP256K1)
-    if (!secp256k1_ctx) {
-        nostr_error_t err = nostr_init();
-        if (err != NOSTR_OK) {
-            return err;
-        }
+    nostr_error_t init_err = nostr_init();
+    if (init_err != NOSTR_OK) {
+        return init_err;
     }
 
     secp256k1_keypair keypair;
@@ -663,11 +659,9 @@ nostr_error_t nostr_event_verify(const nostr_event* event)
     }
 
 #ifdef HAVE_NOSCRYPT
-    if (!nc_ctx) {
-        nostr_error_t err = nostr_init();
-        if (err != NOSTR_OK) {
-            return err;
-        }
+    nostr_error_t init_err = nostr_init();
+    if (init_err != NOSTR_OK) {
+        return init_err;
     }
 
     nostr_event temp_event = *event;
@@ -691,11 +685,9 @@ nostr_error_t nostr_event_verify(const nostr_event* event)
     }
 
 #elif defined(HAVE_SECP256K1)
-    if (!secp256k1_ctx) {
-        nostr_error_t err = nostr_init();
-        if (err != NOSTR_OK) {
-            return err;
-        }
+    nostr_error_t init_err = nostr_init();
+    if (init_err != NOSTR_OK) {
+        return init_err;
     }
 
     nostr_event temp_event = *event;
diff --git a/src/key.c b/src/key.c
index dc9b3ee..1b0f880 100644
--- a/src/key.c
+++ b/src/key.c
@@ -286,11 +286,9 @@ nostr_error_t nostr_key_generate(nostr_privkey* privkey, nostr_key* pubkey)
         return NOSTR_ERR_INVALID_PARAM;
     }
 
-    if (!ctx_initialized) {
-        nostr_error_t err = nostr_init();
-        if (err != NOSTR_OK) {
-            return err;
-        }
+    nostr_error_t init_err = nostr_init();
+    if (init_err != NOSTR_OK) {
+        return init_err;
     }
 
 #ifdef HAVE_NOSCRYPT
@@ -450,11 +448,9 @@ nostr_error_t nostr_key_ecdh(const nostr_privkey* privkey, const nostr_key* pubk
         return NOSTR_ERR_INVALID_PARAM;
     }
 
-    if (!ctx_initialized) {
-        nostr_error_t err = nostr_init();
-        if (err != NOSTR_OK) {
-            return err;
-        }
+    nostr_error_t init_err = nostr_init();
+    if (init_err != NOSTR_OK) {
+        return init_err;
     }
 
 #ifdef HAVE_NOSCRYPT
@@ -546,11 +542,9 @@ nostr_error_t nostr_keypair_from_private_key(nostr_keypair* keypair, const nostr
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    if (!ctx_initialized) {
-        nostr_error_t err = nostr_init();
-        if (err != NOSTR_OK) {
-            return err;
-        }
+    nostr_error_t init_err = nostr_init();
+    if (init_err != NOSTR_OK) {
+        return init_err;
     }
     
     memcpy(&keypair->privkey, privkey, sizeof(nostr_privkey));
@@ -633,11 +627,9 @@ nostr_error_t nostr_keypair_validate(const nostr_keypair* keypair)
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    if (!ctx_initialized) {
-        nostr_error_t err = nostr_init();
-        if (err != NOSTR_OK) {
-            return err;
-        }
+    nostr_error_t init_err = nostr_init();
+    if (init_err != NOSTR_OK) {
+        return init_err;
     }
     
 #ifdef HAVE_NOSCRYPT
-- 
2.43.0


From 17457d3baf6ce5c8411f9c806ea8ac7e0597ff74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:55 +0000
Subject: [PATCH 44/92] fix: an empty or negative environment variable is not a
 number

---
 src/config.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/config.c b/src/config.c
index 4db6996..ff973c1 100644
--- a/src/config.c
+++ b/src/config.c
@@ -79,7 +79,8 @@ static uint32_t parse_uint32_env(const char* name, uint32_t default_val) {
     
     char* endptr;
     unsigned long val = strtoul(env, &endptr, 10);
-    if (*endptr != '\0' || val > UINT32_MAX) return default_val;
+    /* strtoul() takes the empty string for 0 and wraps negative numbers */
+    if (*env < '0' || *env > '9' || *endptr != '\0' || val > UINT32_MAX) return default_val;
     
     return (uint32_t)val;
 }
@@ -90,7 +91,7 @@ static int parse_int_env(const char* name, int default_val) {
     
     char* endptr;
     long val = strtol(env, &endptr, 10);
-    if (*endptr != '\0' || val > INT_MAX || val < INT_MIN) return default_val;
+    if (endptr == env || *endptr != '\0' || val > INT_MAX || val < INT_MIN) return default_val;
     
     return (int)val;
 }
-- 
2.43.0


From bdbda3cca98adbf2c3e56aca242d99b9b5d2c02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:55 +0000
Subject: [PATCH 45/92] fix: accept the documented range of the relay response
 timeout

---
 src/config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config.c b/src/config.c
index ff973c1..b58e3a3 100644
--- a/src/config.c
+++ b/src/config.c
@@ -156,7 +156,7 @@ nostr_error_t nostr_config_validate(const nostr_config* config) {
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    if (config->relay_response_timeout_ms < 1000 || config->relay_response_timeout_ms > 60000) {
+    if (config->relay_response_timeout_ms < 1000 || config->relay_response_timeout_ms > 300000) {
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-- 
2.43.0


From df2bc13439e696852fe5bcdcb5af8496232f77cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:55 +0000
Subject: [PATCH 46/92] fix: notify of configuration changes without holding
 the lock

---
 src/config.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/config.c b/src/config.c
index b58e3a3..e262a66 100644
--- a/src/config.c
+++ b/src/config.c
@@ -256,12 +256,17 @@ nostr_error_t nostr_config_update(const nostr_config* config) {
     }
     
     nostr_config old_config = g_config;
-    g_config = *config;
+    nostr_config new_config = *config;
+    nostr_config_callback callback = g_config_callback;
+    void* user_data = g_config_callback_user_data;
+    g_config = new_config;
     
-    if (g_config_callback) {
-        g_config_callback(&old_config, &g_config, g_config_callback_user_data);
+    unlock_config();
+    
+    /* without the lock: the callback may use the configuration functions */
+    if (callback) {
+        callback(&old_config, &new_config, user_data);
     }
     
-    unlock_config();
     return NOSTR_OK;
 }
\ No newline at end of file
-- 
2.43.0


From 3b263709e7f5e7c6adec4301a347d09d757cb5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:06 +0000
Subject: [PATCH 47/92] fix: a failed relay connect releases what it built and
 forgets its handle

---
 src/relay.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/relay.c b/src/relay.c
index 2d08bd8..61a7966 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -171,6 +171,7 @@ nostr_error_t nostr_relay_create(nostr_relay** relay, const char* url) {
     (*relay)->url = strdup(url);
     if (!(*relay)->url) {
         free(*relay);
+        *relay = NULL;
         return NOSTR_ERR_MEMORY;
     }
 
@@ -223,6 +224,10 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
     ccinfo.ssl_connection = LCCSCF_USE_SSL;
     
     char* url_copy = strdup(relay->url);
+    if (!url_copy) {
+        lws_context_destroy(context);
+        return NOSTR_ERR_MEMORY;
+    }
     if (strncmp(url_copy, "wss://", 6) == 0) {
         ccinfo.address = url_copy + 6;
         ccinfo.ssl_connection = LCCSCF_USE_SSL;
@@ -281,8 +286,10 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
     struct lws* wsi = lws_client_connect_via_info(&ccinfo);
     if (!wsi) {
         free(url_copy);
-        free(ctx);
+        relay->ws_handle = NULL;
         lws_context_destroy(context);
+        destroy_queue_mutex(ctx);
+        free(ctx);
         relay->state = NOSTR_RELAY_ERROR;
         return NOSTR_ERR_CONNECTION;
     }
-- 
2.43.0


From 1b382a99f734b720ce17e3ff31401d51aa0cc89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:24 +0000
Subject: [PATCH 48/92] fix: relay URLs may name a port

---
 src/relay.c | 106 ++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 73 insertions(+), 33 deletions(-)

diff --git a/src/relay.c b/src/relay.c
index 61a7966..4a53284 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -195,6 +195,70 @@ void nostr_relay_destroy(nostr_relay* relay) {
     free(relay);
 }
 
+/* Split a ws:// or wss:// URL into ccinfo's address, host, port and path. The
+ * strings live in *storage, to be freed once the connection is started. */
+static nostr_error_t parse_relay_url(const char* url, struct lws_client_connect_info* ccinfo, char** storage) {
+    const char* rest;
+    if (strncmp(url, "wss://", 6) == 0) {
+        rest = url + 6;
+        ccinfo->port = 443;
+        ccinfo->ssl_connection = LCCSCF_USE_SSL;
+    } else if (strncmp(url, "ws://", 5) == 0) {
+        rest = url + 5;
+        ccinfo->port = 80;
+        ccinfo->ssl_connection = 0;
+    } else {
+        return NOSTR_ERR_INVALID_PARAM;
+    }
+
+    size_t size = strlen(rest) + 1;
+    char* host = malloc(2 * size);
+    if (!host) {
+        return NOSTR_ERR_MEMORY;
+    }
+    memcpy(host, rest, size);
+
+    char* path = strchr(host, '/');
+    if (path) {
+        *path = '\0';
+        ccinfo->path = path + 1;
+    } else {
+        ccinfo->path = "/";
+    }
+
+    char* address = host + size;
+    strcpy(address, host);
+    char* port = NULL;
+    if (*address == '[') {
+        char* close = strchr(address, ']');
+        if (!close || (close[1] != '\0' && close[1] != ':')) {
+            free(host);
+            return NOSTR_ERR_INVALID_PARAM;
+        }
+        port = close[1] == ':' ? close + 1 : NULL;
+        *close = '\0';
+        address++;
+    } else {
+        port = strchr(address, ':');
+    }
+    if (port) {
+        *port++ = '\0';
+        size_t digits = strspn(port, "0123456789");
+        long number = digits > 0 && digits <= 5 && port[digits] == '\0' ? strtol(port, NULL, 10) : 0;
+        if (number < 1 || number > 65535) {
+            free(host);
+            return NOSTR_ERR_INVALID_PARAM;
+        }
+        ccinfo->port = (int)number;
+    }
+
+    ccinfo->address = address;
+    ccinfo->host = host;
+    ccinfo->origin = host;
+    *storage = host;
+    return NOSTR_OK;
+}
+
 nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callback, void* user_data) {
     if (!relay || !callback) {
         return NOSTR_ERR_INVALID_PARAM;
@@ -204,6 +268,14 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
         return NOSTR_ERR_CONNECTION;
     }
 
+    struct lws_client_connect_info ccinfo;
+    memset(&ccinfo, 0, sizeof(ccinfo));
+    char* url_copy = NULL;
+    nostr_error_t url_result = parse_relay_url(relay->url, &ccinfo, &url_copy);
+    if (url_result != NOSTR_OK) {
+        return url_result;
+    }
+
     struct lws_context_creation_info info;
     memset(&info, 0, sizeof(info));
     info.port = CONTEXT_PORT_NO_LISTEN;
@@ -214,43 +286,11 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
 
     struct lws_context* context = lws_create_context(&info);
     if (!context) {
+        free(url_copy);
         return NOSTR_ERR_CONNECTION;
     }
 
-    struct lws_client_connect_info ccinfo;
-    memset(&ccinfo, 0, sizeof(ccinfo));
     ccinfo.context = context;
-    ccinfo.port = 443;
-    ccinfo.ssl_connection = LCCSCF_USE_SSL;
-    
-    char* url_copy = strdup(relay->url);
-    if (!url_copy) {
-        lws_context_destroy(context);
-        return NOSTR_ERR_MEMORY;
-    }
-    if (strncmp(url_copy, "wss://", 6) == 0) {
-        ccinfo.address = url_copy + 6;
-        ccinfo.ssl_connection = LCCSCF_USE_SSL;
-    } else if (strncmp(url_copy, "ws://", 5) == 0) {
-        ccinfo.address = url_copy + 5;
-        ccinfo.port = 80;
-        ccinfo.ssl_connection = 0;
-    } else {
-        free(url_copy);
-        lws_context_destroy(context);
-        return NOSTR_ERR_INVALID_PARAM;
-    }
-    
-    char* path = strchr(ccinfo.address, '/');
-    if (path) {
-        *path = '\0';
-        ccinfo.path = path + 1;
-    } else {
-        ccinfo.path = "/";
-    }
-    
-    ccinfo.host = ccinfo.address;
-    ccinfo.origin = ccinfo.address;
     ccinfo.protocol = protocols[0].name;
 
     relay_context* ctx = calloc(1, sizeof(relay_context));
-- 
2.43.0


From 760e1ba86011a4d3c09deb1037fe60bd378f8c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:11 +0000
Subject: [PATCH 49/92] fix: notice when a relay closes its connection, release
 ended connections

---
 src/relay.c | 33 +++++++++++----------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/src/relay.c b/src/relay.c
index 4a53284..145b0ec 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -9,7 +9,6 @@
 #include <pthread.h>
 #endif
 #endif
-#include <time.h>
 #include <cjson/cJSON.h>
 
 static int validate_subscription_id(const char* id)
@@ -77,9 +76,6 @@ typedef struct {
     volatile bool service_running;
     bool service_thread_created;
 #endif
-    bool reconnect_enabled;
-    int reconnect_interval;
-    time_t last_connect_attempt;
     subscription_t* subscriptions;
     char* receive_buffer;
     size_t buffer_size;
@@ -187,7 +183,7 @@ nostr_error_t nostr_relay_create(nostr_relay** relay, const char* url) {
 void nostr_relay_destroy(nostr_relay* relay) {
     if (!relay) return;
 
-    if (relay->state == NOSTR_RELAY_CONNECTED || relay->state == NOSTR_RELAY_CONNECTING) {
+    if (relay->ws_handle) {
         nostr_relay_disconnect(relay);
     }
 
@@ -268,6 +264,11 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
         return NOSTR_ERR_CONNECTION;
     }
 
+    if (relay->ws_handle) {
+        /* an earlier connection ended by itself: release what it held */
+        nostr_relay_disconnect(relay);
+    }
+
     struct lws_client_connect_info ccinfo;
     memset(&ccinfo, 0, sizeof(ccinfo));
     char* url_copy = NULL;
@@ -303,9 +304,6 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
     ctx->context = context;
     ctx->state_callback = callback;
     ctx->user_data = user_data;
-    ctx->reconnect_enabled = true;
-    ctx->reconnect_interval = 5;
-    ctx->last_connect_attempt = time(NULL);
     ctx->subscriptions = NULL;
     ctx->receive_buffer = NULL;
     ctx->buffer_size = 0;
@@ -379,7 +377,6 @@ nostr_error_t nostr_relay_disconnect(nostr_relay* relay) {
     }
 
     relay_context* ctx = (relay_context*)relay->ws_handle;
-    ctx->reconnect_enabled = false;
 
     struct lws_context* context_to_destroy = ctx->context;
     ctx->context = NULL;
@@ -397,6 +394,9 @@ nostr_error_t nostr_relay_disconnect(nostr_relay* relay) {
     }
 #endif
 
+    /* what lws reports while its context goes away is no longer for us */
+    relay->ws_handle = NULL;
+
     if (ctx->wsi && relay->state == NOSTR_RELAY_CONNECTED) {
         lws_close_reason(ctx->wsi, LWS_CLOSE_STATUS_NORMAL, NULL, 0);
     }
@@ -418,7 +418,6 @@ nostr_error_t nostr_relay_disconnect(nostr_relay* relay) {
     free(ctx->receive_buffer);
     free(ctx);
     
-    relay->ws_handle = NULL;
     relay->state = NOSTR_RELAY_DISCONNECTED;
 
     return NOSTR_OK;
@@ -753,23 +752,13 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
             break;
             
         case LWS_CALLBACK_CLIENT_CONNECTION_ERROR:
-        case LWS_CALLBACK_CLOSED:
+        case LWS_CALLBACK_CLIENT_CLOSED:
             if (relay && ctx) {
+                ctx->wsi = NULL;
                 relay->state = NOSTR_RELAY_DISCONNECTED;
                 if (ctx->state_callback) {
                     ctx->state_callback(relay, NOSTR_RELAY_DISCONNECTED, ctx->user_data);
                 }
-                
-                if (ctx->reconnect_enabled) {
-                    time_t now = time(NULL);
-                    if (now - ctx->last_connect_attempt >= ctx->reconnect_interval) {
-                        ctx->last_connect_attempt = now;
-                        relay->state = NOSTR_RELAY_CONNECTING;
-                        if (ctx->state_callback) {
-                            ctx->state_callback(relay, NOSTR_RELAY_CONNECTING, ctx->user_data);
-                        }
-                    }
-                }
             }
             break;
             
-- 
2.43.0


From eb515c2b8853f47685f05a97b249efbefe9d28d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:11 +0000
Subject: [PATCH 50/92] fix: disconnecting wakes the service thread

---
 src/relay.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/relay.c b/src/relay.c
index 145b0ec..fd0e1a0 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -384,6 +384,9 @@ nostr_error_t nostr_relay_disconnect(nostr_relay* relay) {
 #ifdef NOSTR_FEATURE_THREADING
     ctx->service_running = false;
     if (ctx->service_thread_created) {
+        if (context_to_destroy) {
+            lws_cancel_service(context_to_destroy);
+        }
 #ifdef _WIN32
         WaitForSingleObject(ctx->service_thread, INFINITE);
         CloseHandle(ctx->service_thread);
-- 
2.43.0


From eb5e87170cf9da3902cacfb194e1a5805571becd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:36 +0000
Subject: [PATCH 51/92] fix: relay messages are taken apart by websocket
 message

---
 src/relay.c | 66 +++++++++++++++++++++++++++++++----------------------
 1 file changed, 39 insertions(+), 27 deletions(-)

diff --git a/src/relay.c b/src/relay.c
index fd0e1a0..5ea7518 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -80,6 +80,7 @@ typedef struct {
     char* receive_buffer;
     size_t buffer_size;
     size_t buffer_pos;
+    bool discard_message;
 } relay_context;
 
 #ifdef NOSTR_FEATURE_THREADING
@@ -606,6 +607,31 @@ nostr_error_t nostr_relay_unsubscribe(nostr_relay* relay, const char* subscripti
     return (result < 0) ? NOSTR_ERR_CONNECTION : NOSTR_OK;
 }
 
+static bool is_json_space(char c) {
+    return c == ' ' || c == '\t' || c == '\n' || c == '\r';
+}
+
+/* Add a fragment to the message being received; false if it cannot be kept. */
+static bool append_received(relay_context* ctx, const void* in, size_t len) {
+    const size_t max_buffer_size = 10 * 1024 * 1024;
+    if (len >= max_buffer_size - ctx->buffer_pos) {
+        return false;
+    }
+    if (ctx->buffer_pos + len >= ctx->buffer_size) {
+        size_t new_size = ctx->buffer_pos + len + 1024;
+        if (new_size > max_buffer_size) new_size = max_buffer_size;
+        char* new_buffer = realloc(ctx->receive_buffer, new_size);
+        if (!new_buffer) return false;
+        ctx->receive_buffer = new_buffer;
+        ctx->buffer_size = new_size;
+    }
+
+    memcpy(ctx->receive_buffer + ctx->buffer_pos, in, len);
+    ctx->buffer_pos += len;
+    ctx->receive_buffer[ctx->buffer_pos] = '\0';
+    return true;
+}
+
 static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reason,
                                void* user, void* in, size_t len) {
     nostr_relay* relay = (nostr_relay*)lws_get_opaque_user_data(wsi);
@@ -622,28 +648,23 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
             break;
             
         case LWS_CALLBACK_CLIENT_RECEIVE:
-            if (relay && ctx && in && len > 0) {
-                const size_t max_buffer_size = 10 * 1024 * 1024;
-                if (ctx->buffer_pos + len >= ctx->buffer_size) {
-                    size_t new_size = ctx->buffer_pos + len + 1024;
-                    if (new_size > max_buffer_size) {
-                        ctx->buffer_pos = 0;
-                        break;
-                    }
-                    char* new_buffer = realloc(ctx->receive_buffer, new_size);
-                    if (!new_buffer) break;
-                    ctx->receive_buffer = new_buffer;
-                    ctx->buffer_size = new_size;
+            if (relay && ctx) {
+                bool complete = lws_is_final_fragment(wsi);
+                if (in && len > 0 && !ctx->discard_message) {
+                    ctx->discard_message = !append_received(ctx, in, len);
                 }
-                
-                memcpy(ctx->receive_buffer + ctx->buffer_pos, in, len);
-                ctx->buffer_pos += len;
-                ctx->receive_buffer[ctx->buffer_pos] = '\0';
+                if (!complete) break;
+
+                /* the message ends here: whatever it held, the next starts afresh */
+                bool usable = !ctx->discard_message && ctx->buffer_pos > 0;
+                ctx->discard_message = false;
+                ctx->buffer_pos = 0;
+                if (!usable) break;
 
                 char* start = ctx->receive_buffer;
                 char* end;
 
-                while (*start == '\n' || *start == '\r' || *start == ' ') start++;
+                while (is_json_space(*start)) start++;
 
                 while (*start == '[' && (end = find_json_array_end(start)) != NULL) {
                     char saved = *end;
@@ -740,16 +761,7 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
                     *end = saved;
 
                     start = end;
-                    while (*start && (*start == '\n' || *start == '\r' || *start == ' ')) start++;
-                }
-                
-                size_t remaining = strlen(start);
-                if (remaining > 0) {
-                    memmove(ctx->receive_buffer, start, remaining + 1);
-                    ctx->buffer_pos = remaining;
-                } else {
-                    ctx->buffer_pos = 0;
-                    if (ctx->receive_buffer) ctx->receive_buffer[0] = '\0';
+                    while (is_json_space(*start)) start++;
                 }
             }
             break;
-- 
2.43.0


From 03fef8398f8a4e8b2dfae1a90ad59d0fa8077184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:44 +0000
Subject: [PATCH 52/92] fix: subscribe registers only what it sent as one
 well-formed REQ

---
 src/relay.c | 165 ++++++++++++++++++++++++----------------------------
 1 file changed, 77 insertions(+), 88 deletions(-)

diff --git a/src/relay.c b/src/relay.c
index 5ea7518..35acb7a 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -427,6 +427,49 @@ nostr_error_t nostr_relay_disconnect(nostr_relay* relay) {
     return NOSTR_OK;
 }
 
+static nostr_error_t send_text(relay_context* ctx, const char* msg) {
+    size_t msg_len = strlen(msg);
+    unsigned char* buf = malloc(LWS_PRE + msg_len);
+    if (!buf) {
+        return NOSTR_ERR_MEMORY;
+    }
+
+    memcpy(&buf[LWS_PRE], msg, msg_len);
+
+    lock_queue_mutex(ctx);
+    int result = lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT);
+    unlock_queue_mutex(ctx);
+
+    free(buf);
+
+    return (result < 0) ? NOSTR_ERR_CONNECTION : NOSTR_OK;
+}
+
+static void remove_subscription(relay_context* ctx, const char* subscription_id) {
+    subscription_t** sub_ptr = &ctx->subscriptions;
+    while (*sub_ptr) {
+        if (strcmp((*sub_ptr)->id, subscription_id) == 0) {
+            subscription_t* to_remove = *sub_ptr;
+            *sub_ptr = to_remove->next;
+            free(to_remove->id);
+            free(to_remove);
+            break;
+        }
+        sub_ptr = &(*sub_ptr)->next;
+    }
+}
+
+/* Is it one JSON array of "REQ", the subscription id and filter objects? */
+static bool is_req_message(const char* msg) {
+    cJSON* json = cJSON_ParseWithOpts(msg, NULL, true);
+    bool ok = cJSON_IsArray(json) && cJSON_GetArraySize(json) >= 3;
+    for (int i = 2; ok && i < cJSON_GetArraySize(json); i++) {
+        ok = cJSON_IsObject(cJSON_GetArrayItem(json, i));
+    }
+    cJSON_Delete(json);
+    return ok;
+}
+
 nostr_error_t nostr_relay_send_event(nostr_relay* relay, const nostr_event* event) {
     if (!relay || !event || relay->state != NOSTR_RELAY_CONNECTED) {
         return NOSTR_ERR_INVALID_PARAM;
@@ -452,24 +495,10 @@ nostr_error_t nostr_relay_send_event(nostr_relay* relay, const nostr_event* even
     
     sprintf(msg, "[\"EVENT\",%s]", json);
     free(json);
-    
-    size_t msg_len = strlen(msg);
-    unsigned char* buf = malloc(LWS_PRE + msg_len);
-    if (!buf) {
-        free(msg);
-        return NOSTR_ERR_MEMORY;
-    }
-    
-    memcpy(&buf[LWS_PRE], msg, msg_len);
-
-    lock_queue_mutex(ctx);
-    int result = lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT);
-    unlock_queue_mutex(ctx);
 
+    err = send_text(ctx, msg);
     free(msg);
-    free(buf);
-
-    return (result < 0) ? NOSTR_ERR_CONNECTION : NOSTR_OK;
+    return err;
 }
 
 
@@ -488,50 +517,44 @@ nostr_error_t nostr_subscribe(nostr_relay* relay, const char* subscription_id,
         return NOSTR_ERR_CONNECTION;
     }
 
-    subscription_t* sub = malloc(sizeof(subscription_t));
-    if (!sub) {
-        return NOSTR_ERR_MEMORY;
-    }
-
-    {
-        cJSON* filters_parsed = cJSON_Parse(filters_json);
-        if (!filters_parsed) {
-            free(sub);
-            return NOSTR_ERR_INVALID_PARAM;
-        }
-        cJSON_Delete(filters_parsed);
-    }
-
-    sub->id = strdup(subscription_id);
-    sub->callback = callback;
-    sub->user_data = user_data;
-    sub->next = ctx->subscriptions;
-    ctx->subscriptions = sub;
-
     char* msg = malloc(strlen(subscription_id) + strlen(filters_json) + 20);
     if (!msg) {
         return NOSTR_ERR_MEMORY;
     }
 
     sprintf(msg, "[\"REQ\",\"%s\",%s]", subscription_id, filters_json);
-    
-    size_t msg_len = strlen(msg);
-    unsigned char* buf = malloc(LWS_PRE + msg_len);
-    if (!buf) {
+
+    if (!is_req_message(msg)) {
         free(msg);
-        return NOSTR_ERR_MEMORY;
+        return NOSTR_ERR_INVALID_PARAM;
     }
-    
-    memcpy(&buf[LWS_PRE], msg, msg_len);
 
-    lock_queue_mutex(ctx);
-    int result = lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT);
-    unlock_queue_mutex(ctx);
+    subscription_t* sub = malloc(sizeof(subscription_t));
+    char* id = strdup(subscription_id);
+    if (!sub || !id) {
+        free(sub);
+        free(id);
+        free(msg);
+        return NOSTR_ERR_MEMORY;
+    }
 
+    nostr_error_t err = send_text(ctx, msg);
     free(msg);
-    free(buf);
+    if (err != NOSTR_OK) {
+        free(sub);
+        free(id);
+        return err;
+    }
 
-    return (result < 0) ? NOSTR_ERR_CONNECTION : NOSTR_OK;
+    /* a subscription made again under the same id replaces the earlier one */
+    remove_subscription(ctx, subscription_id);
+    sub->id = id;
+    sub->callback = callback;
+    sub->user_data = user_data;
+    sub->next = ctx->subscriptions;
+    ctx->subscriptions = sub;
+
+    return NOSTR_OK;
 }
 
 nostr_error_t nostr_publish_event(nostr_relay* relay, const nostr_event* event) {
@@ -569,42 +592,18 @@ nostr_error_t nostr_relay_unsubscribe(nostr_relay* relay, const char* subscripti
         return NOSTR_ERR_CONNECTION;
     }
 
-    subscription_t** sub_ptr = &ctx->subscriptions;
-    while (*sub_ptr) {
-        if (strcmp((*sub_ptr)->id, subscription_id) == 0) {
-            subscription_t* to_remove = *sub_ptr;
-            *sub_ptr = to_remove->next;
-            free(to_remove->id);
-            free(to_remove);
-            break;
-        }
-        sub_ptr = &(*sub_ptr)->next;
-    }
-
     char* msg = malloc(strlen(subscription_id) + 20);
     if (!msg) {
         return NOSTR_ERR_MEMORY;
     }
-    
-    sprintf(msg, "[\"CLOSE\",\"%s\"]", subscription_id);
-    
-    size_t msg_len = strlen(msg);
-    unsigned char* buf = malloc(LWS_PRE + msg_len);
-    if (!buf) {
-        free(msg);
-        return NOSTR_ERR_MEMORY;
-    }
-    
-    memcpy(&buf[LWS_PRE], msg, msg_len);
 
-    lock_queue_mutex(ctx);
-    int result = lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT);
-    unlock_queue_mutex(ctx);
+    remove_subscription(ctx, subscription_id);
 
-    free(msg);
-    free(buf);
+    sprintf(msg, "[\"CLOSE\",\"%s\"]", subscription_id);
 
-    return (result < 0) ? NOSTR_ERR_CONNECTION : NOSTR_OK;
+    nostr_error_t err = send_text(ctx, msg);
+    free(msg);
+    return err;
 }
 
 static bool is_json_space(char c) {
@@ -720,17 +719,7 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
                                 } else if (strcmp(msg_type, "CLOSED") == 0 && array_size >= 3) {
                                     cJSON* sub_id = cJSON_GetArrayItem(json, 1);
                                     if (cJSON_IsString(sub_id)) {
-                                        subscription_t** sub_ptr = &ctx->subscriptions;
-                                        while (*sub_ptr) {
-                                            if (strcmp((*sub_ptr)->id, sub_id->valuestring) == 0) {
-                                                subscription_t* to_remove = *sub_ptr;
-                                                *sub_ptr = to_remove->next;
-                                                free(to_remove->id);
-                                                free(to_remove);
-                                                break;
-                                            }
-                                            sub_ptr = &(*sub_ptr)->next;
-                                        }
+                                        remove_subscription(ctx, sub_id->valuestring);
                                     }
                                     if (ctx->message_callback) {
                                         char* msg_str = cJSON_Print(json);
-- 
2.43.0


From b4f0cdc711d0e05c4a94909a4cdc1703ebc827f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:09 +0000
Subject: [PATCH 53/92] fix: relay state, subscriptions and callbacks are
 shared with the service thread under locks

---
 src/relay.c | 222 +++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 152 insertions(+), 70 deletions(-)

diff --git a/src/relay.c b/src/relay.c
index 35acb7a..61d8b12 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -68,12 +68,20 @@ typedef struct {
 #ifdef NOSTR_FEATURE_THREADING
 #ifdef _WIN32
     CRITICAL_SECTION queue_mutex;
+    CRITICAL_SECTION sub_mutex;
     HANDLE service_thread;
+    DWORD service_self;
 #else
+    /* queue_mutex guards the connection and its state; sub_mutex (recursive)
+     * the subscriptions, and is held while an event callback runs, so that
+     * unsubscribing waits for it. sub_mutex is taken first. */
     pthread_mutex_t queue_mutex;
+    pthread_mutex_t sub_mutex;
     pthread_t service_thread;
+    pthread_t service_self;
 #endif
-    volatile bool service_running;
+    bool service_self_known;
+    bool service_running;
     bool service_thread_created;
 #endif
     subscription_t* subscriptions;
@@ -83,26 +91,6 @@ typedef struct {
     bool discard_message;
 } relay_context;
 
-#ifdef NOSTR_FEATURE_THREADING
-#ifdef _WIN32
-static DWORD WINAPI service_thread_func(LPVOID arg) {
-#else
-static void* service_thread_func(void* arg) {
-#endif
-    relay_context* ctx = (relay_context*)arg;
-    while (ctx->service_running) {
-        struct lws_context* context = ctx->context;
-        if (!context) break;
-        lws_service(context, 50);
-    }
-#ifdef _WIN32
-    return 0;
-#else
-    return NULL;
-#endif
-}
-#endif
-
 static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reason,
                                void* user, void* in, size_t len);
 
@@ -111,20 +99,33 @@ static int init_queue_mutex(relay_context* ctx) {
 #ifdef _WIN32
     __try {
         InitializeCriticalSection(&ctx->queue_mutex);
+        InitializeCriticalSection(&ctx->sub_mutex);
         return 0;
     } __except(EXCEPTION_EXECUTE_HANDLER) {
         return -1;
     }
 #else
-    return pthread_mutex_init(&ctx->queue_mutex, NULL);
+    pthread_mutexattr_t attr;
+    if (pthread_mutexattr_init(&attr) != 0) return -1;
+    int result = pthread_mutexattr_settype(&attr, PTHREAD_MUTEX_RECURSIVE);
+    if (result == 0) result = pthread_mutex_init(&ctx->sub_mutex, &attr);
+    pthread_mutexattr_destroy(&attr);
+    if (result != 0) return -1;
+    if (pthread_mutex_init(&ctx->queue_mutex, NULL) != 0) {
+        pthread_mutex_destroy(&ctx->sub_mutex);
+        return -1;
+    }
+    return 0;
 #endif
 }
 
 static void destroy_queue_mutex(relay_context* ctx) {
 #ifdef _WIN32
     DeleteCriticalSection(&ctx->queue_mutex);
+    DeleteCriticalSection(&ctx->sub_mutex);
 #else
     pthread_mutex_destroy(&ctx->queue_mutex);
+    pthread_mutex_destroy(&ctx->sub_mutex);
 #endif
 }
 
@@ -143,11 +144,76 @@ static void unlock_queue_mutex(relay_context* ctx) {
     pthread_mutex_unlock(&ctx->queue_mutex);
 #endif
 }
+
+static void lock_subscriptions(relay_context* ctx) {
+#ifdef _WIN32
+    EnterCriticalSection(&ctx->sub_mutex);
+#else
+    pthread_mutex_lock(&ctx->sub_mutex);
+#endif
+}
+
+static void unlock_subscriptions(relay_context* ctx) {
+#ifdef _WIN32
+    LeaveCriticalSection(&ctx->sub_mutex);
+#else
+    pthread_mutex_unlock(&ctx->sub_mutex);
+#endif
+}
 #else
 static int init_queue_mutex(relay_context* ctx) { (void)ctx; return 0; }
 static void destroy_queue_mutex(relay_context* ctx) { (void)ctx; }
 static void lock_queue_mutex(relay_context* ctx) { (void)ctx; }
 static void unlock_queue_mutex(relay_context* ctx) { (void)ctx; }
+static void lock_subscriptions(relay_context* ctx) { (void)ctx; }
+static void unlock_subscriptions(relay_context* ctx) { (void)ctx; }
+#endif
+
+#ifdef NOSTR_FEATURE_THREADING
+static bool service_wanted(relay_context* ctx) {
+    lock_queue_mutex(ctx);
+    bool wanted = ctx->service_running;
+    unlock_queue_mutex(ctx);
+    return wanted;
+}
+
+static bool on_service_thread(relay_context* ctx) {
+    lock_queue_mutex(ctx);
+#ifdef _WIN32
+    bool self = ctx->service_self_known && ctx->service_self == GetCurrentThreadId();
+#else
+    bool self = ctx->service_self_known && pthread_equal(ctx->service_self, pthread_self());
+#endif
+    unlock_queue_mutex(ctx);
+    return self;
+}
+
+#ifdef _WIN32
+static DWORD WINAPI service_thread_func(LPVOID arg) {
+#else
+static void* service_thread_func(void* arg) {
+#endif
+    relay_context* ctx = (relay_context*)arg;
+    struct lws_context* context = ctx->context;
+    lock_queue_mutex(ctx);
+#ifdef _WIN32
+    ctx->service_self = GetCurrentThreadId();
+#else
+    ctx->service_self = pthread_self();
+#endif
+    ctx->service_self_known = true;
+    unlock_queue_mutex(ctx);
+    while (service_wanted(ctx)) {
+        lws_service(context, 50);
+    }
+#ifdef _WIN32
+    return 0;
+#else
+    return NULL;
+#endif
+}
+#else
+static bool on_service_thread(relay_context* ctx) { (void)ctx; return false; }
 #endif
 
 static struct lws_protocols protocols[] = {
@@ -155,6 +221,16 @@ static struct lws_protocols protocols[] = {
     { NULL, NULL, 0, 0 }
 };
 
+/* The service thread changes the state while there is a connection. */
+static nostr_relay_state relay_state(nostr_relay* relay) {
+    relay_context* ctx = (relay_context*)relay->ws_handle;
+    if (!ctx) return relay->state;
+    lock_queue_mutex(ctx);
+    nostr_relay_state state = relay->state;
+    unlock_queue_mutex(ctx);
+    return state;
+}
+
 nostr_error_t nostr_relay_create(nostr_relay** relay, const char* url) {
     if (!relay || !url) {
         return NOSTR_ERR_INVALID_PARAM;
@@ -184,8 +260,8 @@ nostr_error_t nostr_relay_create(nostr_relay** relay, const char* url) {
 void nostr_relay_destroy(nostr_relay* relay) {
     if (!relay) return;
 
-    if (relay->ws_handle) {
-        nostr_relay_disconnect(relay);
+    if (relay->ws_handle && nostr_relay_disconnect(relay) != NOSTR_OK) {
+        return;
     }
 
     free(relay->url);
@@ -261,13 +337,14 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
         return NOSTR_ERR_INVALID_PARAM;
     }
 
-    if (relay->state == NOSTR_RELAY_CONNECTED || relay->state == NOSTR_RELAY_CONNECTING) {
+    nostr_relay_state state = relay_state(relay);
+    if (state == NOSTR_RELAY_CONNECTED || state == NOSTR_RELAY_CONNECTING) {
         return NOSTR_ERR_CONNECTION;
     }
 
-    if (relay->ws_handle) {
-        /* an earlier connection ended by itself: release what it held */
-        nostr_relay_disconnect(relay);
+    /* an earlier connection ended by itself: release what it held */
+    if (relay->ws_handle && nostr_relay_disconnect(relay) != NOSTR_OK) {
+        return NOSTR_ERR_CONNECTION;
     }
 
     struct lws_client_connect_info ccinfo;
@@ -379,11 +456,17 @@ nostr_error_t nostr_relay_disconnect(nostr_relay* relay) {
 
     relay_context* ctx = (relay_context*)relay->ws_handle;
 
+    /* a callback cannot wait for the thread it runs on */
+    if (on_service_thread(ctx)) {
+        return NOSTR_ERR_CONNECTION;
+    }
+
     struct lws_context* context_to_destroy = ctx->context;
-    ctx->context = NULL;
 
 #ifdef NOSTR_FEATURE_THREADING
+    lock_queue_mutex(ctx);
     ctx->service_running = false;
+    unlock_queue_mutex(ctx);
     if (ctx->service_thread_created) {
         if (context_to_destroy) {
             lws_cancel_service(context_to_destroy);
@@ -437,7 +520,7 @@ static nostr_error_t send_text(relay_context* ctx, const char* msg) {
     memcpy(&buf[LWS_PRE], msg, msg_len);
 
     lock_queue_mutex(ctx);
-    int result = lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT);
+    int result = ctx->wsi ? lws_write(ctx->wsi, &buf[LWS_PRE], msg_len, LWS_WRITE_TEXT) : -1;
     unlock_queue_mutex(ctx);
 
     free(buf);
@@ -446,6 +529,7 @@ static nostr_error_t send_text(relay_context* ctx, const char* msg) {
 }
 
 static void remove_subscription(relay_context* ctx, const char* subscription_id) {
+    lock_subscriptions(ctx);
     subscription_t** sub_ptr = &ctx->subscriptions;
     while (*sub_ptr) {
         if (strcmp((*sub_ptr)->id, subscription_id) == 0) {
@@ -457,6 +541,7 @@ static void remove_subscription(relay_context* ctx, const char* subscription_id)
         }
         sub_ptr = &(*sub_ptr)->next;
     }
+    unlock_subscriptions(ctx);
 }
 
 /* Is it one JSON array of "REQ", the subscription id and filter objects? */
@@ -471,7 +556,7 @@ static bool is_req_message(const char* msg) {
 }
 
 nostr_error_t nostr_relay_send_event(nostr_relay* relay, const nostr_event* event) {
-    if (!relay || !event || relay->state != NOSTR_RELAY_CONNECTED) {
+    if (!relay || !event || relay_state(relay) != NOSTR_RELAY_CONNECTED) {
         return NOSTR_ERR_INVALID_PARAM;
     }
 
@@ -482,7 +567,7 @@ nostr_error_t nostr_relay_send_event(nostr_relay* relay, const nostr_event* even
     }
 
     relay_context* ctx = (relay_context*)relay->ws_handle;
-    if (!ctx || !ctx->wsi) {
+    if (!ctx) {
         free(json);
         return NOSTR_ERR_CONNECTION;
     }
@@ -504,7 +589,7 @@ nostr_error_t nostr_relay_send_event(nostr_relay* relay, const nostr_event* even
 
 nostr_error_t nostr_subscribe(nostr_relay* relay, const char* subscription_id, 
                              const char* filters_json, nostr_event_callback callback, void* user_data) {
-    if (!relay || !subscription_id || !filters_json || relay->state != NOSTR_RELAY_CONNECTED) {
+    if (!relay || !subscription_id || !filters_json || relay_state(relay) != NOSTR_RELAY_CONNECTED) {
         return NOSTR_ERR_INVALID_PARAM;
     }
 
@@ -513,7 +598,7 @@ nostr_error_t nostr_subscribe(nostr_relay* relay, const char* subscription_id,
     }
 
     relay_context* ctx = (relay_context*)relay->ws_handle;
-    if (!ctx || !ctx->wsi) {
+    if (!ctx) {
         return NOSTR_ERR_CONNECTION;
     }
 
@@ -538,9 +623,11 @@ nostr_error_t nostr_subscribe(nostr_relay* relay, const char* subscription_id,
         return NOSTR_ERR_MEMORY;
     }
 
+    lock_subscriptions(ctx);
     nostr_error_t err = send_text(ctx, msg);
     free(msg);
     if (err != NOSTR_OK) {
+        unlock_subscriptions(ctx);
         free(sub);
         free(id);
         return err;
@@ -553,6 +640,7 @@ nostr_error_t nostr_subscribe(nostr_relay* relay, const char* subscription_id,
     sub->user_data = user_data;
     sub->next = ctx->subscriptions;
     ctx->subscriptions = sub;
+    unlock_subscriptions(ctx);
 
     return NOSTR_OK;
 }
@@ -571,15 +659,17 @@ nostr_error_t nostr_relay_set_message_callback(nostr_relay* relay, nostr_message
     
     if (relay->ws_handle) {
         relay_context* ctx = (relay_context*)relay->ws_handle;
+        lock_queue_mutex(ctx);
         ctx->message_callback = callback;
         ctx->message_user_data = user_data;
+        unlock_queue_mutex(ctx);
     }
     
     return NOSTR_OK;
 }
 
 nostr_error_t nostr_relay_unsubscribe(nostr_relay* relay, const char* subscription_id) {
-    if (!relay || !subscription_id || relay->state != NOSTR_RELAY_CONNECTED) {
+    if (!relay || !subscription_id || relay_state(relay) != NOSTR_RELAY_CONNECTED) {
         return NOSTR_ERR_INVALID_PARAM;
     }
 
@@ -588,7 +678,7 @@ nostr_error_t nostr_relay_unsubscribe(nostr_relay* relay, const char* subscripti
     }
 
     relay_context* ctx = (relay_context*)relay->ws_handle;
-    if (!ctx || !ctx->wsi) {
+    if (!ctx) {
         return NOSTR_ERR_CONNECTION;
     }
 
@@ -631,6 +721,20 @@ static bool append_received(relay_context* ctx, const void* in, size_t len) {
     return true;
 }
 
+static void deliver_message(relay_context* ctx, const char* msg_type, const cJSON* json) {
+    lock_queue_mutex(ctx);
+    nostr_message_callback callback = ctx->message_callback;
+    void* user_data = ctx->message_user_data;
+    unlock_queue_mutex(ctx);
+    if (!callback) return;
+
+    char* msg_str = cJSON_Print(json);
+    if (msg_str) {
+        callback(msg_type, msg_str, user_data);
+        free(msg_str);
+    }
+}
+
 static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reason,
                                void* user, void* in, size_t len) {
     nostr_relay* relay = (nostr_relay*)lws_get_opaque_user_data(wsi);
@@ -639,7 +743,9 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
     switch (reason) {
         case LWS_CALLBACK_CLIENT_ESTABLISHED:
             if (relay && ctx) {
+                lock_queue_mutex(ctx);
                 relay->state = NOSTR_RELAY_CONNECTED;
+                unlock_queue_mutex(ctx);
                 if (ctx->state_callback) {
                     ctx->state_callback(relay, NOSTR_RELAY_CONNECTED, ctx->user_data);
                 }
@@ -681,6 +787,7 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
                                     cJSON* sub_id = cJSON_GetArrayItem(json, 1);
                                     cJSON* event_json = cJSON_GetArrayItem(json, 2);
                                     if (cJSON_IsString(sub_id) && event_json) {
+                                        lock_subscriptions(ctx);
                                         subscription_t* sub = ctx->subscriptions;
                                         while (sub) {
                                             if (strcmp(sub->id, sub_id->valuestring) == 0) {
@@ -699,49 +806,22 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
                                             }
                                             sub = sub->next;
                                         }
+                                        unlock_subscriptions(ctx);
                                     }
                                 } else if (strcmp(msg_type, "OK") == 0 && array_size >= 4) {
-                                    if (ctx->message_callback) {
-                                        char* msg_str = cJSON_Print(json);
-                                        if (msg_str) {
-                                            ctx->message_callback(msg_type, msg_str, ctx->message_user_data);
-                                            free(msg_str);
-                                        }
-                                    }
+                                    deliver_message(ctx, msg_type, json);
                                 } else if (strcmp(msg_type, "EOSE") == 0 && array_size >= 2) {
-                                    if (ctx->message_callback) {
-                                        char* msg_str = cJSON_Print(json);
-                                        if (msg_str) {
-                                            ctx->message_callback(msg_type, msg_str, ctx->message_user_data);
-                                            free(msg_str);
-                                        }
-                                    }
+                                    deliver_message(ctx, msg_type, json);
                                 } else if (strcmp(msg_type, "CLOSED") == 0 && array_size >= 3) {
                                     cJSON* sub_id = cJSON_GetArrayItem(json, 1);
                                     if (cJSON_IsString(sub_id)) {
                                         remove_subscription(ctx, sub_id->valuestring);
                                     }
-                                    if (ctx->message_callback) {
-                                        char* msg_str = cJSON_Print(json);
-                                        if (msg_str) {
-                                            ctx->message_callback(msg_type, msg_str, ctx->message_user_data);
-                                            free(msg_str);
-                                        }
-                                    }
+                                    deliver_message(ctx, msg_type, json);
                                 } else if (strcmp(msg_type, "NOTICE") == 0 && array_size >= 2) {
-                                    if (ctx->message_callback) {
-                                        char* msg_str = cJSON_Print(json);
-                                        if (msg_str) {
-                                            ctx->message_callback(msg_type, msg_str, ctx->message_user_data);
-                                            free(msg_str);
-                                        }
-                                    }
-                                } else if (ctx->message_callback) {
-                                    char* msg_str = cJSON_Print(json);
-                                    if (msg_str) {
-                                        ctx->message_callback(msg_type, msg_str, ctx->message_user_data);
-                                        free(msg_str);
-                                    }
+                                    deliver_message(ctx, msg_type, json);
+                                } else {
+                                    deliver_message(ctx, msg_type, json);
                                 }
                             }
                         }
@@ -758,8 +838,10 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
         case LWS_CALLBACK_CLIENT_CONNECTION_ERROR:
         case LWS_CALLBACK_CLIENT_CLOSED:
             if (relay && ctx) {
+                lock_queue_mutex(ctx);
                 ctx->wsi = NULL;
                 relay->state = NOSTR_RELAY_DISCONNECTED;
+                unlock_queue_mutex(ctx);
                 if (ctx->state_callback) {
                     ctx->state_callback(relay, NOSTR_RELAY_DISCONNECTED, ctx->user_data);
                 }
-- 
2.43.0


From 19a825280d748645589def4040865a5ad1975560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:09 +0000
Subject: [PATCH 54/92] fix: the connecting state is reported before what
 follows it

---
 src/relay.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/relay.c b/src/relay.c
index 61d8b12..9614da2 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -60,6 +60,7 @@ typedef struct {
     char* data;
     size_t len;
     struct lws_context* context;
+    nostr_relay* relay;
     struct lws* wsi;
     nostr_relay_callback state_callback;
     void* user_data;
@@ -203,6 +204,9 @@ static void* service_thread_func(void* arg) {
 #endif
     ctx->service_self_known = true;
     unlock_queue_mutex(ctx);
+    if (service_wanted(ctx)) {
+        ctx->state_callback(ctx->relay, NOSTR_RELAY_CONNECTING, ctx->user_data);
+    }
     while (service_wanted(ctx)) {
         lws_service(context, 50);
     }
@@ -380,6 +384,7 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
     }
     
     ctx->context = context;
+    ctx->relay = relay;
     ctx->state_callback = callback;
     ctx->user_data = user_data;
     ctx->subscriptions = NULL;
@@ -440,12 +445,10 @@ nostr_error_t nostr_relay_connect(nostr_relay* relay, nostr_relay_callback callb
     }
 #endif
     ctx->service_thread_created = true;
+#else
+    callback(relay, NOSTR_RELAY_CONNECTING, user_data);
 #endif
 
-    if (callback) {
-        callback(relay, NOSTR_RELAY_CONNECTING, user_data);
-    }
-
     return NOSTR_OK;
 }
 
-- 
2.43.0


From 5abb6079dfd20befd4e404ec4153f67011d892e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:18 +0000
Subject: [PATCH 55/92] fix: deliver the event the relay sent, not a reprint of
 it

---
 src/relay.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/relay.c b/src/relay.c
index 9614da2..f7ba5ee 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -10,6 +10,7 @@
 #endif
 #endif
 #include <cjson/cJSON.h>
+#include "json_internal.h"
 
 static int validate_subscription_id(const char* id)
 {
@@ -724,6 +725,28 @@ static bool append_received(relay_context* ctx, const void* in, size_t len) {
     return true;
 }
 
+/* The text of one element of a well-formed array, as it was received. */
+static char* array_element_text(const char* array, int index) {
+    const char* start = array + 1;
+    for (;; index--) {
+        const char* end = NULL;
+        cJSON* item = cJSON_ParseWithOpts(start, &end, false);
+        if (!item) return NULL;
+        cJSON_Delete(item);
+        if (index == 0) {
+            size_t len = (size_t)(end - start);
+            char* text = malloc(len + 1);
+            if (!text) return NULL;
+            memcpy(text, start, len);
+            text[len] = '\0';
+            return text;
+        }
+        start = strchr(end, ',');
+        if (!start) return NULL;
+        start++;
+    }
+}
+
 static void deliver_message(relay_context* ctx, const char* msg_type, const cJSON* json) {
     lock_queue_mutex(ctx);
     nostr_message_callback callback = ctx->message_callback;
@@ -778,7 +801,7 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
                     char saved = *end;
                     *end = '\0';
 
-                    cJSON* json = cJSON_Parse(start);
+                    cJSON* json = json_parse_strict(start, (size_t)(end - start));
                     if (json && cJSON_IsArray(json)) {
                         int array_size = cJSON_GetArraySize(json);
                         if (array_size >= 2) {
@@ -794,7 +817,7 @@ static int callback_nostr_relay(struct lws* wsi, enum lws_callback_reasons reaso
                                         subscription_t* sub = ctx->subscriptions;
                                         while (sub) {
                                             if (strcmp(sub->id, sub_id->valuestring) == 0) {
-                                                char* event_str = cJSON_Print(event_json);
+                                                char* event_str = array_element_text(start, 2);
                                                 if (event_str) {
                                                     nostr_event* event;
                                                     if (nostr_event_from_json(event_str, &event) == NOSTR_OK) {
-- 
2.43.0


From 2efb19b7985c153784ebb1ec30a298b8b1f30641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:46 +0000
Subject: [PATCH 56/92] fix: set the message callback under the relay lock

---
 src/relay.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/relay.c b/src/relay.c
index f7ba5ee..214d05c 100644
--- a/src/relay.c
+++ b/src/relay.c
@@ -658,12 +658,11 @@ nostr_error_t nostr_relay_set_message_callback(nostr_relay* relay, nostr_message
         return NOSTR_ERR_INVALID_PARAM;
     }
     
+    relay_context* ctx = (relay_context*)relay->ws_handle;
+    if (ctx) lock_queue_mutex(ctx);
     relay->message_callback = callback;
     relay->message_user_data = user_data;
-    
-    if (relay->ws_handle) {
-        relay_context* ctx = (relay_context*)relay->ws_handle;
-        lock_queue_mutex(ctx);
+    if (ctx) {
         ctx->message_callback = callback;
         ctx->message_user_data = user_data;
         unlock_queue_mutex(ctx);
-- 
2.43.0


From 1644df35049aada95f051f32323f039443099998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:30 +0000
Subject: [PATCH 57/92] fix: report a failed SHA-256 instead of using an
 undefined digest

---
 src/event.c  | 14 +++++++++-----
 src/hd_key.c | 10 ++++++++--
 src/nip26.c  |  9 +++++----
 3 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/event.c b/src/event.c
index 8e2a2b5..be79fb1 100644
--- a/src/event.c
+++ b/src/event.c
@@ -35,11 +35,12 @@ extern secp256k1_context* secp256k1_ctx;
 extern nostr_error_t nostr_init(void);
 extern int nostr_random_bytes(uint8_t *buf, size_t len);
 
-static void event_sha256(const uint8_t *data, size_t len, uint8_t *hash) {
+static int event_sha256(const uint8_t *data, size_t len, uint8_t *hash) {
 #ifdef HAVE_MBEDTLS
     mbedtls_sha256(data, len, hash, 0);
+    return 1;
 #else
-    SHA256(data, len, hash);
+    return SHA256(data, len, hash) != NULL;
 #endif
 }
 
@@ -352,10 +353,13 @@ nostr_error_t nostr_event_compute_id(nostr_event* event)
     }
 
     unsigned char hash[32];
-    event_sha256((unsigned char*)serialized, strlen(serialized), hash);
-    memcpy(event->id, hash, NOSTR_ID_SIZE);
-
+    int hashed = event_sha256((unsigned char*)serialized, strlen(serialized), hash);
     free(serialized);
+    if (!hashed) {
+        return NOSTR_ERR_MEMORY;
+    }
+
+    memcpy(event->id, hash, NOSTR_ID_SIZE);
     return NOSTR_OK;
 }
 
diff --git a/src/hd_key.c b/src/hd_key.c
index befc078..eb804a9 100644
--- a/src/hd_key.c
+++ b/src/hd_key.c
@@ -352,7 +352,10 @@ nostr_error_t nostr_mnemonic_generate(int word_count, char* mnemonic, size_t mne
         return NOSTR_ERR_MEMORY;
     }
 
-    SHA256(entropy, entropy_bytes, hash);
+    if (!SHA256(entropy, entropy_bytes, hash)) {
+        secure_wipe(entropy, sizeof(entropy));
+        return NOSTR_ERR_MEMORY;
+    }
 
     memcpy(combined, entropy, entropy_bytes);
     combined[entropy_bytes] = hash[0];
@@ -464,7 +467,10 @@ nostr_error_t nostr_mnemonic_validate(const char* mnemonic)
     }
 
     uint8_t hash[SHA256_DIGEST_LENGTH];
-    SHA256(entropy, entropy_bytes, hash);
+    if (!SHA256(entropy, entropy_bytes, hash)) {
+        secure_wipe(entropy, sizeof(entropy));
+        return NOSTR_ERR_MEMORY;
+    }
 
     uint8_t checksum_mask = (1 << checksum_bits) - 1;
     uint8_t expected_checksum = (hash[0] >> (8 - checksum_bits)) & checksum_mask;
diff --git a/src/nip26.c b/src/nip26.c
index ed3ad66..e1c8993 100644
--- a/src/nip26.c
+++ b/src/nip26.c
@@ -30,12 +30,13 @@ extern secp256k1_context* secp256k1_ctx;
 extern nostr_error_t nostr_init(void);
 extern int nostr_random_bytes(uint8_t *buf, size_t len);
 
-static void nip26_sha256(const uint8_t *data, size_t len, uint8_t *hash)
+static int nip26_sha256(const uint8_t *data, size_t len, uint8_t *hash)
 {
 #ifdef HAVE_MBEDTLS
     mbedtls_sha256(data, len, hash, 0);
+    return 1;
 #else
-    SHA256(data, len, hash);
+    return SHA256(data, len, hash) != NULL;
 #endif
 }
 
@@ -185,10 +186,10 @@ static nostr_error_t build_delegation_hash(const nostr_key *delegatee_pubkey,
     snprintf(delegation_string, delegation_str_len, "nostr:delegation:%s:%s",
              delegatee_hex, conditions);
 
-    nip26_sha256((const uint8_t *)delegation_string, strlen(delegation_string), hash);
+    int hashed = nip26_sha256((const uint8_t *)delegation_string, strlen(delegation_string), hash);
     free(delegation_string);
 
-    return NOSTR_OK;
+    return hashed ? NOSTR_OK : NOSTR_ERR_MEMORY;
 }
 
 nostr_error_t nostr_delegation_create(const nostr_privkey *delegator_privkey,
-- 
2.43.0


From ea0244419633e4b5d7e179345122f90abb403431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:30 +0000
Subject: [PATCH 58/92] fix: do not mistake a failed allocation for an invalid
 reference

---
 src/bech32.c | 32 ++++++++++----------------------
 src/nip18.c  |  2 ++
 src/nip21.c  |  8 ++++++--
 3 files changed, 18 insertions(+), 24 deletions(-)

diff --git a/src/bech32.c b/src/bech32.c
index fd34dc0..8493871 100644
--- a/src/bech32.c
+++ b/src/bech32.c
@@ -11,8 +11,7 @@ const char BECH32_CHARSET[33] = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
 
 const uint32_t BECH32_GENERATOR[5] = {0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3};
 
-uint32_t bech32_polymod(const uint8_t* values, size_t len) {
-    uint32_t chk = 1;
+static uint32_t bech32_polymod_update(uint32_t chk, const uint8_t* values, size_t len) {
     for (size_t i = 0; i < len; i++) {
         uint32_t top = chk >> 25;
         chk = ((chk & 0x1ffffff) << 5) ^ values[i];
@@ -23,6 +22,10 @@ uint32_t bech32_polymod(const uint8_t* values, size_t len) {
     return chk;
 }
 
+uint32_t bech32_polymod(const uint8_t* values, size_t len) {
+    return bech32_polymod_update(1, values, len);
+}
+
 int bech32_hrp_expand(const char* hrp, uint8_t* ret, size_t ret_size) {
     size_t hrp_len = strlen(hrp);
     if (hrp_len > (SIZE_MAX - 1) / 2) return -1;
@@ -44,16 +47,7 @@ int bech32_verify_checksum(const char* hrp, const uint8_t* data, size_t data_len
     int hrp_len = bech32_hrp_expand(hrp, hrp_expanded, sizeof(hrp_expanded));
     if (hrp_len < 0) return 0;
 
-    if ((size_t)hrp_len > SIZE_MAX - data_len) return 0;
-    uint8_t* combined = malloc((size_t)hrp_len + data_len);
-    if (!combined) return 0;
-
-    memcpy(combined, hrp_expanded, hrp_len);
-    memcpy(combined + hrp_len, data, data_len);
-
-    int result = bech32_polymod(combined, (size_t)hrp_len + data_len) == 1;
-    free(combined);
-    return result;
+    return bech32_polymod_update(bech32_polymod(hrp_expanded, (size_t)hrp_len), data, data_len) == 1;
 }
 
 int bech32_create_checksum(const char* hrp, const uint8_t* data, size_t data_len, uint8_t* checksum) {
@@ -61,19 +55,13 @@ int bech32_create_checksum(const char* hrp, const uint8_t* data, size_t data_len
     int hrp_len = bech32_hrp_expand(hrp, hrp_expanded, sizeof(hrp_expanded));
     if (hrp_len < 0) return 0;
 
-    if ((size_t)hrp_len > SIZE_MAX - data_len - 6) return 0;
-    uint8_t* combined = malloc((size_t)hrp_len + data_len + 6);
-    if (!combined) return 0;
-
-    memcpy(combined, hrp_expanded, hrp_len);
-    memcpy(combined + hrp_len, data, data_len);
-    memset(combined + hrp_len + data_len, 0, 6);
-
-    uint32_t polymod = bech32_polymod(combined, (size_t)hrp_len + data_len + 6) ^ 1;
+    static const uint8_t zeros[6] = {0};
+    uint32_t polymod = bech32_polymod(hrp_expanded, (size_t)hrp_len);
+    polymod = bech32_polymod_update(polymod, data, data_len);
+    polymod = bech32_polymod_update(polymod, zeros, sizeof(zeros)) ^ 1;
     for (int i = 0; i < 6; i++) {
         checksum[i] = (polymod >> (5 * (5 - i))) & 31;
     }
-    free(combined);
     return 6;
 }
 
diff --git a/src/nip18.c b/src/nip18.c
index fb62dc1..b81b2e5 100644
--- a/src/nip18.c
+++ b/src/nip18.c
@@ -215,6 +215,8 @@ nostr_error_t nostr_quote_tags_from_content(nostr_event* event)
         nostr_error_t err = nostr_uri_parse(uri, &parsed);
         free(uri);
 
+        if (err == NOSTR_ERR_MEMORY)
+            return err;
         if (err != NOSTR_OK) {
             pos++;
             continue;
diff --git a/src/nip21.c b/src/nip21.c
index 52b90ef..6b506d6 100644
--- a/src/nip21.c
+++ b/src/nip21.c
@@ -120,6 +120,7 @@ static nostr_error_t parse_tlv(const uint8_t* data, size_t data_len,
                                uint8_t* author, int* has_author,
                                uint32_t* kind, int* has_kind) {
     size_t pos = 0;
+    nostr_error_t err = NOSTR_ERR_ENCODING;
     *relay_count = 0;
     if (has_author) *has_author = 0;
     if (has_kind) *has_kind = 0;
@@ -144,7 +145,10 @@ static nostr_error_t parse_tlv(const uint8_t* data, size_t data_len,
                         break;
                     }
                     relays[*relay_count] = malloc(len + 1);
-                    if (!relays[*relay_count]) goto cleanup_error;
+                    if (!relays[*relay_count]) {
+                        err = NOSTR_ERR_MEMORY;
+                        goto cleanup_error;
+                    }
                     memcpy(relays[*relay_count], data + pos, len);
                     relays[*relay_count][len] = '\0';
                     (*relay_count)++;
@@ -181,7 +185,7 @@ cleanup_error:
         }
         *relay_count = 0;
     }
-    return NOSTR_ERR_ENCODING;
+    return err;
 }
 
 static size_t build_tlv(uint8_t* out, size_t out_size,
-- 
2.43.0


From 33d9c19a2c2a32f0f2cbaf7f3e3cc55a3a5a7678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:25 +0000
Subject: [PATCH 59/92] fix: pad NIP-44 plaintexts in steps of the next power
 of two

---
 src/nip44.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nip44.c b/src/nip44.c
index 40ff0d3..6ca4cd5 100644
--- a/src/nip44.c
+++ b/src/nip44.c
@@ -42,13 +42,12 @@ static uint32_t calc_padded_len(uint32_t unpadded_len)
     }
     
     next_power = 1;
-    while (next_power <= unpadded_len) {
+    while (next_power < unpadded_len) {
         if (next_power > (UINT32_MAX >> 1)) {
             return 0;
         }
         next_power <<= 1;
     }
-    next_power >>= 1;
     
     if (next_power <= 256) {
         chunk = 32;
-- 
2.43.0


From 4e38eb9f6b2db4eb0e65224bb8ce3942372b84be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:25 +0000
Subject: [PATCH 60/92] fix: accept every NIP-44 payload size up to 65603 bytes

---
 src/nip44.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nip44.c b/src/nip44.c
index 6ca4cd5..9f3965a 100644
--- a/src/nip44.c
+++ b/src/nip44.c
@@ -396,7 +396,7 @@ nostr_error_t nostr_nip44_decrypt(const nostr_privkey* recipient_privkey, const
         return NOSTR_ERR_INVALID_PARAM;
     }
 
-    if (payload_len < 97 || payload_len > 65600) {
+    if (payload_len < 99 || payload_len > 65603) {
         free(payload);
         return NOSTR_ERR_INVALID_PARAM;
     }
-- 
2.43.0


From 3de0f205a3d24e5ffa4b0ef0249cbe189b23e4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:09 +0000
Subject: [PATCH 61/92] fix: decode only well-formed base64 in encrypted
 payloads

---
 src/nip44.c | 82 +++++++++++++++++++++++------------------------------
 1 file changed, 35 insertions(+), 47 deletions(-)

diff --git a/src/nip44.c b/src/nip44.c
index 9f3965a..952d210 100644
--- a/src/nip44.c
+++ b/src/nip44.c
@@ -2,6 +2,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <stdint.h>
+#include <limits.h>
 
 #ifdef NOSTR_FEATURE_CRYPTO_NOSCRYPT
 #include <noscrypt.h>
@@ -145,26 +146,6 @@ static int base64_encode(const uint8_t* input, size_t input_len, char** output)
     (*output)[olen] = '\0';
     return 0;
 }
-
-static int base64_decode(const char* input, uint8_t** output, size_t* output_len)
-{
-    size_t input_len = strlen(input);
-    size_t olen = 0;
-
-    mbedtls_base64_decode(NULL, 0, &olen, (const unsigned char*)input, input_len);
-
-    *output = malloc(olen);
-    if (!*output) {
-        return -1;
-    }
-
-    if (mbedtls_base64_decode(*output, olen, output_len, (const unsigned char*)input, input_len) != 0) {
-        free(*output);
-        return -1;
-    }
-
-    return 0;
-}
 #else
 static int base64_encode(const uint8_t* input, size_t input_len, char** output)
 {
@@ -195,54 +176,61 @@ static int base64_encode(const uint8_t* input, size_t input_len, char** output)
 }
 #endif
 
-#if !defined(HAVE_MBEDTLS) && defined(ESP_PLATFORM)
-static int base64_decode(const char* input, uint8_t** output, size_t* output_len)
+/* Padded base64 and nothing else (RFC 4648): the backends skip or stop at some characters. Returns the decoded size, 0 if malformed. */
+static size_t base64_decoded_len(const char* input, size_t input_len)
 {
-    size_t input_len = strlen(input);
-    size_t olen = 0;
+    size_t padding = 0;
 
-    mbedtls_base64_decode(NULL, 0, &olen, (const unsigned char*)input, input_len);
+    if (input_len == 0 || input_len % 4 != 0) {
+        return 0;
+    }
 
-    *output = malloc(olen);
-    if (!*output) {
-        return -1;
+    if (input[input_len - 1] == '=') {
+        padding = input[input_len - 2] == '=' ? 2 : 1;
     }
 
-    if (mbedtls_base64_decode(*output, olen, output_len, (const unsigned char*)input, input_len) != 0) {
-        free(*output);
-        return -1;
+    for (size_t i = 0; i < input_len - padding; i++) {
+        char c = input[i];
+        if (!((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '+' || c == '/')) {
+            return 0;
+        }
     }
 
-    return 0;
+    return input_len / 4 * 3 - padding;
 }
-#elif !defined(HAVE_MBEDTLS)
+
 static int base64_decode(const char* input, uint8_t** output, size_t* output_len)
 {
-    BIO* b64 = NULL;
-    BIO* bmem = NULL;
     size_t input_len = strlen(input);
+    size_t decoded_len = base64_decoded_len(input, input_len);
 
-    *output = malloc(input_len);
-    if (!*output) {
+    if (decoded_len == 0 || input_len > INT_MAX) {
         return -1;
     }
 
-    bmem = BIO_new_mem_buf(input, input_len);
-    b64 = BIO_new(BIO_f_base64());
-    bmem = BIO_push(b64, bmem);
-    BIO_set_flags(bmem, BIO_FLAGS_BASE64_NO_NL);
-
-    *output_len = BIO_read(bmem, *output, input_len);
-    BIO_free_all(bmem);
+    uint8_t* decoded = malloc(input_len / 4 * 3);
+    if (!decoded) {
+        return -1;
+    }
 
-    if (*output_len <= 0) {
-        free(*output);
+#ifdef HAVE_MBEDTLS
+    size_t olen = 0;
+    if (mbedtls_base64_decode(decoded, input_len / 4 * 3, &olen, (const unsigned char*)input, input_len) != 0 ||
+        olen != decoded_len) {
+        free(decoded);
         return -1;
     }
+#else
+    if (EVP_DecodeBlock(decoded, (const unsigned char*)input, (int)input_len) < 0) {
+        free(decoded);
+        return -1;
+    }
+#endif
 
+    *output = decoded;
+    *output_len = decoded_len;
     return 0;
 }
-#endif
 
 nostr_error_t nostr_nip44_encrypt(const nostr_privkey* sender_privkey, const nostr_key* recipient_pubkey, 
                                   const char* plaintext, size_t plaintext_len, char** ciphertext)
-- 
2.43.0


From 7106485681f041843b957d418bb9ec085b944be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:17 +0000
Subject: [PATCH 62/92] fix: encode payloads without unchecked BIO allocations

---
 src/nip44.c | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/src/nip44.c b/src/nip44.c
index 952d210..4fce4fc 100644
--- a/src/nip44.c
+++ b/src/nip44.c
@@ -149,29 +149,16 @@ static int base64_encode(const uint8_t* input, size_t input_len, char** output)
 #else
 static int base64_encode(const uint8_t* input, size_t input_len, char** output)
 {
-    BIO* bmem = NULL;
-    BIO* b64 = NULL;
-    BUF_MEM* bptr = NULL;
-
-    b64 = BIO_new(BIO_f_base64());
-    bmem = BIO_new(BIO_s_mem());
-    b64 = BIO_push(b64, bmem);
-    BIO_set_flags(b64, BIO_FLAGS_BASE64_NO_NL);
-
-    BIO_write(b64, input, input_len);
-    BIO_flush(b64);
-    BIO_get_mem_ptr(b64, &bptr);
+    if (input_len > INT_MAX / 2) {
+        return -1;
+    }
 
-    *output = malloc(bptr->length + 1);
+    *output = malloc((input_len + 2) / 3 * 4 + 1);
     if (!*output) {
-        BIO_free_all(b64);
         return -1;
     }
 
-    memcpy(*output, bptr->data, bptr->length);
-    (*output)[bptr->length] = '\0';
-
-    BIO_free_all(b64);
+    EVP_EncodeBlock((unsigned char*)*output, input, (int)input_len);
     return 0;
 }
 #endif
-- 
2.43.0


From 9372f514b41eebf13cc835d0a7a5e77bd29a3951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:20 +0000
Subject: [PATCH 63/92] fix: report NIP-18 and NIP-26 as supported where they
 are

---
 src/features.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/features.c b/src/features.c
index 1113c2c..651bee2 100644
--- a/src/features.c
+++ b/src/features.c
@@ -25,10 +25,18 @@ int nostr_feature_nip_supported(int nip_number)
         case 17:
             return 1;
 #endif
+#ifdef NOSTR_FEATURE_NIP18
+        case 18:
+            return 1;
+#endif
 #ifdef NOSTR_FEATURE_NIP25
         case 25:
             return 1;
 #endif
+#ifdef NOSTR_FEATURE_NIP26
+        case 26:
+            return 1;
+#endif
 #ifdef NOSTR_FEATURE_NIP44
         case 44:
             return 1;
@@ -135,9 +143,15 @@ const char* nostr_feature_list_enabled(void)
 #ifdef NOSTR_FEATURE_NIP17
         APPEND_FEATURE(",nip17");
 #endif
+#ifdef NOSTR_FEATURE_NIP18
+        APPEND_FEATURE(",nip18");
+#endif
 #ifdef NOSTR_FEATURE_NIP25
         APPEND_FEATURE(",nip25");
 #endif
+#ifdef NOSTR_FEATURE_NIP26
+        APPEND_FEATURE(",nip26");
+#endif
 #ifdef NOSTR_FEATURE_NIP44
         APPEND_FEATURE(",nip44");
 #endif
-- 
2.43.0


From 383979c32211638ce66601e707afcef47b06b75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:20 +0000
Subject: [PATCH 64/92] fix: make the feature list a constant

---
 src/features.c | 67 ++++++++++++++++++--------------------------------
 1 file changed, 24 insertions(+), 43 deletions(-)

diff --git a/src/features.c b/src/features.c
index 651bee2..8d430f1 100644
--- a/src/features.c
+++ b/src/features.c
@@ -1,6 +1,4 @@
 #include "nostr_features.h"
-#include <string.h>
-#include <stdio.h>
 
 int nostr_feature_nip_supported(int nip_number)
 {
@@ -112,91 +110,74 @@ int nostr_feature_relay_protocol_available(void)
 
 const char* nostr_feature_list_enabled(void)
 {
-    static char feature_list[512];
-    static int initialized = 0;
-
-    if (!initialized) {
-        size_t pos = 0;
-        size_t remaining = sizeof(feature_list);
-
-#define APPEND_FEATURE(str) do { \
-    int n = snprintf(feature_list + pos, remaining, str); \
-    if (n > 0 && (size_t)n < remaining) { pos += n; remaining -= n; } \
-} while(0)
-
-        APPEND_FEATURE("std,events,keys");
+    static const char feature_list[] = "std,events,keys"
 #ifdef NOSTR_FEATURE_ENCODING
-        APPEND_FEATURE(",encoding");
+        ",encoding"
 #endif
 #ifdef NOSTR_FEATURE_NIP04
-        APPEND_FEATURE(",nip04");
+        ",nip04"
 #endif
 #ifdef NOSTR_FEATURE_NIP05
-        APPEND_FEATURE(",nip05");
+        ",nip05"
 #endif
 #ifdef NOSTR_FEATURE_NIP10
-        APPEND_FEATURE(",nip10");
+        ",nip10"
 #endif
 #ifdef NOSTR_FEATURE_NIP13
-        APPEND_FEATURE(",nip13");
+        ",nip13"
 #endif
 #ifdef NOSTR_FEATURE_NIP17
-        APPEND_FEATURE(",nip17");
+        ",nip17"
 #endif
 #ifdef NOSTR_FEATURE_NIP18
-        APPEND_FEATURE(",nip18");
+        ",nip18"
 #endif
 #ifdef NOSTR_FEATURE_NIP25
-        APPEND_FEATURE(",nip25");
+        ",nip25"
 #endif
 #ifdef NOSTR_FEATURE_NIP26
-        APPEND_FEATURE(",nip26");
+        ",nip26"
 #endif
 #ifdef NOSTR_FEATURE_NIP44
-        APPEND_FEATURE(",nip44");
+        ",nip44"
 #endif
 #ifdef NOSTR_FEATURE_NIP46
-        APPEND_FEATURE(",nip46");
+        ",nip46"
 #endif
 #ifdef NOSTR_FEATURE_NIP47
-        APPEND_FEATURE(",nip47");
+        ",nip47"
 #endif
 #ifdef NOSTR_FEATURE_NIP49
-        APPEND_FEATURE(",nip49");
+        ",nip49"
 #endif
 #ifdef NOSTR_FEATURE_NIP51
-        APPEND_FEATURE(",nip51");
+        ",nip51"
 #endif
 #ifdef NOSTR_FEATURE_NIP57
-        APPEND_FEATURE(",nip57");
+        ",nip57"
 #endif
 #ifdef NOSTR_FEATURE_NIP59
-        APPEND_FEATURE(",nip59");
+        ",nip59"
 #endif
 #ifdef NOSTR_FEATURE_NIP65
-        APPEND_FEATURE(",nip65");
+        ",nip65"
 #endif
 #ifdef NOSTR_FEATURE_RELAY
-        APPEND_FEATURE(",relay");
+        ",relay"
 #endif
 #ifdef NOSTR_FEATURE_RELAY_PROTOCOL
-        APPEND_FEATURE(",relay-protocol");
+        ",relay-protocol"
 #endif
 #ifdef NOSTR_FEATURE_HD_KEYS
-        APPEND_FEATURE(",hd-keys");
+        ",hd-keys"
 #endif
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
-        APPEND_FEATURE(",json-enhanced");
+        ",json-enhanced"
 #endif
 #ifdef NOSTR_FEATURE_THREADING
-        APPEND_FEATURE(",threading");
+        ",threading"
 #endif
-#undef APPEND_FEATURE
-
-        (void)pos;
-        (void)remaining;
-        initialized = 1;
-    }
+        ;
 
     return feature_list;
 }
-- 
2.43.0


From 7ebaa88f402167b2ca8758429d1d922c402896ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:20 +0000
Subject: [PATCH 65/92] fix: describe every error code

---
 src/key.c            | 1 +
 src/relay_protocol.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/key.c b/src/key.c
index 1b0f880..746b5ee 100644
--- a/src/key.c
+++ b/src/key.c
@@ -728,6 +728,7 @@ const char* nostr_error_string(nostr_error_t error)
         case NOSTR_ERR_NOT_FOUND: return "Not found";
         case NOSTR_ERR_TIMEOUT: return "Timeout";
         case NOSTR_ERR_INVALID_PARAM: return "Invalid parameter";
+        case NOSTR_ERR_NOT_SUPPORTED: return "Feature not supported";
         default: return "Unknown error";
     }
 }
\ No newline at end of file
diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index a7cb6e7..4290b2f 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -36,6 +36,7 @@ const char* nostr_relay_error_string(nostr_relay_error_t error)
         case NOSTR_RELAY_ERR_BUFFER_TOO_SMALL: return "buffer too small";
         case NOSTR_RELAY_ERR_MEMORY: return "memory allocation failed";
         case NOSTR_RELAY_ERR_UNKNOWN_MESSAGE_TYPE: return "unknown message type";
+        case NOSTR_RELAY_ERR_STORAGE: return "storage error";
         default: return "unknown error";
     }
 }
-- 
2.43.0


From 064a9b5dd782415c66854d81134b3729e730999a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:20 +0000
Subject: [PATCH 66/92] fix: report the released version

---
 src/relay_protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index 4290b2f..7605c09 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -998,5 +998,5 @@ void nostr_free_strings(char** strings, size_t count)
 
 const char* nostr_version(void)
 {
-    return "0.1.1";
+    return "0.2.1";
 }
-- 
2.43.0


From ed9651ddbe7dba6b4f37761c86464d16b8a29f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:45 +0000
Subject: [PATCH 67/92] fix: give a direct message the id of what it says

---
 src/nip17.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nip17.c b/src/nip17.c
index f6c9d75..84e53ea 100644
--- a/src/nip17.c
+++ b/src/nip17.c
@@ -379,6 +379,13 @@ nostr_error_t nostr_nip17_send_dm(nostr_event** dm, const char* content,
         }
     }
     
+    /* The tags are part of the id */
+    err = nostr_event_compute_id(rumor);
+    if (err != NOSTR_OK) {
+        nostr_event_destroy(rumor);
+        return err;
+    }
+    
     err = nostr_nip17_create_seal(&seal, rumor, sender_privkey, recipient_pubkey);
     nostr_event_destroy(rumor);
     if (err != NOSTR_OK) {
-- 
2.43.0


From 2719baef9a6f2a6548e27681e00f772f9c30718d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:45 +0000
Subject: [PATCH 68/92] fix: do not gift-wrap with the exact time when
 randomness fails

---
 src/nip59.c | 43 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/src/nip59.c b/src/nip59.c
index b78e3fc..d860451 100644
--- a/src/nip59.c
+++ b/src/nip59.c
@@ -6,6 +6,7 @@
 #include <string.h>
 #include <time.h>
 #include <openssl/rand.h>
+#include <openssl/err.h>
 
 #ifdef NOSTR_FEATURE_CRYPTO_NOSCRYPT
 #include <noscrypt.h>
@@ -22,16 +23,19 @@ extern secp256k1_context* secp256k1_ctx;
 
 extern nostr_error_t nostr_init(void);
 
-static int64_t randomize_timestamp(int64_t base_time)
+/* Fails closed, as in nip17.c: an exact timestamp is what this has to hide */
+static nostr_error_t randomize_timestamp(int64_t base_time, int64_t* out)
 {
     uint32_t random_offset;
     
     if (RAND_bytes((unsigned char*)&random_offset, sizeof(random_offset)) != 1) {
-        return base_time;
+        ERR_clear_error();
+        return NOSTR_ERR_MEMORY;
     }
     
     random_offset %= TWO_DAYS_SECONDS;
-    return base_time - random_offset;
+    *out = base_time - random_offset;
+    return NOSTR_OK;
 }
 
 nostr_error_t nostr_nip59_wrap_event(nostr_event** gift_wrap, const nostr_event* event_to_wrap,
@@ -66,7 +70,12 @@ nostr_error_t nostr_nip59_wrap_event(nostr_event** gift_wrap, const nostr_event*
     }
     
     seal->kind = KIND_SEAL;
-    seal->created_at = randomize_timestamp(time(NULL));
+    err = randomize_timestamp(time(NULL), &seal->created_at);
+    if (err != NOSTR_OK) {
+        nostr_event_destroy(seal);
+        free(event_json);
+        return err;
+    }
     
     /* Derive author's pubkey from privkey */
 #ifdef NOSTR_FEATURE_CRYPTO_NOSCRYPT
@@ -168,7 +177,14 @@ nostr_error_t nostr_nip59_wrap_event(nostr_event** gift_wrap, const nostr_event*
     }
     
     (*gift_wrap)->kind = KIND_GIFT_WRAP;
-    (*gift_wrap)->created_at = randomize_timestamp(time(NULL));
+    err = randomize_timestamp(time(NULL), &(*gift_wrap)->created_at);
+    if (err != NOSTR_OK) {
+        nostr_event_destroy(*gift_wrap);
+        free(encrypted_seal);
+        secure_wipe(&ephemeral_privkey, sizeof(ephemeral_privkey));
+        *gift_wrap = NULL;
+        return err;
+    }
     memcpy(&(*gift_wrap)->pubkey, &ephemeral_pubkey, sizeof(nostr_key));
     
     err = nostr_event_set_content(*gift_wrap, encrypted_seal);
@@ -357,7 +373,13 @@ nostr_error_t nostr_nip59_create_seal(nostr_event** seal, const nostr_event* rum
     }
     
     (*seal)->kind = KIND_SEAL;
-    (*seal)->created_at = randomize_timestamp(time(NULL));
+    err = randomize_timestamp(time(NULL), &(*seal)->created_at);
+    if (err != NOSTR_OK) {
+        nostr_event_destroy(*seal);
+        free(encrypted_rumor);
+        *seal = NULL;
+        return err;
+    }
     
     /* Derive author pubkey from privkey */
 #ifdef NOSTR_FEATURE_CRYPTO_NOSCRYPT
@@ -473,7 +495,14 @@ nostr_error_t nostr_nip59_create_gift_wrap(nostr_event** gift_wrap, const nostr_
     }
     
     (*gift_wrap)->kind = KIND_GIFT_WRAP;
-    (*gift_wrap)->created_at = randomize_timestamp(time(NULL));
+    err = randomize_timestamp(time(NULL), &(*gift_wrap)->created_at);
+    if (err != NOSTR_OK) {
+        nostr_event_destroy(*gift_wrap);
+        free(encrypted_seal);
+        secure_wipe(&ephemeral_privkey, sizeof(ephemeral_privkey));
+        *gift_wrap = NULL;
+        return err;
+    }
     memcpy(&(*gift_wrap)->pubkey, &ephemeral_pubkey, sizeof(nostr_key));
     
     err = nostr_event_set_content(*gift_wrap, encrypted_seal);
-- 
2.43.0


From e2b810cd0b91aad4175df49e63271553cf4c1a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:27 +0000
Subject: [PATCH 69/92] fix: refuse gift-wrapped events that claim another
 author

---
 src/nip59.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/nip59.c b/src/nip59.c
index d860451..0552d41 100644
--- a/src/nip59.c
+++ b/src/nip59.c
@@ -278,11 +278,6 @@ nostr_error_t nostr_nip59_unwrap_event(const nostr_event* gift_wrap, const nostr
         return err;
     }
     
-    /* Store author pubkey if requested */
-    if (author_pubkey) {
-        memcpy(author_pubkey, &seal->pubkey, sizeof(nostr_key));
-    }
-    
     /* Decrypt seal to get original event */
     err = nostr_nip44_decrypt(recipient_privkey, &seal->pubkey, seal->content,
                              &decrypted_event_json, &decrypted_event_len);
@@ -295,9 +290,26 @@ nostr_error_t nostr_nip59_unwrap_event(const nostr_event* gift_wrap, const nostr
     err = nostr_event_from_json(decrypted_event_json, unwrapped_event);
     secure_wipe(decrypted_event_json, decrypted_event_len);
     free(decrypted_event_json);
-    nostr_event_destroy(seal);
+    if (err != NOSTR_OK) {
+        nostr_event_destroy(seal);
+        return err;
+    }
     
-    return err;
+    /* Anyone can seal anything: only its own author may be believed */
+    if (memcmp(&(*unwrapped_event)->pubkey, &seal->pubkey, sizeof(nostr_key)) != 0) {
+        nostr_event_destroy(*unwrapped_event);
+        *unwrapped_event = NULL;
+        nostr_event_destroy(seal);
+        return NOSTR_ERR_INVALID_EVENT;
+    }
+    
+    /* Store author pubkey if requested */
+    if (author_pubkey) {
+        memcpy(author_pubkey, &seal->pubkey, sizeof(nostr_key));
+    }
+    
+    nostr_event_destroy(seal);
+    return NOSTR_OK;
 }
 
 nostr_error_t nostr_nip59_create_rumor(nostr_event** rumor, uint16_t kind, const nostr_key* pubkey,
-- 
2.43.0


From f17528c8e2e4bb0cda3d401cd05932862365aa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:08 +0000
Subject: [PATCH 70/92] fix: do not let a huge amount wrap around a spending
 limit

---
 src/nip47_session.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/nip47_session.c b/src/nip47_session.c
index 074faad..6c854da 100644
--- a/src/nip47_session.c
+++ b/src/nip47_session.c
@@ -276,12 +276,17 @@ nostr_error_t nostr_nip47_session_check_permission(const char* session_id, const
         perm->reset_time = now + perm->reset_interval_secs;
     }
     
-    if (perm->limit_msats > 0 && perm->used_msats + amount_msats > perm->limit_msats) {
+    if (perm->limit_msats > 0 && (perm->used_msats > perm->limit_msats ||
+                                  amount_msats > perm->limit_msats - perm->used_msats)) {
         pthread_mutex_unlock(&session->lock);
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    perm->used_msats += amount_msats;
+    if (perm->used_msats > UINT64_MAX - amount_msats) {
+        perm->used_msats = UINT64_MAX;
+    } else {
+        perm->used_msats += amount_msats;
+    }
     
     pthread_mutex_unlock(&session->lock);
     return NOSTR_OK;
-- 
2.43.0


From a1d0312674215b5e57991e43eede0d36e5998083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:08 +0000
Subject: [PATCH 71/92] fix: match wallet session ids over their whole length

---
 src/nip47_session.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nip47_session.c b/src/nip47_session.c
index 6c854da..fba549c 100644
--- a/src/nip47_session.c
+++ b/src/nip47_session.c
@@ -38,6 +38,10 @@ static int rate_limit_count = 0;
 
 static nwc_session_t* find_session(const char* session_id)
 {
+    if (strlen(session_id) != 64) {
+        return NULL;
+    }
+
     for (size_t i = 0; i < max_sessions; i++) {
         if (sessions[i].active && nostr_constant_time_memcmp(sessions[i].session_id, session_id, 64) == 0) {
             return &sessions[i];
-- 
2.43.0


From 3f31b4653cdf951c5497773d4294a9b63ec60fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:08 +0000
Subject: [PATCH 72/92] fix: fail wallet session creation when the id cannot be
 copied

---
 src/nip47_session.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nip47_session.c b/src/nip47_session.c
index fba549c..24c73b3 100644
--- a/src/nip47_session.c
+++ b/src/nip47_session.c
@@ -165,7 +165,9 @@ nostr_error_t nostr_nip47_session_create(const char* connection_uri, char** sess
     nwc_session_t* session = &sessions[slot];
     pthread_mutex_lock(&session->lock);
     
-    if (generate_session_id(session->session_id) != 0) {
+    char* id_copy = NULL;
+    if (generate_session_id(session->session_id) != 0 ||
+        !(id_copy = strdup(session->session_id))) {
         pthread_mutex_unlock(&session->lock);
         pthread_mutex_unlock(&sessions_lock);
         nostr_nip47_free_connection(conn);
@@ -180,7 +182,7 @@ nostr_error_t nostr_nip47_session_create(const char* connection_uri, char** sess
     session->active = 1;
     session->permission_count = 0;
     
-    *session_id = strdup(session->session_id);
+    *session_id = id_copy;
     
     pthread_mutex_unlock(&session->lock);
     pthread_mutex_unlock(&sessions_lock);
-- 
2.43.0


From 8e338309a69462dfd7ab519f9e5441f9dad1ddb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:08 +0000
Subject: [PATCH 73/92] fix: do not keep a wallet permission without its name

---
 src/nip47_session.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nip47_session.c b/src/nip47_session.c
index 24c73b3..4c10992 100644
--- a/src/nip47_session.c
+++ b/src/nip47_session.c
@@ -226,6 +226,10 @@ nostr_error_t nostr_nip47_session_add_permission(const char* session_id, const c
     
     permission_t* perm = &session->permissions[session->permission_count];
     perm->name = strdup(permission);
+    if (!perm->name) {
+        pthread_mutex_unlock(&session->lock);
+        return NOSTR_ERR_MEMORY;
+    }
     perm->limit_msats = limit_msats;
     perm->reset_interval_secs = reset_interval_secs;
     perm->reset_time = time(NULL) + reset_interval_secs;
-- 
2.43.0


From 0e1938f70392a663e786f77ae437a67f5477fcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:08 +0000
Subject: [PATCH 74/92] fix: size wallet permissions for what they hold

---
 src/nip47_session.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/nip47_session.c b/src/nip47_session.c
index 4c10992..755b608 100644
--- a/src/nip47_session.c
+++ b/src/nip47_session.c
@@ -216,13 +216,13 @@ nostr_error_t nostr_nip47_session_add_permission(const char* session_id, const c
         return NOSTR_ERR_MEMORY;
     }
     
-    if (session->permissions == NULL) {
-        session->permissions = calloc(max_perms, sizeof(permission_t));
-        if (!session->permissions) {
-            pthread_mutex_unlock(&session->lock);
-            return NOSTR_ERR_MEMORY;
-        }
+    permission_t* grown = realloc(session->permissions,
+                                  (session->permission_count + 1) * sizeof(permission_t));
+    if (!grown) {
+        pthread_mutex_unlock(&session->lock);
+        return NOSTR_ERR_MEMORY;
     }
+    session->permissions = grown;
     
     permission_t* perm = &session->permissions[session->permission_count];
     perm->name = strdup(permission);
-- 
2.43.0


From 4ba6060153135acf10159d2e9db05d87065fa5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:08 +0000
Subject: [PATCH 75/92] fix: leave no wallet session table behind that was not
 allocated

---
 src/nip47_session.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/nip47_session.c b/src/nip47_session.c
index 755b608..72e1b01 100644
--- a/src/nip47_session.c
+++ b/src/nip47_session.c
@@ -93,13 +93,14 @@ nostr_error_t nostr_nip47_session_init()
     
     if (!sessions_initialized) {
         const nostr_config* config = nostr_config_get_current();
-        max_sessions = config ? config->max_sessions : 100;
+        size_t count = config ? config->max_sessions : 100;
         
-        sessions = calloc(max_sessions, sizeof(nwc_session_t));
+        sessions = calloc(count, sizeof(nwc_session_t));
         if (!sessions) {
             pthread_mutex_unlock(&sessions_lock);
             return NOSTR_ERR_MEMORY;
         }
+        max_sessions = count;
         
         for (size_t i = 0; i < max_sessions; i++) {
             sessions[i].active = 0;
@@ -122,12 +123,13 @@ nostr_error_t nostr_nip47_session_create(const char* connection_uri, char** sess
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    if (!sessions_initialized) {
-        nostr_nip47_session_init();
+    nostr_error_t err = nostr_nip47_session_init();
+    if (err != NOSTR_OK) {
+        return err;
     }
     
     struct nwc_connection* conn = NULL;
-    nostr_error_t err = nostr_nip47_parse_connection_uri(connection_uri, &conn);
+    err = nostr_nip47_parse_connection_uri(connection_uri, &conn);
     if (err != NOSTR_OK) {
         return err;
     }
-- 
2.43.0


From 3df83961c65a705728e09b6b2ca3cf6d7a70795d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:08 +0000
Subject: [PATCH 76/92] fix: hold the session table lock while a wallet session
 is used

---
 src/nip47_session.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/nip47_session.c b/src/nip47_session.c
index 72e1b01..1b9c79b 100644
--- a/src/nip47_session.c
+++ b/src/nip47_session.c
@@ -208,13 +208,13 @@ nostr_error_t nostr_nip47_session_add_permission(const char* session_id, const c
     }
 
     pthread_mutex_lock(&session->lock);
-    pthread_mutex_unlock(&sessions_lock);
 
     const nostr_config* config = nostr_config_get_current();
     uint32_t max_perms = config ? config->max_permissions : 32;
     
     if (session->permission_count >= max_perms) {
         pthread_mutex_unlock(&session->lock);
+        pthread_mutex_unlock(&sessions_lock);
         return NOSTR_ERR_MEMORY;
     }
     
@@ -222,6 +222,7 @@ nostr_error_t nostr_nip47_session_add_permission(const char* session_id, const c
                                   (session->permission_count + 1) * sizeof(permission_t));
     if (!grown) {
         pthread_mutex_unlock(&session->lock);
+        pthread_mutex_unlock(&sessions_lock);
         return NOSTR_ERR_MEMORY;
     }
     session->permissions = grown;
@@ -230,6 +231,7 @@ nostr_error_t nostr_nip47_session_add_permission(const char* session_id, const c
     perm->name = strdup(permission);
     if (!perm->name) {
         pthread_mutex_unlock(&session->lock);
+        pthread_mutex_unlock(&sessions_lock);
         return NOSTR_ERR_MEMORY;
     }
     perm->limit_msats = limit_msats;
@@ -240,6 +242,7 @@ nostr_error_t nostr_nip47_session_add_permission(const char* session_id, const c
     session->permission_count++;
     
     pthread_mutex_unlock(&session->lock);
+    pthread_mutex_unlock(&sessions_lock);
     return NOSTR_OK;
 }
 
@@ -259,11 +262,11 @@ nostr_error_t nostr_nip47_session_check_permission(const char* session_id, const
     }
 
     pthread_mutex_lock(&session->lock);
-    pthread_mutex_unlock(&sessions_lock);
 
     time_t now = time(NULL);
     if (session->expires_at < now) {
         pthread_mutex_unlock(&session->lock);
+        pthread_mutex_unlock(&sessions_lock);
         return NOSTR_ERR_INVALID_PARAM;
     }
 
@@ -280,6 +283,7 @@ nostr_error_t nostr_nip47_session_check_permission(const char* session_id, const
     
     if (!perm) {
         pthread_mutex_unlock(&session->lock);
+        pthread_mutex_unlock(&sessions_lock);
         return NOSTR_ERR_INVALID_PARAM;
     }
     
@@ -291,6 +295,7 @@ nostr_error_t nostr_nip47_session_check_permission(const char* session_id, const
     if (perm->limit_msats > 0 && (perm->used_msats > perm->limit_msats ||
                                   amount_msats > perm->limit_msats - perm->used_msats)) {
         pthread_mutex_unlock(&session->lock);
+        pthread_mutex_unlock(&sessions_lock);
         return NOSTR_ERR_INVALID_PARAM;
     }
     
@@ -301,6 +306,7 @@ nostr_error_t nostr_nip47_session_check_permission(const char* session_id, const
     }
     
     pthread_mutex_unlock(&session->lock);
+    pthread_mutex_unlock(&sessions_lock);
     return NOSTR_OK;
 }
 
@@ -319,11 +325,11 @@ nostr_error_t nostr_nip47_session_get_connection(const char* session_id, struct
     }
 
     pthread_mutex_lock(&session->lock);
-    pthread_mutex_unlock(&sessions_lock);
 
     time_t now = time(NULL);
     if (session->expires_at < now) {
         pthread_mutex_unlock(&session->lock);
+        pthread_mutex_unlock(&sessions_lock);
         return NOSTR_ERR_INVALID_PARAM;
     }
 
@@ -331,6 +337,7 @@ nostr_error_t nostr_nip47_session_get_connection(const char* session_id, struct
     *connection = session->connection;
     
     pthread_mutex_unlock(&session->lock);
+    pthread_mutex_unlock(&sessions_lock);
     return NOSTR_OK;
 }
 
@@ -349,11 +356,11 @@ nostr_error_t nostr_nip47_session_extend(const char* session_id, uint32_t additi
     }
 
     pthread_mutex_lock(&session->lock);
-    pthread_mutex_unlock(&sessions_lock);
 
     session->expires_at += additional_secs;
 
     pthread_mutex_unlock(&session->lock);
+    pthread_mutex_unlock(&sessions_lock);
     return NOSTR_OK;
 }
 
@@ -372,7 +379,6 @@ nostr_error_t nostr_nip47_session_destroy(const char* session_id)
     }
 
     pthread_mutex_lock(&session->lock);
-    pthread_mutex_unlock(&sessions_lock);
     
     session->active = 0;
     if (session->connection) {
@@ -388,5 +394,6 @@ nostr_error_t nostr_nip47_session_destroy(const char* session_id)
     session->permission_count = 0;
     
     pthread_mutex_unlock(&session->lock);
+    pthread_mutex_unlock(&sessions_lock);
     return NOSTR_OK;
 }
\ No newline at end of file
-- 
2.43.0


From e0f0441b8829f9240b92962a8a50de42297c5596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:43 +0000
Subject: [PATCH 77/92] fix: accept only hex digits in wallet connection keys

---
 src/nip47.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/nip47.c b/src/nip47.c
index 8bcaadc..35ec66f 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -116,9 +116,8 @@ static int hex_decode(const char* hex, uint8_t* out, size_t out_len)
     
     for (size_t i = 0; i < out_len; i++) {
         char byte[3] = {hex[i*2], hex[i*2+1], 0};
-        char* end;
-        long val = strtol(byte, &end, 16);
-        if (end != byte + 2) return -1;
+        if (!isxdigit((unsigned char)byte[0]) || !isxdigit((unsigned char)byte[1])) return -1;
+        long val = strtol(byte, NULL, 16);
         out[i] = (uint8_t)val;
     }
     
-- 
2.43.0


From 9a957062a5e528c4cac1e1c7faa358a52d9bfe06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:43 +0000
Subject: [PATCH 78/92] fix: do not leak a repeated lud16 of a connection URI

---
 src/nip47.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nip47.c b/src/nip47.c
index 35ec66f..a12f5b7 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -239,6 +239,7 @@ nostr_error_t nostr_nip47_parse_connection_uri(const char* uri, struct nwc_conne
                 has_secret = 1;
             }
             else if (strcmp(param, "lud16") == 0) {
+                free(conn->lud16);
                 conn->lud16 = url_decode(value);
                 if (!conn->lud16) {
                     free(params);
-- 
2.43.0


From 04200fc658dabf780e6a5f34078de6519f2b55d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:44 +0000
Subject: [PATCH 79/92] fix: release what was read of a wallet info event when
 it fails

---
 src/nip47.c | 207 ++++++++++++++++++----------------------------------
 1 file changed, 73 insertions(+), 134 deletions(-)

diff --git a/src/nip47.c b/src/nip47.c
index a12f5b7..0f59170 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -263,6 +263,59 @@ nostr_error_t nostr_nip47_parse_connection_uri(const char* uri, struct nwc_conne
     return NOSTR_OK;
 }
 
+static void free_words(char*** words, size_t* count)
+{
+    for (size_t i = 0; i < *count; i++) {
+        free((*words)[i]);
+    }
+    free(*words);
+    *words = NULL;
+    *count = 0;
+}
+
+static nostr_error_t split_words(const char* text, char*** words, size_t* count)
+{
+    if (!text) {
+        return NOSTR_OK;
+    }
+
+    char* copy = strdup(text);
+    size_t max = 1;
+    for (const char* p = text; *p; p++) {
+        if (*p == ' ') max++;
+    }
+    *words = malloc(max * sizeof(char*));
+    if (!copy || !*words) {
+        free(copy);
+        free_words(words, count);
+        return NOSTR_ERR_MEMORY;
+    }
+
+    char* saveptr;
+    for (char* word = strtok_r(copy, " ", &saveptr); word; word = strtok_r(NULL, " ", &saveptr)) {
+        (*words)[*count] = strdup(word);
+        if (!(*words)[*count]) {
+            free(copy);
+            free_words(words, count);
+            return NOSTR_ERR_MEMORY;
+        }
+        (*count)++;
+    }
+
+    free(copy);
+    return NOSTR_OK;
+}
+
+static const char* find_tag_value(const nostr_event* event, const char* name)
+{
+    for (size_t i = 0; i < event->tags_count; i++) {
+        if (event->tags[i].count >= 2 && strcmp(event->tags[i].values[0], name) == 0) {
+            return event->tags[i].values[1];
+        }
+    }
+    return NULL;
+}
+
 nostr_error_t nostr_nip47_parse_info_event(const nostr_event* event, char*** capabilities, 
                                            size_t* cap_count, char*** notifications, 
                                            size_t* notif_count, char*** encryptions,
@@ -272,144 +325,30 @@ nostr_error_t nostr_nip47_parse_info_event(const nostr_event* event, char*** cap
         return NOSTR_ERR_INVALID_PARAM;
     }
     
+    if (capabilities) *capabilities = NULL;
+    if (cap_count) *cap_count = 0;
+    if (notifications) *notifications = NULL;
+    if (notif_count) *notif_count = 0;
+    if (encryptions) *encryptions = NULL;
+    if (enc_count) *enc_count = 0;
+
+    nostr_error_t err = NOSTR_OK;
     if (capabilities && cap_count) {
-        char* content = strdup(event->content);
-        if (!content) {
-            return NOSTR_ERR_MEMORY;
-        }
-        
-        *cap_count = 0;
-        for (char* p = content; *p; p++) {
-            if (*p == ' ') (*cap_count)++;
-        }
-        (*cap_count)++;
-        
-        *capabilities = malloc(*cap_count * sizeof(char*));
-        if (!*capabilities) {
-            free(content);
-            return NOSTR_ERR_MEMORY;
-        }
-        
-        size_t i = 0;
-        char* saveptr;
-        char* cap = strtok_r(content, " ", &saveptr);
-        while (cap && i < *cap_count) {
-            (*capabilities)[i] = strdup(cap);
-            if (!(*capabilities)[i]) {
-                for (size_t j = 0; j < i; j++) {
-                    free((*capabilities)[j]);
-                }
-                free(*capabilities);
-                free(content);
-                return NOSTR_ERR_MEMORY;
-            }
-            i++;
-            cap = strtok_r(NULL, " ", &saveptr);
-        }
-        *cap_count = i;
-        
-        free(content);
+        err = split_words(event->content, capabilities, cap_count);
     }
-    
-    if (notifications && notif_count) {
-        *notifications = NULL;
-        *notif_count = 0;
-        
-        for (size_t i = 0; i < event->tags_count; i++) {
-            if (event->tags[i].count >= 2 && 
-                strcmp(event->tags[i].values[0], "notifications") == 0) {
-                
-                char* notif_str = strdup(event->tags[i].values[1]);
-                if (!notif_str) {
-                    return NOSTR_ERR_MEMORY;
-                }
-                
-                *notif_count = 0;
-                for (char* p = notif_str; *p; p++) {
-                    if (*p == ' ') (*notif_count)++;
-                }
-                (*notif_count)++;
-                
-                *notifications = malloc(*notif_count * sizeof(char*));
-                if (!*notifications) {
-                    free(notif_str);
-                    return NOSTR_ERR_MEMORY;
-                }
-                
-                size_t j = 0;
-                char* saveptr;
-                char* notif = strtok_r(notif_str, " ", &saveptr);
-                while (notif && j < *notif_count) {
-                    (*notifications)[j] = strdup(notif);
-                    if (!(*notifications)[j]) {
-                        for (size_t k = 0; k < j; k++) {
-                            free((*notifications)[k]);
-                        }
-                        free(*notifications);
-                        free(notif_str);
-                        return NOSTR_ERR_MEMORY;
-                    }
-                    j++;
-                    notif = strtok_r(NULL, " ", &saveptr);
-                }
-                *notif_count = j;
-                
-                free(notif_str);
-                break;
-            }
-        }
+    if (err == NOSTR_OK && notifications && notif_count) {
+        err = split_words(find_tag_value(event, "notifications"), notifications, notif_count);
     }
-    
-    if (encryptions && enc_count) {
-        *encryptions = NULL;
-        *enc_count = 0;
-        
-        for (size_t i = 0; i < event->tags_count; i++) {
-            if (event->tags[i].count >= 2 && 
-                strcmp(event->tags[i].values[0], "encryption") == 0) {
-                
-                char* enc_str = strdup(event->tags[i].values[1]);
-                if (!enc_str) {
-                    return NOSTR_ERR_MEMORY;
-                }
-                
-                *enc_count = 0;
-                for (char* p = enc_str; *p; p++) {
-                    if (*p == ' ') (*enc_count)++;
-                }
-                (*enc_count)++;
-                
-                *encryptions = malloc(*enc_count * sizeof(char*));
-                if (!*encryptions) {
-                    free(enc_str);
-                    return NOSTR_ERR_MEMORY;
-                }
-                
-                size_t j = 0;
-                char* saveptr;
-                char* enc = strtok_r(enc_str, " ", &saveptr);
-                while (enc && j < *enc_count) {
-                    (*encryptions)[j] = strdup(enc);
-                    if (!(*encryptions)[j]) {
-                        for (size_t k = 0; k < j; k++) {
-                            free((*encryptions)[k]);
-                        }
-                        free(*encryptions);
-                        free(enc_str);
-                        return NOSTR_ERR_MEMORY;
-                    }
-                    j++;
-                    enc = strtok_r(NULL, " ", &saveptr);
-                }
-                *enc_count = j;
-                
-                free(enc_str);
-                break;
-            }
-        }
+    if (err == NOSTR_OK && encryptions && enc_count) {
+        err = split_words(find_tag_value(event, "encryption"), encryptions, enc_count);
     }
-    
-    return NOSTR_OK;
+
+    if (err != NOSTR_OK) {
+        if (capabilities && cap_count) free_words(capabilities, cap_count);
+        if (notifications && notif_count) free_words(notifications, notif_count);
+        if (encryptions && enc_count) free_words(encryptions, enc_count);
+    }
+    return err;
 }
 
 nostr_error_t nostr_nip47_create_request_event(nostr_event** event, const struct nwc_connection* conn,
-- 
2.43.0


From b9de4220ed603ec47143947c19c4ab3e5829e1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:44 +0000
Subject: [PATCH 80/92] fix: send wallet requests whole, or not at all

---
 src/nip47.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/nip47.c b/src/nip47.c
index 0f59170..89628c7 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -434,12 +434,9 @@ nostr_error_t nostr_nip47_create_request_event(nostr_event** event, const struct
         }
     }
     
-    char escaped_method[256];
-    nip47_json_escape(escaped_method, sizeof(escaped_method), method);
-
 #ifdef HAVE_CJSON
     {
-        cJSON* params_parsed = cJSON_Parse(params_json);
+        cJSON* params_parsed = cJSON_ParseWithOpts(params_json, NULL, 1);
         if (!params_parsed) {
             nostr_event_destroy(*event);
             *event = NULL;
@@ -455,8 +452,20 @@ nostr_error_t nostr_nip47_create_request_event(nostr_event** event, const struct
     }
 #endif
 
-    char payload[8192];
-    snprintf(payload, sizeof(payload), "{\"method\":\"%s\",\"params\":%s}", escaped_method, params_json);
+    size_t method_size = strlen(method) * 6 + 1;
+    size_t payload_size = method_size + strlen(params_json) + sizeof("{\"method\":\"\",\"params\":}");
+    char* escaped_method = malloc(method_size);
+    char* payload = malloc(payload_size);
+    if (!escaped_method || !payload) {
+        free(escaped_method);
+        free(payload);
+        nostr_event_destroy(*event);
+        *event = NULL;
+        return NOSTR_ERR_MEMORY;
+    }
+    nip47_json_escape(escaped_method, method_size, method);
+    snprintf(payload, payload_size, "{\"method\":\"%s\",\"params\":%s}", escaped_method, params_json);
+    free(escaped_method);
     
     char* encrypted = NULL;
     if (use_nip44) {
@@ -468,6 +477,8 @@ nostr_error_t nostr_nip47_create_request_event(nostr_event** event, const struct
     } else {
         err = NOSTR_ERR_NOT_SUPPORTED;
     }
+    secure_wipe(payload, payload_size);
+    free(payload);
     
     if (err != NOSTR_OK) {
         nostr_event_destroy(*event);
-- 
2.43.0


From 16da4e9c048b17b443af6d4cab82abe225b5b549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:44 +0000
Subject: [PATCH 81/92] fix: decrypt wallet responses with the key that sent
 them

---
 src/nip47.c | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/src/nip47.c b/src/nip47.c
index 89628c7..2c69be6 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -511,21 +511,8 @@ nostr_error_t nostr_nip47_parse_response_event(const nostr_event* event, const n
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    nostr_key service_pubkey = {0};
-    int found_p_tag = 0;
-    
-    for (size_t i = 0; i < event->tags_count; i++) {
-        if (event->tags[i].count >= 2 && strcmp(event->tags[i].values[0], "p") == 0) {
-            if (hex_decode(event->tags[i].values[1], service_pubkey.data, 32) == 0) {
-                found_p_tag = 1;
-                break;
-            }
-        }
-    }
-    
-    if (!found_p_tag) {
-        memcpy(&service_pubkey, &event->pubkey, sizeof(nostr_key));
-    }
+    nostr_key service_pubkey;
+    memcpy(&service_pubkey, &event->pubkey, sizeof(nostr_key));
     
     char* decrypted = NULL;
     nostr_error_t err;
-- 
2.43.0


From a64208be3f91b9bba0a8ad108a8728d393139a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:44 +0000
Subject: [PATCH 82/92] fix: set every output of a parsed wallet message

---
 src/nip47.c | 96 +++++++++++++++++++++++++++++------------------------
 1 file changed, 53 insertions(+), 43 deletions(-)

diff --git a/src/nip47.c b/src/nip47.c
index 2c69be6..5fc950d 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -503,6 +503,32 @@ nostr_error_t nostr_nip47_create_request_event(nostr_event** event, const struct
     return NOSTR_OK;
 }
 
+#ifdef HAVE_CJSON
+static void clear_string(char** out)
+{
+    if (out) {
+        free(*out);
+        *out = NULL;
+    }
+}
+
+static int copy_string(const cJSON* object, const char* name, char** out)
+{
+    const cJSON* item = cJSON_GetObjectItemCaseSensitive(object, name);
+    if (!out || !item || !cJSON_IsString(item)) return 0;
+    *out = strdup(item->valuestring);
+    return *out ? 0 : -1;
+}
+
+static int copy_value(const cJSON* object, const char* name, char** out)
+{
+    const cJSON* item = cJSON_GetObjectItemCaseSensitive(object, name);
+    if (!out || !item) return 0;
+    *out = cJSON_PrintUnformatted(item);
+    return *out ? 0 : -1;
+}
+#endif
+
 nostr_error_t nostr_nip47_parse_response_event(const nostr_event* event, const nostr_privkey* client_secret,
                                                char** result_type, char** result_json, 
                                                char** error_code, char** error_message)
@@ -517,6 +543,11 @@ nostr_error_t nostr_nip47_parse_response_event(const nostr_event* event, const n
     char* decrypted = NULL;
     nostr_error_t err;
     
+    if (result_type) *result_type = NULL;
+    if (result_json) *result_json = NULL;
+    if (error_code) *error_code = NULL;
+    if (error_message) *error_message = NULL;
+
     int is_nip44 = 0;
     for (size_t i = 0; i < event->tags_count; i++) {
         if (event->tags[i].count >= 2 && strcmp(event->tags[i].values[0], "encryption") == 0) {
@@ -549,35 +580,16 @@ nostr_error_t nostr_nip47_parse_response_event(const nostr_event* event, const n
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    if (result_type) {
-        cJSON* type_obj = cJSON_GetObjectItem(root, "result_type");
-        if (type_obj && cJSON_IsString(type_obj)) {
-            *result_type = strdup(type_obj->valuestring);
-        }
-    }
-    
-    if (result_json) {
-        cJSON* result_obj = cJSON_GetObjectItem(root, "result");
-        if (result_obj) {
-            *result_json = cJSON_PrintUnformatted(result_obj);
-        }
-    }
-    
-    cJSON* error_obj = cJSON_GetObjectItem(root, "error");
-    if (error_obj) {
-        if (error_code) {
-            cJSON* code_obj = cJSON_GetObjectItem(error_obj, "code");
-            if (code_obj && cJSON_IsString(code_obj)) {
-                *error_code = strdup(code_obj->valuestring);
-            }
-        }
-        
-        if (error_message) {
-            cJSON* msg_obj = cJSON_GetObjectItem(error_obj, "message");
-            if (msg_obj && cJSON_IsString(msg_obj)) {
-                *error_message = strdup(msg_obj->valuestring);
-            }
-        }
+    cJSON* error_obj = cJSON_GetObjectItemCaseSensitive(root, "error");
+    if (copy_string(root, "result_type", result_type) != 0 ||
+        copy_value(root, "result", result_json) != 0 ||
+        copy_string(error_obj, "code", error_code) != 0 ||
+        copy_string(error_obj, "message", error_message) != 0) {
+        err = NOSTR_ERR_MEMORY;
+        clear_string(result_type);
+        clear_string(result_json);
+        clear_string(error_code);
+        clear_string(error_message);
     }
     
     cJSON_Delete(root);
@@ -588,8 +600,9 @@ nostr_error_t nostr_nip47_parse_response_event(const nostr_event* event, const n
     if (error_message) *error_message = NULL;
 #endif
     
+    secure_wipe(decrypted, decrypted_len);
     free(decrypted);
-    return NOSTR_OK;
+    return err;
 }
 
 nostr_error_t nostr_nip47_create_pay_invoice_params(char** params_json, const char* invoice, 
@@ -728,6 +741,9 @@ nostr_error_t nostr_nip47_parse_notification_event(const nostr_event* event, con
         return NOSTR_ERR_INVALID_PARAM;
     }
     
+    if (notification_type) *notification_type = NULL;
+    if (notification_json) *notification_json = NULL;
+
     nostr_key service_pubkey;
     memcpy(&service_pubkey, &event->pubkey, sizeof(nostr_key));
     
@@ -756,18 +772,11 @@ nostr_error_t nostr_nip47_parse_notification_event(const nostr_event* event, con
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    if (notification_type) {
-        cJSON* type_obj = cJSON_GetObjectItem(root, "notification_type");
-        if (type_obj && cJSON_IsString(type_obj)) {
-            *notification_type = strdup(type_obj->valuestring);
-        }
-    }
-    
-    if (notification_json) {
-        cJSON* notif_obj = cJSON_GetObjectItem(root, "notification");
-        if (notif_obj) {
-            *notification_json = cJSON_PrintUnformatted(notif_obj);
-        }
+    if (copy_string(root, "notification_type", notification_type) != 0 ||
+        copy_value(root, "notification", notification_json) != 0) {
+        err = NOSTR_ERR_MEMORY;
+        clear_string(notification_type);
+        clear_string(notification_json);
     }
     
     cJSON_Delete(root);
@@ -776,8 +785,9 @@ nostr_error_t nostr_nip47_parse_notification_event(const nostr_event* event, con
     if (notification_json) *notification_json = strdup("{}");
 #endif
     
+    secure_wipe(decrypted, decrypted_len);
     free(decrypted);
-    return NOSTR_OK;
+    return err;
 }
 
 nostr_error_t nostr_nip47_free_connection(struct nwc_connection* conn)
-- 
2.43.0


From 99de2bf7c816f28ad56f732954ad1f2824fe4430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:47 +0000
Subject: [PATCH 83/92] fix: send wallet amounts exactly

---
 src/nip47.c          | 11 +++++++++--
 src/nip47_commands.c | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/nip47.c b/src/nip47.c
index 5fc950d..3cf9c48 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -504,6 +504,13 @@ nostr_error_t nostr_nip47_create_request_event(nostr_event** event, const struct
 }
 
 #ifdef HAVE_CJSON
+static int add_integer(cJSON* object, const char* name, uint64_t value)
+{
+    char digits[24];
+    snprintf(digits, sizeof(digits), "%llu", (unsigned long long)value);
+    return cJSON_AddRawToObject(object, name, digits) != NULL;
+}
+
 static void clear_string(char** out)
 {
     if (out) {
@@ -621,7 +628,7 @@ nostr_error_t nostr_nip47_create_pay_invoice_params(char** params_json, const ch
     cJSON_AddStringToObject(params, "invoice", invoice);
     
     if (amount_msats) {
-        cJSON_AddNumberToObject(params, "amount", *amount_msats);
+        add_integer(params, "amount", *amount_msats);
     }
     
     *params_json = cJSON_PrintUnformatted(params);
@@ -678,7 +685,7 @@ nostr_error_t nostr_nip47_create_make_invoice_params(char** params_json, uint64_
         return NOSTR_ERR_MEMORY;
     }
     
-    cJSON_AddNumberToObject(params, "amount", amount_msats);
+    add_integer(params, "amount", amount_msats);
     
     if (description) {
         cJSON_AddStringToObject(params, "description", description);
diff --git a/src/nip47_commands.c b/src/nip47_commands.c
index 7bba6d9..0f92af0 100644
--- a/src/nip47_commands.c
+++ b/src/nip47_commands.c
@@ -6,6 +6,13 @@
 
 #ifdef HAVE_CJSON
 #include <cjson/cJSON.h>
+
+static int add_integer(cJSON* object, const char* name, uint64_t value)
+{
+    char digits[24];
+    snprintf(digits, sizeof(digits), "%llu", (unsigned long long)value);
+    return cJSON_AddRawToObject(object, name, digits) != NULL;
+}
 #endif
 
 nostr_error_t nostr_nip47_create_list_transactions_params(char** params_json, time_t* from, time_t* until,
@@ -168,7 +175,7 @@ nostr_error_t nostr_nip47_create_pay_keysend_params(char** params_json, uint64_t
         return NOSTR_ERR_MEMORY;
     }
     
-    cJSON_AddNumberToObject(params, "amount", amount_msats);
+    add_integer(params, "amount", amount_msats);
     cJSON_AddStringToObject(params, "pubkey", pubkey);
     
     if (preimage) {
@@ -282,7 +289,7 @@ nostr_error_t nostr_nip47_create_multi_pay_invoice_params(char** params_json,
         cJSON_AddStringToObject(inv, "invoice", invoices[i]);
         
         if (amounts && amounts[i] > 0) {
-            cJSON_AddNumberToObject(inv, "amount", amounts[i]);
+            add_integer(inv, "amount", amounts[i]);
         }
         
         cJSON_AddItemToArray(inv_array, inv);
-- 
2.43.0


From 918e1f2ea69bb574cffb5bcb1991a13a725c523a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:47 +0000
Subject: [PATCH 84/92] fix: refuse keysend records that are not type and value

---
 src/nip47_commands.c | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/nip47_commands.c b/src/nip47_commands.c
index 0f92af0..5aadff8 100644
--- a/src/nip47_commands.c
+++ b/src/nip47_commands.c
@@ -161,6 +161,26 @@ nostr_error_t nostr_nip47_create_lookup_invoice_params(char** params_json, const
     return NOSTR_OK;
 }
 
+static int is_integer(const char* text)
+{
+    if (!*text || (text[0] == '0' && text[1])) {
+        return 0;
+    }
+
+    uint64_t value = 0;
+    for (; *text; text++) {
+        if (*text < '0' || *text > '9') {
+            return 0;
+        }
+        unsigned digit = (unsigned)(*text - '0');
+        if (value > (UINT64_MAX - digit) / 10) {
+            return 0;
+        }
+        value = value * 10 + digit;
+    }
+    return 1;
+}
+
 nostr_error_t nostr_nip47_create_pay_keysend_params(char** params_json, uint64_t amount_msats,
                                                     const char* pubkey, const char* preimage,
                                                     const char** tlv_records, size_t tlv_count)
@@ -168,6 +188,13 @@ nostr_error_t nostr_nip47_create_pay_keysend_params(char** params_json, uint64_t
     if (!params_json || amount_msats == 0 || !pubkey) {
         return NOSTR_ERR_INVALID_PARAM;
     }
+
+    for (size_t i = 0; tlv_records && i < tlv_count; i++) {
+        if (!tlv_records[i] || tlv_count % 2 != 0 ||
+            (i % 2 == 0 && !is_integer(tlv_records[i]))) {
+            return NOSTR_ERR_INVALID_PARAM;
+        }
+    }
     
 #ifdef HAVE_CJSON
     cJSON* params = cJSON_CreateObject();
@@ -197,9 +224,7 @@ nostr_error_t nostr_nip47_create_pay_keysend_params(char** params_json, uint64_t
                     return NOSTR_ERR_MEMORY;
                 }
                 
-                char* end;
-                long type_val = strtol(tlv_records[i], &end, 10);
-                cJSON_AddNumberToObject(tlv, "type", type_val);
+                add_integer(tlv, "type", strtoull(tlv_records[i], NULL, 10));
                 cJSON_AddStringToObject(tlv, "value", tlv_records[i + 1]);
                 cJSON_AddItemToArray(tlv_array, tlv);
             }
-- 
2.43.0


From 97e05dd71f79d71cdbc4b4ef452909a4d1f693bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:47 +0000
Subject: [PATCH 85/92] fix: send wallet parameters whole, or not at all

---
 src/nip47.c          | 18 +++++++------
 src/nip47_commands.c | 62 ++++++++++++++++++++++++++++----------------
 2 files changed, 50 insertions(+), 30 deletions(-)

diff --git a/src/nip47.c b/src/nip47.c
index 3cf9c48..c4905dc 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -624,14 +624,15 @@ nostr_error_t nostr_nip47_create_pay_invoice_params(char** params_json, const ch
     if (!params) {
         return NOSTR_ERR_MEMORY;
     }
+    int ok = 1;
     
-    cJSON_AddStringToObject(params, "invoice", invoice);
+    ok = cJSON_AddStringToObject(params, "invoice", invoice) != NULL && ok;
     
     if (amount_msats) {
-        add_integer(params, "amount", *amount_msats);
+        ok = add_integer(params, "amount", *amount_msats) && ok;
     }
     
-    *params_json = cJSON_PrintUnformatted(params);
+    *params_json = ok ? cJSON_PrintUnformatted(params) : NULL;
     cJSON_Delete(params);
     
     if (!*params_json) {
@@ -684,22 +685,23 @@ nostr_error_t nostr_nip47_create_make_invoice_params(char** params_json, uint64_
     if (!params) {
         return NOSTR_ERR_MEMORY;
     }
+    int ok = 1;
     
-    add_integer(params, "amount", amount_msats);
+    ok = add_integer(params, "amount", amount_msats) && ok;
     
     if (description) {
-        cJSON_AddStringToObject(params, "description", description);
+        ok = cJSON_AddStringToObject(params, "description", description) != NULL && ok;
     }
     
     if (description_hash) {
-        cJSON_AddStringToObject(params, "description_hash", description_hash);
+        ok = cJSON_AddStringToObject(params, "description_hash", description_hash) != NULL && ok;
     }
     
     if (expiry_secs) {
-        cJSON_AddNumberToObject(params, "expiry", *expiry_secs);
+        ok = cJSON_AddNumberToObject(params, "expiry", *expiry_secs) != NULL && ok;
     }
     
-    *params_json = cJSON_PrintUnformatted(params);
+    *params_json = ok ? cJSON_PrintUnformatted(params) : NULL;
     cJSON_Delete(params);
     
     if (!*params_json) {
diff --git a/src/nip47_commands.c b/src/nip47_commands.c
index 5aadff8..2eb2087 100644
--- a/src/nip47_commands.c
+++ b/src/nip47_commands.c
@@ -28,32 +28,33 @@ nostr_error_t nostr_nip47_create_list_transactions_params(char** params_json, ti
     if (!params) {
         return NOSTR_ERR_MEMORY;
     }
+    int ok = 1;
     
     if (from) {
-        cJSON_AddNumberToObject(params, "from", *from);
+        ok = cJSON_AddNumberToObject(params, "from", *from) != NULL && ok;
     }
     
     if (until) {
-        cJSON_AddNumberToObject(params, "until", *until);
+        ok = cJSON_AddNumberToObject(params, "until", *until) != NULL && ok;
     }
     
     if (limit) {
-        cJSON_AddNumberToObject(params, "limit", *limit);
+        ok = cJSON_AddNumberToObject(params, "limit", *limit) != NULL && ok;
     }
     
     if (offset) {
-        cJSON_AddNumberToObject(params, "offset", *offset);
+        ok = cJSON_AddNumberToObject(params, "offset", *offset) != NULL && ok;
     }
     
     if (unpaid) {
-        cJSON_AddBoolToObject(params, "unpaid", *unpaid);
+        ok = cJSON_AddBoolToObject(params, "unpaid", *unpaid) != NULL && ok;
     }
     
     if (type) {
-        cJSON_AddStringToObject(params, "type", type);
+        ok = cJSON_AddStringToObject(params, "type", type) != NULL && ok;
     }
     
-    *params_json = cJSON_PrintUnformatted(params);
+    *params_json = ok ? cJSON_PrintUnformatted(params) : NULL;
     cJSON_Delete(params);
     
     if (!*params_json) {
@@ -122,16 +123,17 @@ nostr_error_t nostr_nip47_create_lookup_invoice_params(char** params_json, const
     if (!params) {
         return NOSTR_ERR_MEMORY;
     }
+    int ok = 1;
     
     if (payment_hash) {
-        cJSON_AddStringToObject(params, "payment_hash", payment_hash);
+        ok = cJSON_AddStringToObject(params, "payment_hash", payment_hash) != NULL && ok;
     }
     
     if (invoice) {
-        cJSON_AddStringToObject(params, "invoice", invoice);
+        ok = cJSON_AddStringToObject(params, "invoice", invoice) != NULL && ok;
     }
     
-    *params_json = cJSON_PrintUnformatted(params);
+    *params_json = ok ? cJSON_PrintUnformatted(params) : NULL;
     cJSON_Delete(params);
     
     if (!*params_json) {
@@ -201,12 +203,13 @@ nostr_error_t nostr_nip47_create_pay_keysend_params(char** params_json, uint64_t
     if (!params) {
         return NOSTR_ERR_MEMORY;
     }
+    int ok = 1;
     
-    add_integer(params, "amount", amount_msats);
-    cJSON_AddStringToObject(params, "pubkey", pubkey);
+    ok = add_integer(params, "amount", amount_msats) && ok;
+    ok = cJSON_AddStringToObject(params, "pubkey", pubkey) != NULL && ok;
     
     if (preimage) {
-        cJSON_AddStringToObject(params, "preimage", preimage);
+        ok = cJSON_AddStringToObject(params, "preimage", preimage) != NULL && ok;
     }
     
     if (tlv_records && tlv_count > 0) {
@@ -220,20 +223,24 @@ nostr_error_t nostr_nip47_create_pay_keysend_params(char** params_json, uint64_t
             if (i + 1 < tlv_count) {
                 cJSON* tlv = cJSON_CreateObject();
                 if (!tlv) {
+                    cJSON_Delete(tlv_array);
                     cJSON_Delete(params);
                     return NOSTR_ERR_MEMORY;
                 }
                 
-                add_integer(tlv, "type", strtoull(tlv_records[i], NULL, 10));
-                cJSON_AddStringToObject(tlv, "value", tlv_records[i + 1]);
+                ok = add_integer(tlv, "type", strtoull(tlv_records[i], NULL, 10)) && ok;
+                ok = cJSON_AddStringToObject(tlv, "value", tlv_records[i + 1]) != NULL && ok;
                 cJSON_AddItemToArray(tlv_array, tlv);
             }
         }
         
-        cJSON_AddItemToObject(params, "tlv_records", tlv_array);
+        if (!cJSON_AddItemToObject(params, "tlv_records", tlv_array)) {
+            cJSON_Delete(tlv_array);
+            ok = 0;
+        }
     }
     
-    *params_json = cJSON_PrintUnformatted(params);
+    *params_json = ok ? cJSON_PrintUnformatted(params) : NULL;
     cJSON_Delete(params);
     
     if (!*params_json) {
@@ -287,12 +294,19 @@ nostr_error_t nostr_nip47_create_multi_pay_invoice_params(char** params_json,
     if (!params_json || !invoices || count == 0) {
         return NOSTR_ERR_INVALID_PARAM;
     }
+
+    for (size_t i = 0; i < count; i++) {
+        if (!invoices[i]) {
+            return NOSTR_ERR_INVALID_PARAM;
+        }
+    }
     
 #ifdef HAVE_CJSON
     cJSON* params = cJSON_CreateObject();
     if (!params) {
         return NOSTR_ERR_MEMORY;
     }
+    int ok = 1;
     
     cJSON* inv_array = cJSON_CreateArray();
     if (!inv_array) {
@@ -303,26 +317,30 @@ nostr_error_t nostr_nip47_create_multi_pay_invoice_params(char** params_json,
     for (size_t i = 0; i < count; i++) {
         cJSON* inv = cJSON_CreateObject();
         if (!inv) {
+            cJSON_Delete(inv_array);
             cJSON_Delete(params);
             return NOSTR_ERR_MEMORY;
         }
         
         if (invoice_ids && invoice_ids[i]) {
-            cJSON_AddStringToObject(inv, "id", invoice_ids[i]);
+            ok = cJSON_AddStringToObject(inv, "id", invoice_ids[i]) != NULL && ok;
         }
         
-        cJSON_AddStringToObject(inv, "invoice", invoices[i]);
+        ok = cJSON_AddStringToObject(inv, "invoice", invoices[i]) != NULL && ok;
         
         if (amounts && amounts[i] > 0) {
-            add_integer(inv, "amount", amounts[i]);
+            ok = add_integer(inv, "amount", amounts[i]) && ok;
         }
         
         cJSON_AddItemToArray(inv_array, inv);
     }
     
-    cJSON_AddItemToObject(params, "invoices", inv_array);
+    if (!cJSON_AddItemToObject(params, "invoices", inv_array)) {
+        cJSON_Delete(inv_array);
+        ok = 0;
+    }
     
-    *params_json = cJSON_PrintUnformatted(params);
+    *params_json = ok ? cJSON_PrintUnformatted(params) : NULL;
     cJSON_Delete(params);
     
     if (!*params_json) {
-- 
2.43.0


From ae064a47ec34e95b92f653c50fc443eb7b8073da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:47 +0000
Subject: [PATCH 86/92] fix: read wallet responses with the numbers they
 contain

---
 src/nip47_commands.c | 149 ++++++++++++++++++++++++++-----------------
 1 file changed, 90 insertions(+), 59 deletions(-)

diff --git a/src/nip47_commands.c b/src/nip47_commands.c
index 2eb2087..468f84c 100644
--- a/src/nip47_commands.c
+++ b/src/nip47_commands.c
@@ -13,6 +13,36 @@ static int add_integer(cJSON* object, const char* name, uint64_t value)
     snprintf(digits, sizeof(digits), "%llu", (unsigned long long)value);
     return cJSON_AddRawToObject(object, name, digits) != NULL;
 }
+
+static int read_integer(const cJSON* object, const char* name, uint64_t max, uint64_t* value)
+{
+    const cJSON* item = cJSON_GetObjectItemCaseSensitive(object, name);
+    if (!cJSON_IsNumber(item)) return 0;
+
+    double number = item->valuedouble;
+    if (!(number >= 0 && number < 18446744073709551616.0)) return 0;
+
+    uint64_t integer = (uint64_t)number;
+    if ((double)integer != number || integer > max) return 0;
+    *value = integer;
+    return 1;
+}
+
+static int copy_string(const cJSON* object, const char* name, char** out)
+{
+    const cJSON* item = cJSON_GetObjectItemCaseSensitive(object, name);
+    if (!out || !item || !cJSON_IsString(item)) return 1;
+    *out = strdup(item->valuestring);
+    return *out != NULL;
+}
+
+static void clear_string(char** out)
+{
+    if (out) {
+        free(*out);
+        *out = NULL;
+    }
+}
 #endif
 
 nostr_error_t nostr_nip47_create_list_transactions_params(char** params_json, time_t* from, time_t* until,
@@ -410,14 +440,11 @@ nostr_error_t nostr_nip47_parse_balance_response(const char* result_json, uint64
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    cJSON* balance = cJSON_GetObjectItem(root, "balance");
-    if (!balance || !cJSON_IsNumber(balance)) {
+    if (!read_integer(root, "balance", UINT64_MAX, balance_msats)) {
         cJSON_Delete(root);
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    *balance_msats = (uint64_t)balance->valuedouble;
-    
     cJSON_Delete(root);
 #else
     const char* balance_str = strstr(result_json, "\"balance\":");
@@ -446,21 +473,22 @@ nostr_error_t nostr_nip47_parse_pay_invoice_response(const char* result_json, ch
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    if (preimage) {
-        cJSON* preim = cJSON_GetObjectItem(root, "preimage");
-        if (preim && cJSON_IsString(preim)) {
-            *preimage = strdup(preim->valuestring);
-        }
-    }
-    
-    if (fees_paid) {
-        cJSON* fees = cJSON_GetObjectItem(root, "fees_paid");
-        if (fees && cJSON_IsNumber(fees)) {
-            *fees_paid = (uint64_t)fees->valuedouble;
-        }
+    nostr_error_t err = NOSTR_OK;
+    if (preimage) *preimage = NULL;
+    if (fees_paid) *fees_paid = 0;
+
+    if (fees_paid && cJSON_GetObjectItemCaseSensitive(root, "fees_paid") &&
+        !cJSON_IsNull(cJSON_GetObjectItemCaseSensitive(root, "fees_paid")) &&
+        !read_integer(root, "fees_paid", UINT64_MAX, fees_paid)) {
+        err = NOSTR_ERR_INVALID_PARAM;
+    } else if (!copy_string(root, "preimage", preimage)) {
+        err = NOSTR_ERR_MEMORY;
     }
     
     cJSON_Delete(root);
+    if (err != NOSTR_OK) {
+        return err;
+    }
 #else
     if (preimage) {
         const char* preim_str = strstr(result_json, "\"preimage\":\"");
@@ -505,58 +533,61 @@ nostr_error_t nostr_nip47_parse_info_response(const char* result_json, char** al
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    if (alias) {
-        cJSON* al = cJSON_GetObjectItem(root, "alias");
-        if (al && cJSON_IsString(al)) {
-            *alias = strdup(al->valuestring);
-        }
-    }
-    
-    if (color) {
-        cJSON* col = cJSON_GetObjectItem(root, "color");
-        if (col && cJSON_IsString(col)) {
-            *color = strdup(col->valuestring);
-        }
-    }
-    
-    if (pubkey) {
-        cJSON* pk = cJSON_GetObjectItem(root, "pubkey");
-        if (pk && cJSON_IsString(pk)) {
-            *pubkey = strdup(pk->valuestring);
-        }
-    }
-    
-    if (network) {
-        cJSON* net = cJSON_GetObjectItem(root, "network");
-        if (net && cJSON_IsString(net)) {
-            *network = strdup(net->valuestring);
-        }
+    if (alias) *alias = NULL;
+    if (color) *color = NULL;
+    if (pubkey) *pubkey = NULL;
+    if (network) *network = NULL;
+    if (block_height) *block_height = 0;
+    if (methods) *methods = NULL;
+    if (method_count) *method_count = 0;
+
+    int ok = copy_string(root, "alias", alias) &&
+             copy_string(root, "color", color) &&
+             copy_string(root, "pubkey", pubkey) &&
+             copy_string(root, "network", network);
+
+    uint64_t height = 0;
+    if (block_height && read_integer(root, "block_height", UINT32_MAX, &height)) {
+        *block_height = (uint32_t)height;
     }
     
-    if (block_height) {
-        cJSON* height = cJSON_GetObjectItem(root, "block_height");
-        if (height && cJSON_IsNumber(height)) {
-            *block_height = (uint32_t)height->valuedouble;
+    if (ok && methods && method_count) {
+        cJSON* meth = cJSON_GetObjectItemCaseSensitive(root, "methods");
+        int size = cJSON_IsArray(meth) ? cJSON_GetArraySize(meth) : 0;
+        if (size > 0) {
+            *methods = malloc((size_t)size * sizeof(char*));
+            ok = *methods != NULL;
         }
-    }
-    
-    if (methods && method_count) {
-        cJSON* meth = cJSON_GetObjectItem(root, "methods");
-        if (meth && cJSON_IsArray(meth)) {
-            *method_count = cJSON_GetArraySize(meth);
-            *methods = malloc(*method_count * sizeof(char*));
-            if (*methods) {
-                for (size_t i = 0; i < *method_count; i++) {
-                    cJSON* item = cJSON_GetArrayItem(meth, i);
-                    if (item && cJSON_IsString(item)) {
-                        (*methods)[i] = strdup(item->valuestring);
-                    }
+        cJSON* item = NULL;
+        if (ok && size > 0) {
+            cJSON_ArrayForEach(item, meth) {
+                if (!cJSON_IsString(item)) continue;
+                char* name = strdup(item->valuestring);
+                if (!name) {
+                    ok = 0;
+                    break;
                 }
+                (*methods)[(*method_count)++] = name;
             }
         }
     }
     
     cJSON_Delete(root);
+    if (!ok) {
+        clear_string(alias);
+        clear_string(color);
+        clear_string(pubkey);
+        clear_string(network);
+        if (methods && method_count) {
+            for (size_t i = 0; i < *method_count; i++) {
+                free((*methods)[i]);
+            }
+            free(*methods);
+            *methods = NULL;
+            *method_count = 0;
+        }
+        return NOSTR_ERR_MEMORY;
+    }
 #else
     if (alias) *alias = strdup("wallet");
     if (color) *color = strdup("#000000");
-- 
2.43.0


From f87596f3511aa31f3086c99c5282538558afe9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:28 +0000
Subject: [PATCH 87/92] fix: send remote signing results as the strings they
 are

---
 src/nip46.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/nip46.c b/src/nip46.c
index 2994d85..f933a2f 100644
--- a/src/nip46.c
+++ b/src/nip46.c
@@ -89,12 +89,7 @@ nostr_error_t nostr_nip46_create_response(const nostr_nip46_response_t* response
     if (response->error) {
         cJSON_AddStringToObject(content_obj, "error", response->error);
     } else if (response->result) {
-        cJSON* result_json = cJSON_Parse(response->result);
-        if (result_json) {
-            cJSON_AddItemToObject(content_obj, "result", result_json);
-        } else {
-            cJSON_AddStringToObject(content_obj, "result", response->result);
-        }
+        cJSON_AddStringToObject(content_obj, "result", response->result);
     }
 
     char* content_str = cJSON_PrintUnformatted(content_obj);
-- 
2.43.0


From e341db84874fd55c59d10d19dcb2f304811ef523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:28 +0000
Subject: [PATCH 88/92] fix: refuse remote signing requests without a whole id
 and method

---
 src/nip46.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/nip46.c b/src/nip46.c
index f933a2f..7d838e8 100644
--- a/src/nip46.c
+++ b/src/nip46.c
@@ -40,25 +40,28 @@ nostr_error_t nostr_nip46_parse_request(const nostr_event* event,
         return NOSTR_ERR_JSON_PARSE;
     }
 
-    cJSON* id = cJSON_GetObjectItem(root, "id");
-    if (id && cJSON_IsString(id)) {
-        strncpy(request->id, id->valuestring, sizeof(request->id) - 1);
-    }
-
-    cJSON* method = cJSON_GetObjectItem(root, "method");
-    if (method && cJSON_IsString(method)) {
-        strncpy(request->method, method->valuestring, sizeof(request->method) - 1);
+    cJSON* id = cJSON_GetObjectItemCaseSensitive(root, "id");
+    cJSON* method = cJSON_GetObjectItemCaseSensitive(root, "method");
+    if (!cJSON_IsString(id) || strlen(id->valuestring) >= sizeof(request->id) ||
+        !cJSON_IsString(method) || strlen(method->valuestring) >= sizeof(request->method)) {
+        cJSON_Delete(root);
+        return NOSTR_ERR_JSON_PARSE;
     }
 
-    cJSON* params = cJSON_GetObjectItem(root, "params");
+    cJSON* params = cJSON_GetObjectItemCaseSensitive(root, "params");
     if (params) {
         char* params_str = cJSON_PrintUnformatted(params);
-        if (params_str) {
-            request->params = params_str;
-            request->params_len = strlen(params_str);
+        if (!params_str) {
+            cJSON_Delete(root);
+            return NOSTR_ERR_MEMORY;
         }
+        request->params = params_str;
+        request->params_len = strlen(params_str);
     }
 
+    strcpy(request->id, id->valuestring);
+    strcpy(request->method, method->valuestring);
+
     cJSON_Delete(root);
     return NOSTR_OK;
 #else
-- 
2.43.0


From aeab8a848246d7b52005547e84dc6fbc07d43443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:28 +0000
Subject: [PATCH 89/92] fix: send remote signing responses whole, or not at all

---
 src/nip46.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/nip46.c b/src/nip46.c
index 7d838e8..03f6c8d 100644
--- a/src/nip46.c
+++ b/src/nip46.c
@@ -87,15 +87,15 @@ nostr_error_t nostr_nip46_create_response(const nostr_nip46_response_t* response
         return NOSTR_ERR_MEMORY;
     }
 
-    cJSON_AddStringToObject(content_obj, "id", response->id);
+    cJSON* added = cJSON_AddStringToObject(content_obj, "id", response->id);
 
-    if (response->error) {
-        cJSON_AddStringToObject(content_obj, "error", response->error);
-    } else if (response->result) {
-        cJSON_AddStringToObject(content_obj, "result", response->result);
+    if (added && response->error) {
+        added = cJSON_AddStringToObject(content_obj, "error", response->error);
+    } else if (added && response->result) {
+        added = cJSON_AddStringToObject(content_obj, "result", response->result);
     }
 
-    char* content_str = cJSON_PrintUnformatted(content_obj);
+    char* content_str = added ? cJSON_PrintUnformatted(content_obj) : NULL;
     cJSON_Delete(content_obj);
     if (!content_str) {
         return NOSTR_ERR_MEMORY;
@@ -127,9 +127,10 @@ nostr_error_t nostr_nip46_create_response(const nostr_nip46_response_t* response
     char pubkey_hex[65];
     nostr_key_to_hex(recipient_pubkey, pubkey_hex, sizeof(pubkey_hex));
     const char* p_tag[] = {"p", pubkey_hex};
-    nostr_event_add_tag(*event_out, p_tag, 2);
-
-    err = nostr_event_compute_id(*event_out);
+    err = nostr_event_add_tag(*event_out, p_tag, 2);
+    if (err == NOSTR_OK) {
+        err = nostr_event_compute_id(*event_out);
+    }
     if (err != NOSTR_OK) {
         nostr_event_destroy(*event_out);
         *event_out = NULL;
-- 
2.43.0


From b883bd80314f613a04c59edc24d0ba544421061d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:24 +0000
Subject: [PATCH 90/92] fix: refuse remote signing requests with text after
 them

---
 src/nip46.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nip46.c b/src/nip46.c
index 03f6c8d..fd0e060 100644
--- a/src/nip46.c
+++ b/src/nip46.c
@@ -34,7 +34,7 @@ nostr_error_t nostr_nip46_parse_request(const nostr_event* event,
     }
 
 #ifdef HAVE_CJSON
-    cJSON* root = cJSON_Parse(decrypted);
+    cJSON* root = cJSON_ParseWithOpts(decrypted, NULL, 1);
     free(decrypted);
     if (!root) {
         return NOSTR_ERR_JSON_PARSE;
-- 
2.43.0


From 75d569d5ef061a70bd389225901d4978131371de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:24 +0000
Subject: [PATCH 91/92] fix: refuse wallet messages with text after them

---
 src/nip47.c          | 4 ++--
 src/nip47_commands.c | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/nip47.c b/src/nip47.c
index c4905dc..0b5b7a9 100644
--- a/src/nip47.c
+++ b/src/nip47.c
@@ -581,7 +581,7 @@ nostr_error_t nostr_nip47_parse_response_event(const nostr_event* event, const n
     }
     
 #ifdef HAVE_CJSON
-    cJSON* root = cJSON_Parse(decrypted);
+    cJSON* root = cJSON_ParseWithOpts(decrypted, NULL, 1);
     if (!root) {
         free(decrypted);
         return NOSTR_ERR_INVALID_PARAM;
@@ -775,7 +775,7 @@ nostr_error_t nostr_nip47_parse_notification_event(const nostr_event* event, con
     }
     
 #ifdef HAVE_CJSON
-    cJSON* root = cJSON_Parse(decrypted);
+    cJSON* root = cJSON_ParseWithOpts(decrypted, NULL, 1);
     if (!root) {
         free(decrypted);
         return NOSTR_ERR_INVALID_PARAM;
diff --git a/src/nip47_commands.c b/src/nip47_commands.c
index 468f84c..d7aedd8 100644
--- a/src/nip47_commands.c
+++ b/src/nip47_commands.c
@@ -435,7 +435,7 @@ nostr_error_t nostr_nip47_parse_balance_response(const char* result_json, uint64
     }
     
 #ifdef HAVE_CJSON
-    cJSON* root = cJSON_Parse(result_json);
+    cJSON* root = cJSON_ParseWithOpts(result_json, NULL, 1);
     if (!root) {
         return NOSTR_ERR_INVALID_PARAM;
     }
@@ -468,7 +468,7 @@ nostr_error_t nostr_nip47_parse_pay_invoice_response(const char* result_json, ch
     }
     
 #ifdef HAVE_CJSON
-    cJSON* root = cJSON_Parse(result_json);
+    cJSON* root = cJSON_ParseWithOpts(result_json, NULL, 1);
     if (!root) {
         return NOSTR_ERR_INVALID_PARAM;
     }
@@ -528,7 +528,7 @@ nostr_error_t nostr_nip47_parse_info_response(const char* result_json, char** al
     }
     
 #ifdef HAVE_CJSON
-    cJSON* root = cJSON_Parse(result_json);
+    cJSON* root = cJSON_ParseWithOpts(result_json, NULL, 1);
     if (!root) {
         return NOSTR_ERR_INVALID_PARAM;
     }
-- 
2.43.0


From 63347175ea3facd7038e5f430e6d040db61110b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:24 +0000
Subject: [PATCH 92/92] fix: initialize under the lock before NIP-44 uses the
 context

---
 src/nip44.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/nip44.c b/src/nip44.c
index 4fce4fc..c9622eb 100644
--- a/src/nip44.c
+++ b/src/nip44.c
@@ -239,11 +239,9 @@ nostr_error_t nostr_nip44_encrypt(const nostr_privkey* sender_privkey, const nos
         return NOSTR_ERR_INVALID_PARAM;
     }
 
-    if (!nc_ctx) {
-        nostr_error_t err = nostr_init();
-        if (err != NOSTR_OK) {
-            return err;
-        }
+    nostr_error_t init_err = nostr_init();
+    if (init_err != NOSTR_OK) {
+        return init_err;
     }
 
     uint32_t iv_size = NCEncryptionGetIvSize(NC_ENC_VERSION_NIP44);
@@ -356,11 +354,9 @@ nostr_error_t nostr_nip44_decrypt(const nostr_privkey* recipient_privkey, const
         return NOSTR_ERR_INVALID_PARAM;
     }
     
-    if (!nc_ctx) {
-        nostr_error_t err = nostr_init();
-        if (err != NOSTR_OK) {
-            return err;
-        }
+    nostr_error_t init_err = nostr_init();
+    if (init_err != NOSTR_OK) {
+        return init_err;
     }
     
     if (ciphertext[0] == '#') {
-- 
2.43.0

