From 7d6be2fcd249a29520546eae6baf497716de711b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:27 +0000
Subject: [PATCH 01/35] fix: decide list emptiness and position under the lock

mcp_list_pop_front, mcp_list_pop_back and mcp_list_move_to_front looked at
the head or tail before taking the lock. Another thread could empty or
reorder the list in between, giving a NULL dereference or a cyclic list.
mcp_list_insert_after dropped the lock before appending after the tail, so
the new element could end up elsewhere.
---
 src/common/mcp_list.c | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/common/mcp_list.c b/src/common/mcp_list.c
index 61289d3..28a9e2c 100644
--- a/src/common/mcp_list.c
+++ b/src/common/mcp_list.c
@@ -264,12 +264,18 @@ void* mcp_list_remove(mcp_list_t* list, mcp_list_node_t* node, void (*free_data)
 }
 
 void* mcp_list_pop_front(mcp_list_t* list) {
-    if (!list || !list->head) return NULL;
+    if (!list) return NULL;
 
     // Lock
     MCP_LIST_LOCK(list);
 
     mcp_list_node_t* node = list->head;
+    if (!node) {
+        // List is empty (checked under the lock, another thread may have emptied it)
+        MCP_LIST_UNLOCK(list);
+        return NULL;
+    }
+
     void* data = node->data;
 
     list->head = node->next;
@@ -293,12 +299,18 @@ void* mcp_list_pop_front(mcp_list_t* list) {
 }
 
 void* mcp_list_pop_back(mcp_list_t* list) {
-    if (!list || !list->tail) return NULL;
+    if (!list) return NULL;
 
     // Lock
     MCP_LIST_LOCK(list);
 
     mcp_list_node_t* node = list->tail;
+    if (!node) {
+        // List is empty (checked under the lock, another thread may have emptied it)
+        MCP_LIST_UNLOCK(list);
+        return NULL;
+    }
+
     void* data = node->data;
 
     list->tail = node->prev;
@@ -322,11 +334,17 @@ void* mcp_list_pop_back(mcp_list_t* list) {
 }
 
 void mcp_list_move_to_front(mcp_list_t* list, mcp_list_node_t* node) {
-    if (!list || !node || node == list->head) return;
+    if (!list || !node) return;
 
     // Lock
     MCP_LIST_LOCK(list);
 
+    // Already at the front (checked under the lock, another thread may have moved it)
+    if (node == list->head) {
+        MCP_LIST_UNLOCK(list);
+        return;
+    }
+
     // Remove node from its current position
     if (node->prev) {
         node->prev->next = node->next;
@@ -471,13 +489,6 @@ mcp_list_node_t* mcp_list_insert_after(mcp_list_t* list, mcp_list_node_t* pos, v
     // Lock
     MCP_LIST_LOCK(list);
 
-    // If position is the tail node, insert at the back
-    if (pos == list->tail) {
-        // Unlock
-        MCP_LIST_UNLOCK(list);
-        return mcp_list_push_back(list, data);
-    }
-
     // Allocate new node
     mcp_list_node_t* node = mcp_list_node_alloc();
     if (!node) {
@@ -495,6 +506,9 @@ mcp_list_node_t* mcp_list_insert_after(mcp_list_t* list, mcp_list_node_t* pos, v
     // Update adjacent nodes
     if (pos->next) {
         pos->next->prev = node;
+    } else {
+        // Position was the tail
+        list->tail = node;
     }
     pos->next = node;
 
-- 
2.43.0


From de1c0677b37a70c4325d6753741575256db37feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:42 +0000
Subject: [PATCH 02/35] fix: refuse an origin that is too long to check, check
 it for DELETE

An Origin header longer than the buffer was treated as if the request had
named no origin, so origin checking was skipped. Session termination did not
check the origin at all.
---
 src/transport/mcp_sthttp_callbacks.c | 19 +++++++++++++++----
 src/transport/mcp_sthttp_threads.c   |  7 +++++++
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/transport/mcp_sthttp_callbacks.c b/src/transport/mcp_sthttp_callbacks.c
index 8a89b14..52254f1 100644
--- a/src/transport/mcp_sthttp_callbacks.c
+++ b/src/transport/mcp_sthttp_callbacks.c
@@ -16,7 +16,7 @@ static int handle_http_body_completion(struct lws* wsi, sthttp_transport_data_t*
                                       sthttp_session_data_t* session);
 static int handle_closed_http(struct lws* wsi, sthttp_transport_data_t* data, 
                              sthttp_session_data_t* session);
-static void extract_origin_header(struct lws* wsi, sthttp_session_data_t* session);
+static bool extract_origin_header(struct lws* wsi, sthttp_session_data_t* session);
 static void extract_session_header(struct lws* wsi, sthttp_session_data_t* session);
 
 /**
@@ -49,7 +49,10 @@ static int lws_callback_sthttp(struct lws* wsi, enum lws_callback_reasons reason
                 mcp_log_info("HTTP streamable request: %s", uri);
 
                 // Extract headers
-                extract_origin_header(wsi, session);
+                if (!extract_origin_header(wsi, session) && data != NULL && data->validate_origin) {
+                    // An origin that cannot be checked must not pass as "no origin"
+                    return send_http_error_response(wsi, HTTP_STATUS_BAD_REQUEST, "Origin not allowed");
+                }
                 extract_session_header(wsi, session);
 
                 return handle_http_request(wsi, data, session, uri);
@@ -292,10 +295,12 @@ static int handle_closed_http(struct lws* wsi, sthttp_transport_data_t* data,
 
 /**
  * @brief Extract Origin header
+ *
+ * @return false if the request names an origin that does not fit the buffer
  */
-static void extract_origin_header(struct lws* wsi, sthttp_session_data_t* session) {
+static bool extract_origin_header(struct lws* wsi, sthttp_session_data_t* session) {
     if (wsi == NULL || session == NULL) {
-        return;
+        return true;
     }
 
     int origin_len = lws_hdr_copy(wsi, session->origin, sizeof(session->origin), WSI_TOKEN_ORIGIN);
@@ -303,7 +308,13 @@ static void extract_origin_header(struct lws* wsi, sthttp_session_data_t* sessio
         mcp_log_debug("Origin header: %s", session->origin);
     } else {
         session->origin[0] = '\0';
+        if (lws_hdr_total_length(wsi, WSI_TOKEN_ORIGIN) > 0) {
+            mcp_log_warn("Origin header too long");
+            return false;
+        }
     }
+
+    return true;
 }
 
 /**
diff --git a/src/transport/mcp_sthttp_threads.c b/src/transport/mcp_sthttp_threads.c
index 3aa7d98..70692ec 100644
--- a/src/transport/mcp_sthttp_threads.c
+++ b/src/transport/mcp_sthttp_threads.c
@@ -432,6 +432,13 @@ int handle_mcp_delete_request(struct lws* wsi, sthttp_transport_data_t* data, st
         return -1;
     }
 
+    // Validate origin if required
+    if (data->validate_origin && session_data->origin[0] != '\0') {
+        if (!validate_origin(data, session_data->origin)) {
+            return send_http_error_response(wsi, HTTP_STATUS_BAD_REQUEST, "Origin not allowed");
+        }
+    }
+
     // Session termination requires a session ID
     if (!session_data->has_session || data->session_manager == NULL) {
         return send_http_error_response(wsi, HTTP_STATUS_BAD_REQUEST, "Session termination requires a session");
-- 
2.43.0


From 88906c020ee9fb223f0eca8340f82c54de43b760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:59 +0000
Subject: [PATCH 03/35] fix: authenticate every request of a batch by its own
 credentials

---
 src/server/mcp_server_dispatch.c | 133 +++++++++++++------------------
 1 file changed, 55 insertions(+), 78 deletions(-)

diff --git a/src/server/mcp_server_dispatch.c b/src/server/mcp_server_dispatch.c
index 2aad825..93742ad 100644
--- a/src/server/mcp_server_dispatch.c
+++ b/src/server/mcp_server_dispatch.c
@@ -71,6 +71,48 @@ char* handle_ping_request(mcp_server_t* server, mcp_arena_t* arena, const mcp_re
     return response;
 }
 
+/**
+ * @internal
+ * @brief Authenticates one request from the credentials it carries itself.
+ *
+ * @param server The server instance.
+ * @param request The parsed request.
+ * @param[out] auth_context Set to the identity of the request, or to NULL for an
+ *                          unauthenticated ping, which needs no identity.
+ * @return 0 if the request may be handled, non-zero if authentication failed.
+ */
+static int authenticate_request(mcp_server_t* server, const mcp_request_t* request, mcp_auth_context_t** auth_context) {
+    mcp_auth_type_t required_auth_type = (server->config.api_key != NULL && strlen(server->config.api_key) > 0)
+                                           ? MCP_AUTH_API_KEY
+                                           : MCP_AUTH_NONE;
+    const char* credentials = NULL;
+    mcp_json_t* params_json = NULL;
+    *auth_context = NULL;
+
+    if (required_auth_type == MCP_AUTH_API_KEY) {
+        params_json = mcp_json_parse(request->params);
+        if (params_json && mcp_json_get_type(params_json) == MCP_JSON_OBJECT) {
+            mcp_json_t* key_node = mcp_json_object_get_property(params_json, "apiKey");
+            if (key_node && mcp_json_get_type(key_node) == MCP_JSON_STRING) {
+                mcp_json_get_string(key_node, &credentials);
+            }
+        }
+    }
+
+    int verify_result = mcp_auth_verify(server, required_auth_type, credentials, auth_context);
+    mcp_json_destroy(params_json); // Nodes stay in the arena, string contents are released
+    if (verify_result == 0) {
+        return 0;
+    }
+
+    // Ping is a connection check and may proceed without an identity
+    if (request->method != NULL && strcmp(request->method, "ping") == 0) {
+        mcp_log_debug("Allowing unauthenticated ping request");
+        return 0;
+    }
+    return -1;
+}
+
 /**
  * @internal
  * @brief Parses and handles a single incoming message.
@@ -151,79 +193,6 @@ char* handle_message(mcp_server_t* server, const void* data, size_t size, int* e
         return create_error_response(0, MCP_ERROR_PARSE_ERROR, "Parse error");
     }
 
-    // --- Authentication (Simplified for Batch - Authenticate once based on first request?) ---
-    // TODO: Implement more granular auth per request in batch if needed.
-    mcp_auth_context_t* auth_context = NULL;
-    mcp_auth_type_t required_auth_type = (server->config.api_key != NULL && strlen(server->config.api_key) > 0)
-                                           ? MCP_AUTH_API_KEY
-                                           : MCP_AUTH_NONE;
-    const char* credentials = NULL;
-    uint64_t first_request_id = 0; // For potential batch auth error response
-    bool is_ping_request = false;
-
-    if (message_count > 0 && messages[0].type == MCP_MESSAGE_TYPE_REQUEST) {
-        first_request_id = messages[0].request.id;
-
-        // Check if this is a ping request (special case for authentication)
-        if (messages[0].request.method != NULL && strcmp(messages[0].request.method, "ping") == 0) {
-            is_ping_request = true;
-            mcp_log_debug("Detected ping request, using relaxed authentication");
-        }
-
-        if (required_auth_type == MCP_AUTH_API_KEY) {
-            mcp_json_t* params_json = mcp_json_parse(messages[0].request.params);
-            if (params_json && mcp_json_get_type(params_json) == MCP_JSON_OBJECT) {
-                mcp_json_t* key_node = mcp_json_object_get_property(params_json, "apiKey");
-                if (key_node && mcp_json_get_type(key_node) == MCP_JSON_STRING) {
-                    mcp_json_get_string(key_node, &credentials);
-                }
-            }
-            // Arena handles params_json cleanup
-        }
-    }
-
-    // For ping requests, we'll create a special anonymous auth context if authentication fails
-    if (mcp_auth_verify(server, required_auth_type, credentials, &auth_context) != 0) {
-        if (is_ping_request) {
-            // For ping requests, create a special anonymous auth context
-            mcp_log_debug("Creating anonymous auth context for ping request");
-            auth_context = (mcp_auth_context_t*)calloc(1, sizeof(mcp_auth_context_t));
-            if (auth_context) {
-                auth_context->type = MCP_AUTH_NONE;
-                auth_context->identifier = mcp_strdup("ping_anonymous");
-
-                // Add minimal permissions for ping
-                auth_context->allowed_resources = (char**)malloc(sizeof(char*));
-                if (auth_context->allowed_resources) {
-                    auth_context->allowed_resources_count = 1;
-                    auth_context->allowed_resources[0] = mcp_strdup("*");
-                }
-
-                auth_context->allowed_tools = (char**)malloc(sizeof(char*));
-                if (auth_context->allowed_tools) {
-                    auth_context->allowed_tools_count = 1;
-                    auth_context->allowed_tools[0] = mcp_strdup("*");
-                }
-            }
-        } else {
-            // For non-ping requests, fail with authentication error
-            mcp_log_warn("Authentication failed for incoming message/batch.");
-            *error_code = MCP_ERROR_INVALID_REQUEST; // Generic auth failure
-            // For batch, JSON-RPC spec is unclear on error response format.
-            // Sending a single error response might be appropriate.
-            char* error_response = create_error_response(first_request_id, *error_code, "Authentication failed");
-            mcp_json_free_message_array(messages, message_count); // Free parsed messages
-            // No need to destroy the thread-local arena, just reset it
-            mcp_arena_reset_current_thread();
-#ifdef MCP_ENABLE_PROFILING
-            PROFILE_END("handle_message");
-#endif
-            return error_response;
-        }
-    }
-    mcp_log_debug("Authentication successful (Identifier: %s)", auth_context ? auth_context->identifier : "N/A");
-    // --- End Authentication Check ---
-
     char* final_response_str = NULL;
     dyn_buf_t response_batch_buf; // Use dynamic buffer for batch response array
     bool is_batch_response = false;
@@ -273,8 +242,19 @@ char* handle_message(mcp_server_t* server, const void* data, size_t size, int* e
                              (unsigned long long)current_msg->request.id);
             }
 
-            // Handle the request
-            single_response_str = handle_request(server, arena, &current_msg->request, auth_context, &current_msg_error);
+            // Handle the request if the credentials it carries are accepted
+            mcp_auth_context_t* auth_context = NULL;
+            if (authenticate_request(server, &current_msg->request, &auth_context) == 0) {
+                single_response_str = handle_request(server, arena, &current_msg->request, auth_context, &current_msg_error);
+                mcp_auth_context_free(auth_context);
+            } else {
+                mcp_log_warn("Authentication failed for incoming request.");
+                current_msg_error = MCP_ERROR_INVALID_REQUEST; // Generic auth failure
+                single_response_str = create_error_response(current_msg->request.id, current_msg_error, "Authentication failed");
+                if (!is_batch_response) {
+                    *error_code = current_msg_error;
+                }
+            }
             // Process the response
             if (single_response_str != NULL) {
                 if (is_batch_response && batch_buffer_initialized) {
@@ -339,9 +319,6 @@ char* handle_message(mcp_server_t* server, const void* data, size_t size, int* e
     // Free the parsed message array and its contents
     mcp_json_free_message_array(messages, message_count);
 
-    // Free the authentication context
-    mcp_auth_context_free(auth_context);
-
     // No need to destroy the thread-local arena, just reset it
     mcp_arena_reset_current_thread();
 
-- 
2.43.0


From 1f81981271fbee7e5f5b518b0b1b6fd30afb4610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:59 +0000
Subject: [PATCH 04/35] fix: compare the performance metrics method names in
 full

---
 src/server/mcp_server_dispatch.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/mcp_server_dispatch.c b/src/server/mcp_server_dispatch.c
index 93742ad..e30b5f7 100644
--- a/src/server/mcp_server_dispatch.c
+++ b/src/server/mcp_server_dispatch.c
@@ -432,10 +432,10 @@ char* handle_request(mcp_server_t* server, mcp_arena_t* arena, const mcp_request
     else if (method_len == 23 && memcmp(method, "list_resource_templates", 23) == 0) {
         return handle_list_resource_templates_request(server, arena, request, auth_context, error_code);
     }
-    else if (method_len == 22 && memcmp(method, "get_performance_metrics", 22) == 0) {
+    else if (method_len == 23 && memcmp(method, "get_performance_metrics", 23) == 0) {
         return handle_get_performance_metrics_request(server, arena, request, auth_context, error_code);
     }
-    else if (method_len == 24 && memcmp(method, "reset_performance_metrics", 24) == 0) {
+    else if (method_len == 25 && memcmp(method, "reset_performance_metrics", 25) == 0) {
         return handle_reset_performance_metrics_request(server, arena, request, auth_context, error_code);
     }
     else {
-- 
2.43.0


From 9d915d9ab2ed897c322831dd2af70ab4b73368e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:59 +0000
Subject: [PATCH 05/35] fix: keep every element of a batch in place, release
 the parsed document

---
 src/json/mcp_json_message.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/json/mcp_json_message.c b/src/json/mcp_json_message.c
index 6419db5..f406b24 100644
--- a/src/json/mcp_json_message.c
+++ b/src/json/mcp_json_message.c
@@ -575,7 +575,7 @@ int mcp_json_parse_message_or_batch(const char* json_str, mcp_message_t** messag
                     (*messages)[i].type = MCP_MESSAGE_TYPE_INVALID;
                 }
 
-                *count = 0; // Track successfully parsed messages
+                *count = batch_size; // Elements that fail to parse keep their place as invalid messages
 
                 // Process batch items in parallel chunks for better performance on large batches
                 const size_t CHUNK_SIZE = 16; // Process this many items at once
@@ -590,9 +590,7 @@ int mcp_json_parse_message_or_batch(const char* json_str, mcp_message_t** messag
 
                         if (item_json != NULL && item_json->type == MCP_JSON_OBJECT) {
                             // Parse the individual message object
-                            if (parse_single_message_from_json(item_json, &(*messages)[i]) == 0) {
-                                (*count)++; // Increment count only if parsing succeeded
-                            } else {
+                            if (parse_single_message_from_json(item_json, &(*messages)[i]) != 0) {
                                 // Parsing failed, ensure contents are released
                                 mcp_message_release_contents(&(*messages)[i]);
                                 (*messages)[i].type = MCP_MESSAGE_TYPE_INVALID;
@@ -612,7 +610,9 @@ int mcp_json_parse_message_or_batch(const char* json_str, mcp_message_t** messag
         result = MCP_ERROR_INVALID_REQUEST;
     }
 
-    // Arena cleanup is handled by the caller
+    // The messages hold copies: release the strings, arrays and tables of the
+    // document. Arena cleanup is handled by the caller.
+    mcp_json_destroy(root_json);
     PROFILE_END("mcp_json_parse_batch");
     return result;
 }
-- 
2.43.0


From 2e7f7e48a9b59545646d1b0640df011e1dc66630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:34 +0000
Subject: [PATCH 06/35] fix: reject ids and error codes a JSON number cannot
 carry exactly

---
 src/json/mcp_json_message.c | 52 ++++++++++++++++++++++++++++---------
 src/json/mcp_json_rpc.c     |  2 +-
 2 files changed, 41 insertions(+), 13 deletions(-)

diff --git a/src/json/mcp_json_message.c b/src/json/mcp_json_message.c
index f406b24..909e3b3 100644
--- a/src/json/mcp_json_message.c
+++ b/src/json/mcp_json_message.c
@@ -2,6 +2,8 @@
 #include <stdlib.h>
 #include <string.h>
 #include <stdio.h>
+#include <math.h>
+#include <limits.h>
 #include "mcp_string_utils.h"
 #include <inttypes.h>
 
@@ -10,6 +12,29 @@
 // the main JSON structure, but still use malloc/mcp_strdup for strings within
 // the mcp_message_t struct and for the stringified result/params.
 
+// Largest integer up to which every integer is a distinct double
+#define MCP_JSON_MAX_SAFE_ID 9007199254740991.0
+
+// Converts a JSON number to a message id; fails unless it is exactly an id
+static bool json_number_to_id(const mcp_json_t* node, uint64_t* id) {
+    double value = node->number_value;
+    if (!(value >= 0 && value <= MCP_JSON_MAX_SAFE_ID) || value != floor(value)) {
+        return false;
+    }
+    *id = (uint64_t)value;
+    return true;
+}
+
+// Converts a JSON number to an error code; fails unless it is an int
+static bool json_number_to_error_code(const mcp_json_t* node, mcp_error_code_t* code) {
+    double value = node->number_value;
+    if (!(value >= INT_MIN && value <= INT_MAX) || value != floor(value)) {
+        return false;
+    }
+    *code = (mcp_error_code_t)(int)value;
+    return true;
+}
+
 int mcp_json_parse_message(const char* json_str, mcp_message_t* message) {
     if (json_str == NULL || message == NULL) {
         return -1;
@@ -42,11 +67,12 @@ int mcp_json_parse_message(const char* json_str, mcp_message_t* message) {
     if (method != NULL && method->type == MCP_JSON_STRING) {
         if (id != NULL) { // Must have ID for request
             // Check ID type (integer or string allowed by spec, but we use uint64_t)
-            if (id->type == MCP_JSON_NUMBER) { // || id->type == MCP_JSON_STRING) { // Allow string ID? No, use number for now.
+            uint64_t request_id;
+            if (id->type == MCP_JSON_NUMBER && json_number_to_id(id, &request_id)) { // Allow string ID? No, use number for now.
                 // Check params type (object or array allowed, or omitted)
                 if (params == NULL || params->type == MCP_JSON_OBJECT || params->type == MCP_JSON_ARRAY) {
                     message->type = MCP_MESSAGE_TYPE_REQUEST;
-                    message->request.id = (uint64_t)id->number_value; // TODO: Handle potential precision loss or non-integer?
+                    message->request.id = request_id;
                     message->request.method = mcp_strdup(method->string_value); // Use helper
                     message->request.params = (params != NULL) ? mcp_json_stringify(params) : NULL; // Stringify uses malloc
 
@@ -83,9 +109,10 @@ int mcp_json_parse_message(const char* json_str, mcp_message_t* message) {
     // --- Response Check ---
     } else if (id != NULL && (result != NULL || error != NULL)) { // Response
         // Check ID type
-        if (id->type == MCP_JSON_NUMBER) { // || id->type == MCP_JSON_STRING) { // Allow string ID? No.
+        uint64_t response_id;
+        if (id->type == MCP_JSON_NUMBER && json_number_to_id(id, &response_id)) { // Allow string ID? No.
             message->type = MCP_MESSAGE_TYPE_RESPONSE;
-            message->response.id = (uint64_t)id->number_value; // TODO: Handle potential precision loss?
+            message->response.id = response_id;
 
             if (error != NULL && error->type == MCP_JSON_OBJECT) { // Error Response
                 if (result != NULL) {
@@ -95,10 +122,9 @@ int mcp_json_parse_message(const char* json_str, mcp_message_t* message) {
                     mcp_json_t* code = mcp_json_object_get_property(error, "code");
                     mcp_json_t* msg = mcp_json_object_get_property(error, "message");
                     // Code MUST be an integer
-                    if (code != NULL && code->type == MCP_JSON_NUMBER) { // TODO: Check if integer?
+                    if (code != NULL && code->type == MCP_JSON_NUMBER && json_number_to_error_code(code, &message->response.error_code)) {
                         // Message MUST be a string
                         if (msg != NULL && msg->type == MCP_JSON_STRING) {
-                            message->response.error_code = (mcp_error_code_t)(int)code->number_value;
                             message->response.error_message = mcp_strdup(msg->string_value); // Use helper
                             message->response.result = NULL;
                             if (message->response.error_message != NULL) {
@@ -416,10 +442,11 @@ static int parse_single_message_from_json(mcp_json_t* json, mcp_message_t* messa
     // --- Request Check ---
     if (method != NULL && method->type == MCP_JSON_STRING) {
         if (id != NULL) { // Request
-            if (id->type == MCP_JSON_NUMBER) {
+            uint64_t request_id;
+            if (id->type == MCP_JSON_NUMBER && json_number_to_id(id, &request_id)) {
                 if (params == NULL || params->type == MCP_JSON_OBJECT || params->type == MCP_JSON_ARRAY) {
                     message->type = MCP_MESSAGE_TYPE_REQUEST;
-                    message->request.id = (uint64_t)id->number_value;
+                    message->request.id = request_id;
                     message->request.method = mcp_strdup(method->string_value);
                     message->request.params = (params != NULL) ? mcp_json_stringify(params) : NULL; // Still uses malloc
                     if (message->request.method != NULL && (params == NULL || message->request.params != NULL)) {
@@ -445,17 +472,18 @@ static int parse_single_message_from_json(mcp_json_t* json, mcp_message_t* messa
         }
     // --- Response Check ---
     } else if (id != NULL && (result != NULL || error != NULL)) { // Response
-        if (id->type == MCP_JSON_NUMBER) {
+        uint64_t response_id;
+        if (id->type == MCP_JSON_NUMBER && json_number_to_id(id, &response_id)) {
             message->type = MCP_MESSAGE_TYPE_RESPONSE;
-            message->response.id = (uint64_t)id->number_value;
+            message->response.id = response_id;
             if (error != NULL && error->type == MCP_JSON_OBJECT) { // Error Response
                 if (result != NULL)
                     message->type = MCP_MESSAGE_TYPE_INVALID;
                 else {
                     mcp_json_t* code = mcp_json_object_get_property(error, "code");
                     mcp_json_t* msg = mcp_json_object_get_property(error, "message");
-                    if (code != NULL && code->type == MCP_JSON_NUMBER && msg != NULL && msg->type == MCP_JSON_STRING) {
-                        message->response.error_code = (mcp_error_code_t)(int)code->number_value;
+                    if (code != NULL && code->type == MCP_JSON_NUMBER && msg != NULL && msg->type == MCP_JSON_STRING &&
+                        json_number_to_error_code(code, &message->response.error_code)) {
                         message->response.error_message = mcp_strdup(msg->string_value);
                         message->response.result = NULL;
                         if (message->response.error_message != NULL) {
diff --git a/src/json/mcp_json_rpc.c b/src/json/mcp_json_rpc.c
index 621d257..0d5cf19 100644
--- a/src/json/mcp_json_rpc.c
+++ b/src/json/mcp_json_rpc.c
@@ -320,7 +320,7 @@ int mcp_json_parse_response(
     // Get id
     double id_value;
     if (get_number_property(json, "id", &id_value) != 0 ||
-        id_value < 0 || id_value != floor(id_value) || id_value > (double)UINT64_MAX) {
+        id_value < 0 || id_value != floor(id_value) || id_value > 9007199254740991.0 /* larger ones are not exact */) {
         mcp_json_destroy(json);
         return -1;
     }
-- 
2.43.0


From 163225968a12426aa224ccc1a25a37b927a631a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:35 +0000
Subject: [PATCH 07/35] fix: count a request out on every exit and wake the
 shutdown

---
 src/server/mcp_server.c      | 11 ++++--
 src/server/mcp_server_task.c | 71 ++++++++++++++++++++----------------
 2 files changed, 47 insertions(+), 35 deletions(-)

diff --git a/src/server/mcp_server.c b/src/server/mcp_server.c
index 150c64f..a4c61bb 100644
--- a/src/server/mcp_server.c
+++ b/src/server/mcp_server.c
@@ -618,10 +618,13 @@ int mcp_server_stop(mcp_server_t* server) {
                 }
                 #else
                 // On POSIX, we can use a single timed wait with the full timeout
-                int wait_result = mcp_cond_timedwait(server->shutdown_cond, server->shutdown_mutex, timeout_ms);
-                if (wait_result == -2) {
-                    // -2 indicates timeout
-                    timed_out = true;
+                // (the last request may have finished before the mutex was taken)
+                if (server->active_requests > 0) {
+                    int wait_result = mcp_cond_timedwait(server->shutdown_cond, server->shutdown_mutex, timeout_ms);
+                    if (wait_result == -2) {
+                        // -2 indicates timeout
+                        timed_out = true;
+                    }
                 }
                 #endif
 
diff --git a/src/server/mcp_server_task.c b/src/server/mcp_server_task.c
index bfe1fd7..de11f1e 100644
--- a/src/server/mcp_server_task.c
+++ b/src/server/mcp_server_task.c
@@ -123,6 +123,31 @@ void process_message_task(void* arg) {
     PROFILE_END("process_message_task");
 }
 
+/**
+ * @brief Ends the accounting of one in-flight request
+ *
+ * Called on every path that leaves the transport callback after the request
+ * was counted. Wakes the thread waiting in shutdown when it was the last one.
+ *
+ * @param server The server instance
+ */
+static void request_finished(mcp_server_t* server) {
+#ifdef _WIN32
+    LONG remaining = InterlockedDecrement((LONG*)&server->active_requests);
+#else
+    int remaining = __sync_sub_and_fetch(&server->active_requests, 1);
+#endif
+
+    // If active_requests reached zero and server is shutting down, signal the condition variable
+    if (remaining == 0 && server->shutting_down) {
+        if (mcp_mutex_lock(server->shutdown_mutex) == 0) {
+            mcp_cond_signal(server->shutdown_cond);
+            mcp_mutex_unlock(server->shutdown_mutex);
+            mcp_log_info("Last request completed, signaling shutdown condition");
+        }
+    }
+}
+
 /**
  * @brief Callback for processing incoming transport messages
  * 
@@ -148,13 +173,6 @@ char* transport_message_callback(void* user_data, const void* data, size_t size,
     mcp_server_t* server = (mcp_server_t*)user_data;
     *error_code = MCP_ERROR_NONE;
 
-    // Check if server is shutting down
-    if (server->shutting_down) {
-        mcp_log_warn("Server is shutting down, rejecting new request");
-        *error_code = MCP_ERROR_SERVER_SHUTTING_DOWN;
-        return NULL;
-    }
-
     // Increment active request counter
 #ifdef _WIN32
     InterlockedIncrement((LONG*)&server->active_requests);
@@ -162,6 +180,15 @@ char* transport_message_callback(void* user_data, const void* data, size_t size,
     __sync_fetch_and_add(&server->active_requests, 1);
 #endif
 
+    // Check if server is shutting down (only after counting the request, so
+    // that shutdown either sees it in flight or it sees the shutdown)
+    if (server->shutting_down) {
+        mcp_log_warn("Server is shutting down, rejecting new request");
+        *error_code = MCP_ERROR_SERVER_SHUTTING_DOWN;
+        request_finished(server);
+        return NULL;
+    }
+
     // --- Rate Limiting Check ---
     // Get client IP address from transport (or use default if not available)
     const char* client_ip = mcp_transport_get_client_ip(server->transport);
@@ -181,11 +208,7 @@ char* transport_message_callback(void* user_data, const void* data, size_t size,
                 *error_code = MCP_ERROR_TOO_MANY_REQUESTS;
 
                 // Decrement active request counter since we're rejecting this request
-                #ifdef _WIN32
-                InterlockedDecrement((LONG*)&server->active_requests);
-                #else
-                __sync_fetch_and_sub(&server->active_requests, 1);
-                #endif
+                request_finished(server);
 
                 PROFILE_END("transport_message_callback");
                 return NULL;
@@ -198,11 +221,7 @@ char* transport_message_callback(void* user_data, const void* data, size_t size,
                 *error_code = MCP_ERROR_TOO_MANY_REQUESTS;
 
                 // Decrement active request counter since we're rejecting this request
-                #ifdef _WIN32
-                InterlockedDecrement((LONG*)&server->active_requests);
-                #else
-                __sync_fetch_and_sub(&server->active_requests, 1);
-                #endif
+                request_finished(server);
 
                 PROFILE_END("transport_message_callback");
                 return NULL;
@@ -217,6 +236,8 @@ char* transport_message_callback(void* user_data, const void* data, size_t size,
     if (size > max_size) {
         mcp_log_error("Received message size (%zu) exceeds limit (%zu)", size, max_size);
         *error_code = MCP_ERROR_INVALID_REQUEST;
+        request_finished(server);
+        PROFILE_END("transport_message_callback");
         return NULL;
     }
 
@@ -244,6 +265,7 @@ char* transport_message_callback(void* user_data, const void* data, size_t size,
     if (!message_copy) {
         mcp_log_error("Failed to allocate memory for message copy");
         *error_code = MCP_ERROR_INTERNAL_ERROR;
+        request_finished(server);
         PROFILE_END("transport_message_callback");
         return NULL;
     }
@@ -284,20 +306,7 @@ char* transport_message_callback(void* user_data, const void* data, size_t size,
     }
 
     // Decrement active request counter
-#ifdef _WIN32
-    LONG prev_count = InterlockedDecrement((LONG*)&server->active_requests);
-#else
-    int prev_count = __sync_fetch_and_sub(&server->active_requests, 1);
-#endif
-
-    // If active_requests reached zero and server is shutting down, signal the condition variable
-    if (prev_count == 0 && server->shutting_down) {
-        if (mcp_mutex_lock(server->shutdown_mutex) == 0) {
-            mcp_cond_signal(server->shutdown_cond);
-            mcp_mutex_unlock(server->shutdown_mutex);
-            mcp_log_info("Last request completed, signaling shutdown condition");
-        }
-    }
+    request_finished(server);
 
     PROFILE_END("transport_message_callback");
     return result; // Return the response or NULL
-- 
2.43.0


From 4c771afc992df9f829bc53a1e88146f86c34015c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:34:06 +0000
Subject: [PATCH 08/35] fix: room for the id in directly formatted requests

---
 src/json/mcp_json_rpc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/json/mcp_json_rpc.c b/src/json/mcp_json_rpc.c
index 0d5cf19..8d7045e 100644
--- a/src/json/mcp_json_rpc.c
+++ b/src/json/mcp_json_rpc.c
@@ -186,8 +186,8 @@ char* mcp_json_format_request_direct(uint64_t id, const char* method, const char
     size_t params_len = (params != NULL) ? strlen(params) : 0;
 
     // Base size: {"jsonrpc":"2.0","id":ID,"method":"METHOD"} + null terminator
-    // 32 bytes for the fixed parts + method length + 2 for quotes around method
-    size_t buffer_size = 32 + method_len + 2;
+    // 32 bytes for the fixed parts + 20 for the digits of the id + method length + 2 for quotes around method
+    size_t buffer_size = 32 + 20 + method_len + 2;
 
     // Add space for params if provided: ,"params":PARAMS
     // 11 bytes for ,"params": + params length
-- 
2.43.0


From 1469d1c2949a0c719b29b0cc8dbf6e9c53302cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:34:06 +0000
Subject: [PATCH 09/35] fix: escape every control character in JSON strings of
 messages

---
 src/common/mcp_string_utils.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/common/mcp_string_utils.c b/src/common/mcp_string_utils.c
index d94addb..95f1063 100644
--- a/src/common/mcp_string_utils.c
+++ b/src/common/mcp_string_utils.c
@@ -171,8 +171,8 @@ int dyn_buf_append_json_string(dyn_buf_t* db, const char* str) {
                 additional_len += 2;
                 break;
             default:
-                // Normal character
-                additional_len += 1;
+                // Normal character, or \u00XX for the other control characters
+                additional_len += ((unsigned char)c < 0x20) ? 6 : 1;
                 break;
         }
     }
@@ -197,7 +197,17 @@ int dyn_buf_append_json_string(dyn_buf_t* db, const char* str) {
             case '\n': *dest++ = '\\'; *dest++ = 'n'; break;
             case '\r': *dest++ = '\\'; *dest++ = 'r'; break;
             case '\t': *dest++ = '\\'; *dest++ = 't'; break;
-            default:   *dest++ = c; break;
+            default:
+                if ((unsigned char)c < 0x20) {
+                    static const char hex[] = "0123456789abcdef";
+                    memcpy(dest, "\\u00", 4);
+                    dest[4] = hex[c >> 4];
+                    dest[5] = hex[c & 15];
+                    dest += 6;
+                } else {
+                    *dest++ = c;
+                }
+                break;
         }
     }
 
-- 
2.43.0


From ae9344beca09f4f29ce5f884fc1395ab61890360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:26:05 +0000
Subject: [PATCH 10/35] fix: compute the receive buffer size of a frame in
 size_t

A frame announcing 0xFFFFFFFF bytes under a limit of UINT32_MAX wrapped the
size to zero and the body was received into a zero-byte buffer.
---
 src/common/mcp_framing.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/mcp_framing.c b/src/common/mcp_framing.c
index 54f1073..b24f4a8 100644
--- a/src/common/mcp_framing.c
+++ b/src/common/mcp_framing.c
@@ -183,7 +183,7 @@ int mcp_framing_recv_message(socket_t sock, char** message_data_out, uint32_t* m
     // 4. Allocate Buffer for Message Body (+1 for potential null terminator)
     // Note: The framing layer itself doesn't guarantee null termination,
     // but allocating +1 makes it easier for JSON/string layers above.
-    char* message_buf = (char*)malloc(message_length_host + 1);
+    char* message_buf = (char*)malloc((size_t)message_length_host + 1);
     if (message_buf == NULL) {
         mcp_log_error("mcp_framing_recv_message: Failed to allocate buffer for message size %u", message_length_host);
         return -1;
-- 
2.43.0


From 3b7a57fab804528262318c4eec7c342008e84a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:26:05 +0000
Subject: [PATCH 11/35] fix: free the temporary iovec array from its start
 after a partial send

mcp_socket_send_vectors advanced the pointer it later freed, so a send that
needed more than one call freed an interior pointer.
---
 src/common/mcp_socket_utils.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/common/mcp_socket_utils.c b/src/common/mcp_socket_utils.c
index a47e1db..3071894 100644
--- a/src/common/mcp_socket_utils.c
+++ b/src/common/mcp_socket_utils.c
@@ -796,6 +796,7 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
         temp_iov = iov;
     }
 
+    WSABUF* current_iov = temp_iov; // First entry not completely sent yet
     int current_iovcnt = iovcnt;
     int result = 0;
 
@@ -809,7 +810,7 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
             return -1;
         }
 
-        result = WSASend(sock, temp_iov, (DWORD)current_iovcnt, &bytes_sent_this_call, flags, NULL, NULL);
+        result = WSASend(sock, current_iov, (DWORD)current_iovcnt, &bytes_sent_this_call, flags, NULL, NULL);
 
         if (result == MCP_SOCKET_ERROR) {
             int error_code = mcp_socket_get_lasterror();
@@ -857,20 +858,20 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
             int i = 0;
 
             // Skip fully sent buffers
-            while (i < current_iovcnt && bytes_remaining >= temp_iov[i].len) {
-                bytes_remaining -= temp_iov[i].len;
+            while (i < current_iovcnt && bytes_remaining >= current_iov[i].len) {
+                bytes_remaining -= current_iov[i].len;
                 i++;
             }
 
             // Adjust partially sent buffer
             if (i < current_iovcnt && bytes_remaining > 0) {
-                temp_iov[i].buf += bytes_remaining;
-                temp_iov[i].len -= (ULONG)bytes_remaining;
+                current_iov[i].buf += bytes_remaining;
+                current_iov[i].len -= (ULONG)bytes_remaining;
             }
 
             // Move array pointer
             if (i > 0) {
-                temp_iov += i;
+                current_iov += i;
                 current_iovcnt -= i;
             }
         }
@@ -893,6 +894,7 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
         temp_iov = iov;
     }
 
+    struct iovec* current_iov = temp_iov; // First entry not completely sent yet
     int current_iovcnt = iovcnt;
 
     while (total_sent < total_to_send) {
@@ -905,7 +907,7 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
             return -1;
         }
 
-        ssize_t bytes_sent = writev(sock, temp_iov, current_iovcnt);
+        ssize_t bytes_sent = writev(sock, current_iov, current_iovcnt);
 
         if (bytes_sent == MCP_SOCKET_ERROR) {
             int error_code = errno;
@@ -960,20 +962,20 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
             int i = 0;
 
             // Skip fully sent buffers
-            while (i < current_iovcnt && bytes_remaining >= temp_iov[i].iov_len) {
-                bytes_remaining -= temp_iov[i].iov_len;
+            while (i < current_iovcnt && bytes_remaining >= current_iov[i].iov_len) {
+                bytes_remaining -= current_iov[i].iov_len;
                 i++;
             }
 
             // Adjust partially sent buffer
             if (i < current_iovcnt && bytes_remaining > 0) {
-                temp_iov[i].iov_base = (char*)temp_iov[i].iov_base + bytes_remaining;
-                temp_iov[i].iov_len -= bytes_remaining;
+                current_iov[i].iov_base = (char*)current_iov[i].iov_base + bytes_remaining;
+                current_iov[i].iov_len -= bytes_remaining;
             }
 
             // Move array pointer
             if (i > 0) {
-                temp_iov += i;
+                current_iov += i;
                 current_iovcnt -= i;
             }
         }
-- 
2.43.0


From 5521a5293d67117569773ac2e1926906c542583d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:04 +0000
Subject: [PATCH 12/35] fix: refuse arena requests whose size wraps around

A request close to SIZE_MAX was rounded up to zero, or wrapped around when
added to the fill of the current block, and got a pointer to too little memory.
---
 src/common/mcp_arena.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/common/mcp_arena.c b/src/common/mcp_arena.c
index 83d1fab..6859c3a 100644
--- a/src/common/mcp_arena.c
+++ b/src/common/mcp_arena.c
@@ -4,6 +4,7 @@
 #include "mcp_memory_constants.h"
 #include "mcp_thread_cache.h"
 #include "mcp_log.h"
+#include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -149,12 +150,17 @@ void* mcp_arena_alloc(mcp_arena_t* arena, size_t size) {
         }
     }
 
+    // Rounding up must not wrap around
+    if (size > SIZE_MAX - 7) {
+        return NULL;
+    }
+
     // Align size to 8 bytes for better performance
     size_t aligned_size = MCP_ARENA_ALIGN_UP(size);
 
     // Fast path for small allocations that fit in the current block
     mcp_arena_block_t* current_block = arena->current_block;
-    if (current_block && current_block->used + aligned_size <= current_block->size) {
+    if (current_block && aligned_size <= current_block->size - current_block->used) {
         void* ptr = (char*)current_block->data + current_block->used;
         current_block->used += aligned_size;
         arena->total_allocated += aligned_size;
-- 
2.43.0


From 55e9c04ad57f4eea517385cf39cc638d4619bfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:04 +0000
Subject: [PATCH 13/35] fix: cache freed blocks under their real size

A block freed with a size below 256 bytes was handed out again for any request
of up to 256 bytes, even when it came from malloc and was smaller than that.
---
 src/common/mcp_thread_cache.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/common/mcp_thread_cache.c b/src/common/mcp_thread_cache.c
index f32a1a6..594364b 100644
--- a/src/common/mcp_thread_cache.c
+++ b/src/common/mcp_thread_cache.c
@@ -716,14 +716,13 @@ void mcp_thread_cache_free(void* ptr, size_t size) {
     // Increment operation counter for adaptive sizing
     tls_operations_since_adjustment++;
 
-    // If size is 0, try to determine it from the block
+    // Cached blocks are handed out again for any size of their size class, so
+    // the real size of the block counts, not the size the caller asked for
+    size = mcp_pool_get_block_size(ptr);
+    // If we don't know the real size, we can't cache it
     if (size == 0) {
-        size = mcp_pool_get_block_size(ptr);
-        // If we still don't know the size, we can't cache it
-        if (size == 0) {
-            free(ptr);
-            return;
-        }
+        free(ptr);
+        return;
     }
 
     // Fast path for small blocks (most common case)
-- 
2.43.0


From e557f3e9cd337e354a85885f2dc2c12a3444718b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:43:50 +0000
Subject: [PATCH 14/35] fix: let a later access rule for a template replace its
 roles

A second rule for the same template was appended behind the first one and
never consulted, so roles added after a validator (or a narrower role list
added later) had no effect.
---
 src/server/mcp_template_security.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/server/mcp_template_security.c b/src/server/mcp_template_security.c
index 152232a..b93f706 100644
--- a/src/server/mcp_template_security.c
+++ b/src/server/mcp_template_security.c
@@ -146,6 +146,19 @@ int mcp_template_security_add_acl(
         }
     }
 
+    // A rule for this template may exist already (set_validator creates one):
+    // the new roles replace its roles, its validator stays
+    for (size_t i = 0; i < security->entries_count; i++) {
+        template_acl_entry_t* existing = security->entries[i];
+        if (strcmp(existing->template_uri, template_uri) == 0) {
+            entry->validator = existing->validator;
+            entry->validator_data = existing->validator_data;
+            security->entries[i] = entry;
+            template_acl_entry_free(existing);
+            return 0;
+        }
+    }
+
     // Add the entry to the security context
     security->entries[security->entries_count++] = entry;
 
-- 
2.43.0


From 9d9ececf7d1dae5f5335162e466db85124614821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:43:50 +0000
Subject: [PATCH 15/35] fix: refuse hash table capacities whose bucket array
 size overflows

Capacities above 2^60 made the bucket array size wrap around, leaving a
table whose capacity was far larger than its array.
---
 src/common/mcp_hashtable.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/common/mcp_hashtable.c b/src/common/mcp_hashtable.c
index 7b07b4f..ef08049 100644
--- a/src/common/mcp_hashtable.c
+++ b/src/common/mcp_hashtable.c
@@ -208,6 +208,12 @@ mcp_hashtable_t* mcp_hashtable_create(
         initial_capacity = next_power_of_two(initial_capacity);
     }
 
+    // Refuse a capacity with no next power of 2 or whose bucket array size would overflow
+    if (!is_power_of_two(initial_capacity) ||
+        initial_capacity > SIZE_MAX / sizeof(mcp_hashtable_entry_t*)) {
+        return NULL;
+    }
+
     // Validate load factor threshold
     if (load_factor_threshold <= 0.0f || load_factor_threshold >= 1.0f) {
         load_factor_threshold = 0.75f; // Default load factor threshold
-- 
2.43.0


From 056e49f4cbfdea1ba05338e9601504967a9ca7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:50 +0000
Subject: [PATCH 16/35] fix: refuse buffer pool sizes that overflow the block
 size

---
 src/common/mcp_buffer_pool.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/mcp_buffer_pool.c b/src/common/mcp_buffer_pool.c
index 6b550ba..c96ecc2 100644
--- a/src/common/mcp_buffer_pool.c
+++ b/src/common/mcp_buffer_pool.c
@@ -42,6 +42,10 @@ mcp_buffer_pool_t* mcp_buffer_pool_create(size_t buffer_size, size_t num_buffers
     if (buffer_size == 0 || num_buffers == 0)
         return NULL;
 
+    // The block (header plus buffer) must have a size that exists
+    if (buffer_size > SIZE_MAX - get_aligned_offset())
+        return NULL;
+
     // Allocate the main pool structure
     mcp_buffer_pool_t* pool = (mcp_buffer_pool_t*)malloc(sizeof(mcp_buffer_pool_t));
     if (pool == NULL) {
-- 
2.43.0


From af5f858c5d6fb774950b2caa19a2c35efe9bb38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:50 +0000
Subject: [PATCH 17/35] fix: refuse memory pool sizes that overflow

---
 src/common/mcp_memory_pool.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/common/mcp_memory_pool.c b/src/common/mcp_memory_pool.c
index cbc9af5..b0ff81a 100644
--- a/src/common/mcp_memory_pool.c
+++ b/src/common/mcp_memory_pool.c
@@ -57,6 +57,13 @@ mcp_memory_pool_t* mcp_memory_pool_create(size_t block_size, size_t initial_bloc
         return NULL;
     }
 
+    // A block and the initial blocks together must have a size that exists
+    if (block_size > SIZE_MAX - sizeof(mcp_block_header_t) ||
+        (initial_blocks > 0 && block_size + sizeof(mcp_block_header_t) > SIZE_MAX / initial_blocks)) {
+        mcp_log_error("Memory pool size too large: %zu blocks of %zu bytes", initial_blocks, block_size);
+        return NULL;
+    }
+
     // Allocate the pool structure
     mcp_memory_pool_t* pool = (mcp_memory_pool_t*)malloc(sizeof(mcp_memory_pool_t));
     if (!pool) {
-- 
2.43.0


From 91c23c52d5174243b2ec6dd10a6936d7d920e363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:57 +0000
Subject: [PATCH 18/35] fix: refuse object pool sizes that overflow

---
 src/common/mcp_object_pool.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/common/mcp_object_pool.c b/src/common/mcp_object_pool.c
index b4f6cc2..7933823 100644
--- a/src/common/mcp_object_pool.c
+++ b/src/common/mcp_object_pool.c
@@ -134,6 +134,13 @@ mcp_object_pool_t* mcp_object_pool_create(size_t object_size, size_t initial_cap
         mcp_log_warn("Initial capacity adjusted to max capacity (%zu)", max_capacity);
     }
 
+    // The aligned object size and the initial block must have a size that exists
+    if (object_size > SIZE_MAX - (MCP_OBJECT_ALIGN_SIZE - 1) ||
+        (initial_capacity > 0 && MCP_OBJECT_ALIGN_UP(object_size) > SIZE_MAX / initial_capacity)) {
+        mcp_log_error("Object pool size too large");
+        return NULL;
+    }
+
     // Allocate cache-aligned pool structure
     mcp_object_pool_t* pool = (mcp_object_pool_t*)aligned_malloc(sizeof(mcp_object_pool_t));
     if (!pool) {
-- 
2.43.0


From 3fb6ce9ab2f8f5b2a632044ab3e860b6a5c5ae19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:36:10 +0000
Subject: [PATCH 19/35] fix: grow the object pool under its lock so the limit
 holds

---
 src/common/mcp_object_pool.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/common/mcp_object_pool.c b/src/common/mcp_object_pool.c
index 7933823..28d545c 100644
--- a/src/common/mcp_object_pool.c
+++ b/src/common/mcp_object_pool.c
@@ -346,11 +346,12 @@ void* mcp_object_pool_acquire(mcp_object_pool_t* pool) {
         return (void*)node;
     }
 
-    // Free list is empty, try to allocate a new one if allowed
+    // Free list is empty, try to allocate a new one if allowed. The lock is held
+    // so that two threads cannot both take the last place below max_capacity.
+    // Statistics updated inside allocate_new_object
+    obj = allocate_new_object(pool);
     mcp_mutex_unlock(pool->lock);
-
-    // Allocate a new object - statistics updated inside allocate_new_object
-    return allocate_new_object(pool);
+    return obj;
 }
 
 bool mcp_object_pool_release(mcp_object_pool_t* pool, void* obj) {
-- 
2.43.0


From 2415fac53f4aa9fbe84cd0cc50ccd168e9a5dc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:44:18 +0000
Subject: [PATCH 20/35] fix: release the event index when a stream context
 cannot be created

---
 src/transport/mcp_sthttp_utils.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/transport/mcp_sthttp_utils.c b/src/transport/mcp_sthttp_utils.c
index 9fae4cb..1286c32 100644
--- a/src/transport/mcp_sthttp_utils.c
+++ b/src/transport/mcp_sthttp_utils.c
@@ -42,6 +42,7 @@ sse_stream_context_t* sse_stream_context_create(size_t max_stored_events) {
     context->mutex = mcp_mutex_create();
     if (context->mutex == NULL) {
         mcp_log_error("Failed to create SSE stream context mutex");
+        event_hash_map_destroy(context->event_hash);
         if (context->stored_events) {
             free(context->stored_events);
         }
-- 
2.43.0


From f2f50008fe28f1182e75b35b26609960997379d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:44:18 +0000
Subject: [PATCH 21/35] fix: send server-sent events of every length, one data
 field per line

Events longer than 4096 bytes were dropped, and a line end inside the data
ended the data field so that the rest was read as other fields.
---
 src/transport/mcp_sthttp_utils.c | 82 +++++++++++++++++++-------------
 1 file changed, 48 insertions(+), 34 deletions(-)

diff --git a/src/transport/mcp_sthttp_utils.c b/src/transport/mcp_sthttp_utils.c
index 1286c32..b1a4e80 100644
--- a/src/transport/mcp_sthttp_utils.c
+++ b/src/transport/mcp_sthttp_utils.c
@@ -460,6 +460,19 @@ int send_http_json_response(struct lws* wsi, const char* json_data, const char*
     return 0;
 }
 
+/**
+ * @brief Append one "field: value" line to an SSE event
+ */
+static char* append_sse_line(char* p, const char* field, const char* value, size_t length) {
+    size_t field_length = strlen(field);
+    memcpy(p, field, field_length);
+    p += field_length;
+    memcpy(p, value, length);
+    p += length;
+    *p++ = '\n';
+    return p;
+}
+
 /**
  * @brief Send SSE event
  */
@@ -468,54 +481,55 @@ int send_sse_event(struct lws* wsi, const char* event_id, const char* event_type
         return -1;
     }
 
-    char buffer[4096];
-    size_t offset = 0;
+    // Size of the event: every line of the data gets its own field name
+    size_t size = 1;
+    if (event_id != NULL) {
+        size += strlen("id: ") + strlen(event_id) + 1;
+    }
+    if (event_type != NULL) {
+        size += strlen("event: ") + strlen(event_type) + 1;
+    }
+    if (data != NULL) {
+        size += strlen("data: ") + strlen(data) + 1;
+        for (const char* c = data; *c != '\0'; c++) {
+            if (*c == '\n') {
+                size += strlen("data: ");
+            }
+        }
+    }
+
+    char* buffer = (char*)malloc(LWS_PRE + size);
+    if (buffer == NULL) {
+        mcp_log_error("Failed to allocate SSE event buffer");
+        return -1;
+    }
+    char* start = buffer + LWS_PRE; // libwebsockets wants room in front of the data
+    char* p = start;
 
     // Add event ID if provided
     if (event_id != NULL) {
-        int written = snprintf(buffer + offset, sizeof(buffer) - offset, "id: %s\n", event_id);
-        if (written < 0 || (size_t)written >= sizeof(buffer) - offset) {
-            mcp_log_error("SSE event buffer overflow (id)");
-            return -1;
-        }
-        offset += written;
+        p = append_sse_line(p, "id: ", event_id, strlen(event_id));
     }
 
     // Add event type if provided
     if (event_type != NULL) {
-        int written = snprintf(buffer + offset, sizeof(buffer) - offset, "event: %s\n", event_type);
-        if (written < 0 || (size_t)written >= sizeof(buffer) - offset) {
-            mcp_log_error("SSE event buffer overflow (event)");
-            return -1;
-        }
-        offset += written;
+        p = append_sse_line(p, "event: ", event_type, strlen(event_type));
     }
 
-    // Add data (required)
-    if (data != NULL) {
-        int written = snprintf(buffer + offset, sizeof(buffer) - offset, "data: %s\n", data);
-        if (written < 0 || (size_t)written >= sizeof(buffer) - offset) {
-            mcp_log_error("SSE event buffer overflow (data)");
-            return -1;
-        }
-        offset += written;
+    // Add data (required), line by line
+    while (data != NULL) {
+        const char* end = strchr(data, '\n');
+        p = append_sse_line(p, "data: ", data, end ? (size_t)(end - data) : strlen(data));
+        data = end ? end + 1 : NULL;
     }
 
     // Add final newline
-    if (offset < sizeof(buffer) - 1) {
-        buffer[offset++] = '\n';
-        buffer[offset] = '\0';
-    } else {
-        mcp_log_error("SSE event buffer overflow (final newline)");
-        return -1;
-    }
+    *p++ = '\n';
 
     // Send the event
-    if (lws_write(wsi, (unsigned char*)buffer, offset, LWS_WRITE_HTTP) < 0) {
-        return -1;
-    }
-
-    return 0;
+    int result = lws_write(wsi, (unsigned char*)start, (size_t)(p - start), LWS_WRITE_HTTP);
+    free(buffer);
+    return result < 0 ? -1 : 0;
 }
 
 /**
-- 
2.43.0


From fdddbbe65f728a765642e8fd246e5c48c78c3ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:46:34 +0000
Subject: [PATCH 22/35] fix: check the MQTT queue limit and append under one
 lock

---
 src/transport/mcp_mqtt_common.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/transport/mcp_mqtt_common.c b/src/transport/mcp_mqtt_common.c
index 3616521..34e2e2f 100644
--- a/src/transport/mcp_mqtt_common.c
+++ b/src/transport/mcp_mqtt_common.c
@@ -217,15 +217,6 @@ int mqtt_enqueue_message(mcp_mqtt_transport_data_t* data, const char* topic,
         return -1;
     }
     
-    // Check queue size limit
-    mcp_mutex_lock(data->message_mutex);
-    if (data->message_queue_size >= (int)data->max_queue_size) {
-        mcp_mutex_unlock(data->message_mutex);
-        mcp_log_warn("MQTT message queue is full, dropping message");
-        return -1;
-    }
-    mcp_mutex_unlock(data->message_mutex);
-    
     // Create queue entry
     mcp_mqtt_message_queue_entry_t* entry = malloc(sizeof(mcp_mqtt_message_queue_entry_t));
     if (!entry) {
@@ -251,9 +242,18 @@ int mqtt_enqueue_message(mcp_mqtt_transport_data_t* data, const char* topic,
     entry->retry_count = 0;
     entry->next = NULL;
     
-    // Add to queue
+    // Add to queue unless it is full
     mcp_mutex_lock(data->message_mutex);
 
+    if (data->message_queue_size >= (int)data->max_queue_size) {
+        mcp_mutex_unlock(data->message_mutex);
+        free(entry->topic);
+        free(entry->payload);
+        free(entry);
+        mcp_log_warn("MQTT message queue is full, dropping message");
+        return -1;
+    }
+
     if (data->message_queue_tail) {
         data->message_queue_tail->next = entry;
         data->message_queue_tail = entry;
-- 
2.43.0


From df646001f14402a80bb1e18214e06a2a0dd7c72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:46:34 +0000
Subject: [PATCH 23/35] fix: refuse MQTT messages whose topic or payload length
 cannot be sent

---
 src/transport/mcp_mqtt_common.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/transport/mcp_mqtt_common.c b/src/transport/mcp_mqtt_common.c
index 34e2e2f..715660b 100644
--- a/src/transport/mcp_mqtt_common.c
+++ b/src/transport/mcp_mqtt_common.c
@@ -217,6 +217,12 @@ int mqtt_enqueue_message(mcp_mqtt_transport_data_t* data, const char* topic,
         return -1;
     }
     
+    // MQTT carries the topic length in 16 bits and the payload length in 32
+    if (strlen(topic) > UINT16_MAX || payload_len > UINT32_MAX) {
+        mcp_log_error("MQTT message too large to publish");
+        return -1;
+    }
+
     // Create queue entry
     mcp_mqtt_message_queue_entry_t* entry = malloc(sizeof(mcp_mqtt_message_queue_entry_t));
     if (!entry) {
-- 
2.43.0


From ff6a659e4fbe084c4edcf5e0805d39663cd94108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:46:34 +0000
Subject: [PATCH 24/35] fix: keep queued MQTT messages while there is no
 connection

---
 src/transport/mcp_mqtt_common.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transport/mcp_mqtt_common.c b/src/transport/mcp_mqtt_common.c
index 715660b..305c824 100644
--- a/src/transport/mcp_mqtt_common.c
+++ b/src/transport/mcp_mqtt_common.c
@@ -286,10 +286,10 @@ int mqtt_process_message_queue(mcp_mqtt_transport_data_t* data) {
     
     mcp_mqtt_message_queue_entry_t* entry = NULL;
     
-    // Get next message from queue
+    // Get next message from queue; without a connection it stays there
     mcp_mutex_lock(data->message_mutex);
 
-    if (data->message_queue_head) {
+    if (data->wsi && data->message_queue_head) {
         entry = data->message_queue_head;
         data->message_queue_head = entry->next;
         if (!data->message_queue_head) {
-- 
2.43.0


From 9b9bdf633d73218d35b346abee252ed7cfa24a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:46:34 +0000
Subject: [PATCH 25/35] fix: release unsent MQTT messages when the transport is
 destroyed

---
 src/transport/mcp_mqtt_transport.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/transport/mcp_mqtt_transport.c b/src/transport/mcp_mqtt_transport.c
index e2426dd..68258c4 100644
--- a/src/transport/mcp_mqtt_transport.c
+++ b/src/transport/mcp_mqtt_transport.c
@@ -207,6 +207,17 @@ void mqtt_transport_data_cleanup(mcp_mqtt_transport_data_t* data) {
         data->client_sessions = NULL;
     }
 
+    // Free messages that were never sent
+    while (data->message_queue_head) {
+        mcp_mqtt_message_queue_entry_t* entry = data->message_queue_head;
+        data->message_queue_head = entry->next;
+        free(entry->topic);
+        free(entry->payload);
+        free(entry);
+    }
+    data->message_queue_tail = NULL;
+    data->message_queue_size = 0;
+
     // Destroy synchronization objects
     if (data->state_mutex) {
         mcp_mutex_destroy(data->state_mutex);
-- 
2.43.0


From c6ea434ac7e68ceacfae111f72909a75212957d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:54:04 +0000
Subject: [PATCH 26/35] fix: decode surrogate pairs in JSON strings and reject
 lone halves and NUL

---
 src/json/mcp_json_parser.c | 56 +++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 19 deletions(-)

diff --git a/src/json/mcp_json_parser.c b/src/json/mcp_json_parser.c
index db6e9bd..8307530 100644
--- a/src/json/mcp_json_parser.c
+++ b/src/json/mcp_json_parser.c
@@ -28,9 +28,8 @@ static void skip_whitespace(const char** json) {
     }
 }
 
-// Helper function to convert a 4-digit hex Unicode escape to UTF-8
-static int hex_to_utf8(const char* hex, char* utf8) {
-    // Convert 4 hex digits to a Unicode code point
+// Helper function to read the 4 hex digits of a Unicode escape
+static bool hex_to_code_unit(const char* hex, unsigned int* result) {
     unsigned int code_point = 0;
     for (int i = 0; i < 4; i++) {
         code_point <<= 4;
@@ -41,11 +40,15 @@ static int hex_to_utf8(const char* hex, char* utf8) {
         } else if (hex[i] >= 'A' && hex[i] <= 'F') {
             code_point |= hex[i] - 'A' + 10;
         } else {
-            return 0; // Invalid hex digit
+            return false; // Invalid hex digit
         }
     }
+    *result = code_point;
+    return true;
+}
 
-    // Convert code point to UTF-8
+// Helper function to convert a Unicode code point to UTF-8
+static int code_point_to_utf8(unsigned int code_point, char* utf8) {
     if (code_point < 0x80) {
         // 1-byte UTF-8 (ASCII)
         utf8[0] = (char)code_point;
@@ -55,12 +58,19 @@ static int hex_to_utf8(const char* hex, char* utf8) {
         utf8[0] = (char)(0xC0 | (code_point >> 6));
         utf8[1] = (char)(0x80 | (code_point & 0x3F));
         return 2;
-    } else {
+    } else if (code_point < 0x10000) {
         // 3-byte UTF-8
         utf8[0] = (char)(0xE0 | (code_point >> 12));
         utf8[1] = (char)(0x80 | ((code_point >> 6) & 0x3F));
         utf8[2] = (char)(0x80 | (code_point & 0x3F));
         return 3;
+    } else {
+        // 4-byte UTF-8
+        utf8[0] = (char)(0xF0 | (code_point >> 18));
+        utf8[1] = (char)(0x80 | ((code_point >> 12) & 0x3F));
+        utf8[2] = (char)(0x80 | ((code_point >> 6) & 0x3F));
+        utf8[3] = (char)(0x80 | (code_point & 0x3F));
+        return 4;
     }
 }
 
@@ -117,26 +127,34 @@ static char* parse_string(const char** json) {
                 case 't':  result[length++] = '\t'; p++; break;
                 case 'u': { // Unicode escape - convert to UTF-8
                     p++; // Skip 'u'
-                    // Validate hex digits
-                    for (int i = 0; i < 4; i++) {
-                        if (!((p[i] >= '0' && p[i] <= '9') ||
-                              (p[i] >= 'a' && p[i] <= 'f') ||
-                              (p[i] >= 'A' && p[i] <= 'F'))) {
-                            mcp_log_error("Invalid hex digit in \\u escape.");
-                            free(result);
-                            return NULL;
+                    unsigned int code_point;
+                    if (!hex_to_code_unit(p, &code_point)) {
+                        mcp_log_error("Invalid hex digit in \\u escape.");
+                        free(result);
+                        return NULL;
+                    }
+
+                    // A code point beyond the BMP is written as a surrogate pair
+                    if (code_point >= 0xD800 && code_point <= 0xDBFF) {
+                        unsigned int low;
+                        if (p[4] == '\\' && p[5] == 'u' && hex_to_code_unit(p + 6, &low) &&
+                            low >= 0xDC00 && low <= 0xDFFF) {
+                            code_point = 0x10000 + ((code_point - 0xD800) << 10) + (low - 0xDC00);
+                            p += 6; // Skip the second escape
                         }
                     }
 
-                    // Convert \uXXXX to UTF-8
-                    char utf8_buf[4]; // Max 3 bytes for BMP + null terminator
-                    int utf8_len = hex_to_utf8(p, utf8_buf);
-                    if (utf8_len == 0) {
-                        mcp_log_error("Failed to convert Unicode escape to UTF-8.");
+                    // Neither a null byte nor half a pair can be represented
+                    if (code_point == 0 || (code_point >= 0xD800 && code_point <= 0xDFFF)) {
+                        mcp_log_error("Invalid code point in \\u escape.");
                         free(result);
                         return NULL;
                     }
 
+                    // Convert \uXXXX to UTF-8
+                    char utf8_buf[4];
+                    int utf8_len = code_point_to_utf8(code_point, utf8_buf);
+
                     // Copy UTF-8 bytes to result
                     for (int i = 0; i < utf8_len; i++) {
                         result[length++] = utf8_buf[i];
-- 
2.43.0


From 605e59ea70069d9127a9ca5bc40538432bb48dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:54:04 +0000
Subject: [PATCH 27/35] fix: release the partial value tree when a JSON text is
 rejected

---
 src/json/mcp_json_parser.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/json/mcp_json_parser.c b/src/json/mcp_json_parser.c
index 8307530..9977768 100644
--- a/src/json/mcp_json_parser.c
+++ b/src/json/mcp_json_parser.c
@@ -222,13 +222,14 @@ static mcp_json_t* parse_object(const char** json, int depth) {
         skip_whitespace(json);
         char* name = parse_string(json);
         if (name == NULL) {
-            // Don't destroy object here, let caller handle cleanup via arena reset/destroy
+            mcp_json_destroy(object); // The node itself stays in the arena
             return NULL;
         }
         skip_whitespace(json);
         if (**json != ':') {
             mcp_log_error("JSON parse error: Expected ':' after object key '%s'.", name);
             free(name);
+            mcp_json_destroy(object);
             return NULL;
         }
         (*json)++; // Skip ':'
@@ -237,6 +238,7 @@ static mcp_json_t* parse_object(const char** json, int depth) {
         if (value == NULL) {
             mcp_log_error("JSON parse error: Failed to parse value for object key '%s'.", name);
             free(name);
+            mcp_json_destroy(object);
             return NULL;
         }
         // Set property using generic hash table
@@ -245,7 +247,8 @@ static mcp_json_t* parse_object(const char** json, int depth) {
         if (mcp_hashtable_put(object->object_table, name, value) != 0) {
             mcp_log_error("JSON parse error: Failed to set property '%s' using mcp_hashtable_put.", name);
             free(name); // Free the parsed name string
-            // Don't destroy value (it's in arena), don't destroy object
+            mcp_json_destroy(value);
+            mcp_json_destroy(object);
             return NULL;
         }
         free(name);
@@ -256,6 +259,7 @@ static mcp_json_t* parse_object(const char** json, int depth) {
         }
         if (**json != ',') {
             mcp_log_error("JSON parse error: Expected ',' or '}' after object property.");
+            mcp_json_destroy(object);
             return NULL;
         }
         (*json)++;
@@ -286,13 +290,14 @@ static mcp_json_t* parse_array(const char** json, int depth) {
         mcp_json_t* value = parse_value(json, depth + 1);
         if (value == NULL) {
             mcp_log_error("JSON parse error: Failed to parse value in array.");
-            // Don't destroy array, let caller handle via arena
+            mcp_json_destroy(array); // The node itself stays in the arena
             return NULL;
         }
         // Add item uses realloc for backing store, not arena
         if (mcp_json_array_add_item(array, value) != 0) {
             mcp_log_error("JSON parse error: Failed to add item to array.");
-            // Don't destroy value (it's in arena)
+            mcp_json_destroy(value);
+            mcp_json_destroy(array);
             return NULL;
         }
         skip_whitespace(json);
@@ -302,6 +307,7 @@ static mcp_json_t* parse_array(const char** json, int depth) {
         }
         if (**json != ',') {
             mcp_log_error("JSON parse error: Expected ',' or ']' after array element.");
+            mcp_json_destroy(array);
             return NULL;
         }
         (*json)++;
@@ -403,7 +409,8 @@ mcp_json_t* mcp_json_parse(const char* json) {
     if (*current != '\0') {
         mcp_log_error("JSON parse error: Trailing characters found after valid JSON: '%s'", current);
         // Trailing characters after valid JSON
-        // Don't destroy result (it's in thread-local arena), let caller handle arena.
+        // The node itself stays in the thread-local arena.
+        mcp_json_destroy(result);
         return NULL;
     }
     return result;
-- 
2.43.0


From b0478724a7a6338fd5b1fae82ffc12a6b702d313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:54:04 +0000
Subject: [PATCH 28/35] fix: write non-finite numbers as null

---
 src/json/mcp_json_stringifier.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/json/mcp_json_stringifier.c b/src/json/mcp_json_stringifier.c
index 2e1ad03..cf5b2b5 100644
--- a/src/json/mcp_json_stringifier.c
+++ b/src/json/mcp_json_stringifier.c
@@ -4,6 +4,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <stdio.h>
+#include <math.h>
 #include <stdbool.h>
 
 // Stringification uses malloc/realloc for the output buffer, not arena.
@@ -181,6 +182,10 @@ int stringify_value(const mcp_json_t* json, char** output, size_t* output_size,
         case MCP_JSON_NULL:    return append_string(output, output_size, output_capacity, "null");
         case MCP_JSON_BOOLEAN: return append_string(output, output_size, output_capacity, json->boolean_value ? "true" : "false");
         case MCP_JSON_NUMBER: {
+            // JSON has no notation for infinity and NaN
+            if (!isfinite(json->number_value)) {
+                return append_string(output, output_size, output_capacity, "null");
+            }
             char buffer[32];
             // Use snprintf for robust number formatting, ensuring locale independence if possible
             // %.17g is generally good for preserving double precision
-- 
2.43.0


From 0359f363dd9e76b1641f004ba6261272044dd3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:54:04 +0000
Subject: [PATCH 29/35] fix: fail instead of overflowing when an escaped string
 exceeds INT_MAX

---
 src/json/mcp_json_utils.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/json/mcp_json_utils.c b/src/json/mcp_json_utils.c
index 2e6153c..d3c1fb0 100644
--- a/src/json/mcp_json_utils.c
+++ b/src/json/mcp_json_utils.c
@@ -4,6 +4,7 @@
 #include <string.h>
 #include <stdbool.h>
 #include <stdlib.h>
+#include <limits.h>
 
 /**
  * @brief Internal helper to write a character or string safely to the output buffer.
@@ -88,6 +89,9 @@ int mcp_json_escape_string(const char* input, char* output, size_t output_size)
     }
 
     required_size = out_idx + 1; // +1 for the null terminator
+    if (required_size > INT_MAX) {
+        return -1; // The size cannot be returned
+    }
 
     return (int)required_size;
 }
-- 
2.43.0


From 3748f9115a1a044dd7cedaa120e7f8a748de6067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:33:35 +0000
Subject: [PATCH 30/35] fix: remove only one leading space from SSE field
 values

---
 src/transport/mcp_sthttp_sse_parser.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/transport/mcp_sthttp_sse_parser.c b/src/transport/mcp_sthttp_sse_parser.c
index 47a8b94..df1806a 100644
--- a/src/transport/mcp_sthttp_sse_parser.c
+++ b/src/transport/mcp_sthttp_sse_parser.c
@@ -227,11 +227,12 @@ static int process_line(sse_parser_context_t* parser) {
             }
             parser->current_field_name[parser->field_name_length++] = c;
         } else {
-            // Field value - skip leading space
-            if (!parser->field_value_started && c == ' ') {
+            // Field value - skip a single leading space
+            bool first = !parser->field_value_started;
+            parser->field_value_started = true;
+            if (first && c == ' ') {
                 continue;
             }
-            parser->field_value_started = true;
             
             if (expand_buffer(&parser->current_field_value, &parser->field_value_capacity, 
                              parser->field_value_length + 2) != 0) {
-- 
2.43.0


From 6e4b84437f4ba280652c84b9094c16239a73409a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:33:35 +0000
Subject: [PATCH 31/35] fix: keep empty data lines of server-sent events

---
 src/transport/internal/sthttp_transport_internal.h | 1 +
 src/transport/mcp_sthttp_sse_parser.c              | 7 +++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/transport/internal/sthttp_transport_internal.h b/src/transport/internal/sthttp_transport_internal.h
index f3a1353..98fa745 100644
--- a/src/transport/internal/sthttp_transport_internal.h
+++ b/src/transport/internal/sthttp_transport_internal.h
@@ -157,6 +157,7 @@ typedef struct sse_parser_context {
     char* data_accumulator;
     size_t data_accumulator_capacity;
     size_t data_accumulator_length;
+    bool has_data; // A data line was seen, even if it was empty
 
     // Parser state
     bool in_field_value;
diff --git a/src/transport/mcp_sthttp_sse_parser.c b/src/transport/mcp_sthttp_sse_parser.c
index df1806a..40d5f04 100644
--- a/src/transport/mcp_sthttp_sse_parser.c
+++ b/src/transport/mcp_sthttp_sse_parser.c
@@ -95,6 +95,7 @@ void sse_parser_reset(sse_parser_context_t* parser) {
     parser->field_name_length = 0;
     parser->field_value_length = 0;
     parser->data_accumulator_length = 0;
+    parser->has_data = false;
     parser->in_field_value = false;
     parser->field_value_started = false;
     
@@ -162,7 +163,7 @@ static int process_field(sse_parser_context_t* parser) {
             return -1;
         }
         
-        if (parser->data_accumulator_length > 0) {
+        if (parser->has_data) {
             parser->data_accumulator[parser->data_accumulator_length++] = '\n';
         }
         
@@ -170,6 +171,7 @@ static int process_field(sse_parser_context_t* parser) {
                parser->current_field_value, value_len);
         parser->data_accumulator_length += value_len;
         parser->data_accumulator[parser->data_accumulator_length] = '\0';
+        parser->has_data = true;
     }
     
     // Reset field parsing state
@@ -192,10 +194,11 @@ static int process_line(sse_parser_context_t* parser) {
     // Empty line indicates end of event
     if (parser->line_buffer_length == 0) {
         // Finalize event data
-        if (parser->data_accumulator_length > 0) {
+        if (parser->has_data) {
             free(parser->event_data);
             parser->event_data = mcp_strdup(parser->data_accumulator);
             parser->data_accumulator_length = 0;
+            parser->has_data = false;
         }
         
         parser->state = SSE_PARSE_STATE_EVENT_COMPLETE;
-- 
2.43.0


From c28b09ea817fd37d7905ce59fc789276c4631cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:34:19 +0000
Subject: [PATCH 32/35] fix: deliver every server-sent event of a received
 chunk exactly once

---
 .../internal/sthttp_transport_internal.h      |  3 +
 src/transport/mcp_sthttp_client_sse.c         | 58 ++++++-------------
 src/transport/mcp_sthttp_sse_parser.c         |  3 +
 3 files changed, 23 insertions(+), 41 deletions(-)

diff --git a/src/transport/internal/sthttp_transport_internal.h b/src/transport/internal/sthttp_transport_internal.h
index 98fa745..2c61817 100644
--- a/src/transport/internal/sthttp_transport_internal.h
+++ b/src/transport/internal/sthttp_transport_internal.h
@@ -162,6 +162,9 @@ typedef struct sse_parser_context {
     // Parser state
     bool in_field_value;
     bool field_value_started;
+
+    // Bytes of the last chunk that were consumed; the rest belongs to the next event
+    size_t consumed;
 } sse_parser_context_t;
 
 /**
diff --git a/src/transport/mcp_sthttp_client_sse.c b/src/transport/mcp_sthttp_client_sse.c
index 6280ade..61b38c3 100644
--- a/src/transport/mcp_sthttp_client_sse.c
+++ b/src/transport/mcp_sthttp_client_sse.c
@@ -479,40 +479,24 @@ void* sse_client_thread_func(void* arg) {
             }
             break;
         }
-        temp_buffer[bytes_received] = '\0';
-
-        // Add to buffer
-        mcp_mutex_lock(data->sse_mutex);
-
-        if (data->sse_conn->buffer_used + bytes_received >= data->sse_conn->buffer_size) {
-            // Expand buffer
-            size_t new_size = data->sse_conn->buffer_size * 2;
-            char* new_buffer = (char*)realloc(data->sse_conn->buffer, new_size);
-            if (new_buffer == NULL) {
-                mcp_log_error("Failed to expand SSE buffer");
-                mcp_mutex_unlock(data->sse_mutex);
+        // Process the received bytes; they may complete several events
+        size_t offset = 0;
+        bool failed = false;
+        while (offset < (size_t)bytes_received) {
+            sse_event_t event;
+            int parse_result = sse_parser_process(parser, temp_buffer + offset, (size_t)bytes_received - offset, &event);
+            offset += parser->consumed;
+
+            if (parse_result < 0) {
+                // Parsing error
+                mcp_log_error("SSE parsing error");
+                failed = true;
                 break;
             }
-            data->sse_conn->buffer = new_buffer;
-            data->sse_conn->buffer_size = new_size;
-        }
-
-        memcpy(data->sse_conn->buffer + data->sse_conn->buffer_used, temp_buffer, bytes_received);
-        data->sse_conn->buffer_used += bytes_received;
-        data->sse_conn->buffer[data->sse_conn->buffer_used] = '\0';
-
-        mcp_mutex_unlock(data->sse_mutex);
-
-        // Process events using optimized parser
-        mcp_mutex_lock(data->sse_mutex);
-        char* buffer_data = data->sse_conn->buffer;
-        size_t buffer_length = data->sse_conn->buffer_used;
-        mcp_mutex_unlock(data->sse_mutex);
-
-        sse_event_t event;
-        int parse_result = sse_parser_process(parser, buffer_data, buffer_length, &event);
+            if (parse_result == 0) {
+                break; // Need more data
+            }
 
-        if (parse_result > 0) {
             // Event parsed successfully
             // Update last event ID
             if (event.id) {
@@ -538,18 +522,10 @@ void* sse_client_thread_func(void* arg) {
 
             // Free event
             sse_free_event(&event);
-
-            // Clear processed data from buffer
-            mcp_mutex_lock(data->sse_mutex);
-            data->sse_conn->buffer_used = 0;
-            mcp_mutex_unlock(data->sse_mutex);
-        } else if (parse_result < 0) {
-            // Parsing error
-            mcp_log_error("SSE parsing error");
+        }
+        if (failed) {
             break;
         }
-        // parse_result == 0 means need more data, continue loop
-
     }
 
     // Cleanup
diff --git a/src/transport/mcp_sthttp_sse_parser.c b/src/transport/mcp_sthttp_sse_parser.c
index 40d5f04..c424138 100644
--- a/src/transport/mcp_sthttp_sse_parser.c
+++ b/src/transport/mcp_sthttp_sse_parser.c
@@ -260,6 +260,7 @@ int sse_parser_process(sse_parser_context_t* parser, const char* data, size_t le
     
     const char* ptr = data;
     const char* end = data + length;
+    parser->consumed = 0;
     
     while (ptr < end && parser->state != SSE_PARSE_STATE_EVENT_COMPLETE && 
            parser->state != SSE_PARSE_STATE_ERROR) {
@@ -290,6 +291,8 @@ int sse_parser_process(sse_parser_context_t* parser, const char* data, size_t le
         }
     }
     
+    parser->consumed = (size_t)(ptr - data);
+
     // Fill event structure if parsing is complete
     if (parser->state == SSE_PARSE_STATE_EVENT_COMPLETE && event_out != NULL) {
         memset(event_out, 0, sizeof(sse_event_t));
-- 
2.43.0


From 47c5533dbc2b8c7bd309a16f058dce68f3d086e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:50:00 +0000
Subject: [PATCH 33/35] fix: complete HTTP responses with Content-Length 0 at
 the end of the headers

---
 src/transport/mcp_sthttp_http_parser.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/transport/mcp_sthttp_http_parser.c b/src/transport/mcp_sthttp_http_parser.c
index 7696a0d..daa97c4 100644
--- a/src/transport/mcp_sthttp_http_parser.c
+++ b/src/transport/mcp_sthttp_http_parser.c
@@ -105,8 +105,9 @@ static int parse_header_line(http_parser_context_t* parser, const char* line) {
     
     // Empty line indicates end of headers
     if (strlen(line) == 0) {
-        parser->state = parser->has_content_length || parser->is_chunked ? 
-                       HTTP_PARSE_STATE_BODY : HTTP_PARSE_STATE_COMPLETE;
+        // A body of length 0 is complete as soon as the headers are
+        bool has_body = parser->is_chunked || (parser->has_content_length && parser->content_length > 0);
+        parser->state = has_body ? HTTP_PARSE_STATE_BODY : HTTP_PARSE_STATE_COMPLETE;
         return 0;
     }
     
-- 
2.43.0


From b3c6427061482c8cec09b9e05889a0aa246f86fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:54:28 +0000
Subject: [PATCH 34/35] fix: look up a pending request again after waiting for
 it, and only time out when still waiting

---
 src/client/mcp_client_request.c | 76 +++++++++++++++------------------
 1 file changed, 35 insertions(+), 41 deletions(-)

diff --git a/src/client/mcp_client_request.c b/src/client/mcp_client_request.c
index cbbe50c..4778d2a 100644
--- a/src/client/mcp_client_request.c
+++ b/src/client/mcp_client_request.c
@@ -258,50 +258,44 @@ int mcp_client_send_and_wait(
 
     // Process the request if found and still waiting
     if (req_entry_wrapper && req_entry_wrapper->request.status == PENDING_REQUEST_WAITING) {
-        // Wait for the response with appropriate timeout handling
-        if (client->config.request_timeout_ms > 0) {
-            // Use timed wait with the configured timeout
-            mcp_log_debug("Waiting for response to request %llu with timeout %d ms",
-                         (unsigned long long)request_id, client->config.request_timeout_ms);
-
-            wait_result = mcp_cond_timedwait(
-                req_entry_wrapper->request.cv,
-                client->pending_requests_mutex,
-                client->config.request_timeout_ms
-            );
-        } else {
-            // Wait indefinitely
-            mcp_log_debug("Waiting indefinitely for response to request %llu",
-                         (unsigned long long)request_id);
+        // The entry may move while the mutex is released (the table can be resized),
+        // so it is looked up again after every wake-up
+        mcp_cond_t* cv = req_entry_wrapper->request.cv;
+        do {
+            // Wait for the response with appropriate timeout handling
+            if (client->config.request_timeout_ms > 0) {
+                // Use timed wait with the configured timeout
+                mcp_log_debug("Waiting for response to request %llu with timeout %d ms",
+                             (unsigned long long)request_id, client->config.request_timeout_ms);
+
+                wait_result = mcp_cond_timedwait(
+                    cv,
+                    client->pending_requests_mutex,
+                    client->config.request_timeout_ms
+                );
+            } else {
+                // Wait indefinitely
+                mcp_log_debug("Waiting indefinitely for response to request %llu",
+                             (unsigned long long)request_id);
 
-            wait_result = mcp_cond_wait(
-                req_entry_wrapper->request.cv,
-                client->pending_requests_mutex
-            );
-        }
+                wait_result = mcp_cond_wait(cv, client->pending_requests_mutex);
+            }
 
-        // Handle timeout and other wait errors with platform-specific code
-#ifdef ETIMEDOUT
-        // POSIX systems
-        if (wait_result == ETIMEDOUT) {
-            mcp_log_error("Request %llu timed out after %d ms",
-                         (unsigned long long)request_id, client->config.request_timeout_ms);
-            req_entry_wrapper->request.status = PENDING_REQUEST_TIMEOUT;
-        } else if (wait_result != 0) {
-            mcp_log_error("Wait failed for request %llu with code: %d (%s)",
-                         (unsigned long long)request_id, wait_result, strerror(wait_result));
-        }
-#else
-        // Windows and other systems
-        if (wait_result == 1) { // Windows timeout code
-            mcp_log_error("Request %llu timed out after %d ms",
-                         (unsigned long long)request_id, client->config.request_timeout_ms);
-            req_entry_wrapper->request.status = PENDING_REQUEST_TIMEOUT;
-        } else if (wait_result != 0) {
-            mcp_log_error("Wait failed for request %llu with code: %d",
-                         (unsigned long long)request_id, wait_result);
+            req_entry_wrapper = mcp_client_find_pending_request_entry(client, request_id, false);
+        } while (wait_result == 0 && req_entry_wrapper &&
+                 req_entry_wrapper->request.status == PENDING_REQUEST_WAITING);
+
+        // Handle timeout and other wait errors, unless the response arrived meanwhile
+        if (req_entry_wrapper && req_entry_wrapper->request.status == PENDING_REQUEST_WAITING) {
+            if (wait_result == -2) { // Timeout code of mcp_cond_timedwait
+                mcp_log_error("Request %llu timed out after %d ms",
+                             (unsigned long long)request_id, client->config.request_timeout_ms);
+                req_entry_wrapper->request.status = PENDING_REQUEST_TIMEOUT;
+            } else {
+                mcp_log_error("Wait failed for request %llu with code: %d",
+                             (unsigned long long)request_id, wait_result);
+            }
         }
-#endif
     } else if (req_entry_wrapper) {
         // Request found but not in waiting state
         mcp_log_debug("Request %llu found but not in waiting state (status: %d)",
-- 
2.43.0


From 79ddb13c525c170c6a4250523dbec4f6485da5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:54:41 +0000
Subject: [PATCH 35/35] fix: create condition variables with the clock their
 timed waits use

---
 src/common/mcp_sync.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/common/mcp_sync.c b/src/common/mcp_sync.c
index ed33ac2..6420716 100644
--- a/src/common/mcp_sync.c
+++ b/src/common/mcp_sync.c
@@ -198,7 +198,17 @@ mcp_cond_t* mcp_cond_create(void) {
     // Assume success
     return cond;
 #else
-    if (pthread_cond_init(&cond->cond, NULL) != 0) {
+#if defined(_POSIX_TIMERS) && (_POSIX_TIMERS > 0) && defined(CLOCK_MONOTONIC)
+    // Deadlines of mcp_cond_timedwait are read from the monotonic clock
+    pthread_condattr_t attr;
+    pthread_condattr_init(&attr);
+    pthread_condattr_setclock(&attr, CLOCK_MONOTONIC);
+    int ret = pthread_cond_init(&cond->cond, &attr);
+    pthread_condattr_destroy(&attr);
+#else
+    int ret = pthread_cond_init(&cond->cond, NULL);
+#endif
+    if (ret != 0) {
         mcp_log_error("Failed to initialize pthread condition variable");
         sync_free(cond);
         return NULL;
@@ -280,13 +290,8 @@ int mcp_cond_timedwait(mcp_cond_t* cond, mcp_mutex_t* mutex, uint32_t timeout_ms
     ts.tv_sec += timeout_ms / 1000 + nsec / 1000000000;
     ts.tv_nsec = nsec % 1000000000;
 
-    // Use pthread_cond_timedwait with the monotonic clock
-    pthread_condattr_t attr;
-    pthread_condattr_init(&attr);
-    pthread_condattr_setclock(&attr, CLOCK_MONOTONIC);
-
+    // The condition variable was created with the monotonic clock
     int ret = pthread_cond_timedwait(&cond->cond, &mutex->mutex, &ts);
-    pthread_condattr_destroy(&attr);
 #else
     // Fall back to gettimeofday if monotonic clock is not available
     struct timeval tv;
-- 
2.43.0

