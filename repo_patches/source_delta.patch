From 859eec20e8155cf0f3a3c31766f857acd131c493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:36 +0000
Subject: [PATCH 01/75] fix: configuration section prefix test no longer reads
 past short section names

---
 src/viriatum/system/service.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index 69b19c6..f355764 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -321,7 +321,7 @@ ERROR_CODE calculate_locations_service(struct service_t *service) {
         get_next_iterator(iterator, (void **) &element);
         if(element == NULL) { break; }
 
-        is_equal = memcmp(element->key_string, "location:", sizeof("location:") - 1);
+        is_equal = strncmp((char *) element->key_string, "location:", sizeof("location:") - 1);
         if(is_equal != 0) { continue; }
 
         get_value_string_sort_map(configuration, element->key_string, (void **) &location);
-- 
2.43.0


From e47cabc020637e06826cb200458db2b4ab388efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:20 +0000
Subject: [PATCH 02/75] fix: parser marks follow the request buffer when it is
 reallocated

---
 src/viriatum/stream/stream_http.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/viriatum/stream/stream_http.c b/src/viriatum/stream/stream_http.c
index 9a71ab9..586fa5b 100644
--- a/src/viriatum/stream/stream_http.c
+++ b/src/viriatum/stream/stream_http.c
@@ -191,6 +191,11 @@ ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsig
     unsigned char *_read;
     size_t _read_size;
 
+    /* allocates the offset of the parser marks (relative to the
+    start of the buffer), used to keep them valid on reallocation */
+    size_t mark_offset;
+    struct http_parser_t *http_parser;
+
     /* allocates space for the HTTP handler reference
     to be used in this connection */
     struct http_handler_t *http_handler;
@@ -224,10 +229,27 @@ ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsig
         size_offset = http_connection->buffer_offset + buffer_size;
         size_length = http_connection->buffer_size + content_length;
         http_connection->buffer_size = size_length > size_offset ? size_length : size_offset;
+        _buffer = http_connection->buffer;
         http_connection->buffer = REALLOC(
             (void *) http_connection->buffer,
             http_connection->buffer_size
         );
+
+        /* the marks of an element that is still being parsed point
+        into the buffer, so they must follow it in case it has moved */
+        http_parser = http_connection->http_parser;
+        if(http_parser->url_mark) {
+            mark_offset = (size_t) http_parser->url_mark - (size_t) _buffer;
+            http_parser->url_mark = http_connection->buffer + mark_offset;
+        }
+        if(http_parser->header_field_mark) {
+            mark_offset = (size_t) http_parser->header_field_mark - (size_t) _buffer;
+            http_parser->header_field_mark = http_connection->buffer + mark_offset;
+        }
+        if(http_parser->header_value_mark) {
+            mark_offset = (size_t) http_parser->header_value_mark - (size_t) _buffer;
+            http_parser->header_value_mark = http_connection->buffer + mark_offset;
+        }
     }
 
     /* retrieves the pointer reference to the current position in the
-- 
2.43.0


From aadd140db98da8f68e20874b162e3f051b6c12e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:20 +0000
Subject: [PATCH 03/75] fix: per request parser values and the request buffer
 are reset between requests

---
 src/viriatum/stream/stream_http.c | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/src/viriatum/stream/stream_http.c b/src/viriatum/stream/stream_http.c
index 586fa5b..6c70889 100644
--- a/src/viriatum/stream/stream_http.c
+++ b/src/viriatum/stream/stream_http.c
@@ -311,31 +311,16 @@ ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsig
         /* in case the current state in the HTTP parser is the
         start state, the message is considered to be completly
         parsed (new message may come after) */
-        if(http_connection->http_parser->state == STATE_START_RES) {
-            /* resets the HTTP parser state */
-            http_connection->http_parser->type = 2;
-            http_connection->http_parser->flags = 6;
-            http_connection->http_parser->state = STATE_START_REQ;
-            http_connection->http_parser->header_state = 0;
-            http_connection->http_parser->read_count = 0;
-            http_connection->http_parser->content_length = -1;
-            http_connection->http_parser->http_major = 0;
-            http_connection->http_parser->http_minor = 0;
-            http_connection->http_parser->status_code = 0;
-            http_connection->http_parser->method = 0;
+        if(http_connection->http_parser->state == STATE_START_REQ) {
+            /* resets the values that only concern the message that
+            has just been parsed */
             http_connection->http_parser->upgrade = 0;
             http_connection->http_parser->_content_length = 0;
 
-            /* resets the internal parser state values */
-            http_connection->http_parser->header_field_mark = 0;
-            http_connection->http_parser->header_value_mark = 0;
-            http_connection->http_parser->url_mark = 0;
-
             /* in case the current HTTP connection read offset has reached
-            the buffer size it's time to reset the buffer (no more data to
-            be processed), the buffer size should come from the content length
-            value of the actual message */
-            if(http_connection->read_offset == http_connection->buffer_size) {
+            the end of the received data it's time to reset the buffer (no
+            more data to be processed) */
+            if(http_connection->read_offset == http_connection->buffer_offset) {
                 /* releases the current HTTP connection buffer and then
                 unsets the buffer from the connection and updates the size
                 of it to the initial empty value (buffer reset) */
@@ -344,6 +329,7 @@ ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsig
                 http_connection->buffer_size = 0;
                 http_connection->buffer_offset = 0;
                 http_connection->read_offset = 0;
+                break;
             }
         }
 
-- 
2.43.0


From 920c6943891ff378f479e94c9b72c46d728dde64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:59 +0000
Subject: [PATCH 04/75] fix: closed connections leave the epoll outstanding
 lists before being deleted

---
 src/viriatum/polling/polling_epoll.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/viriatum/polling/polling_epoll.c b/src/viriatum/polling/polling_epoll.c
index 6896c16..3f0bbc0 100644
--- a/src/viriatum/polling/polling_epoll.c
+++ b/src/viriatum/polling/polling_epoll.c
@@ -161,6 +161,11 @@ ERROR_CODE unregister_connection_polling_epoll(
     to add a new element to the poll structure */
     SOCKET_ERROR_CODE result_code;
 
+    /* allocates space for the index and count values used
+    in the removal from the outstanding lists */
+    size_t index;
+    size_t count;
+
     /* retrieves the polling epoll structure from the upper
     polling control structure */
     struct polling_epoll_t *polling_epoll = (struct polling_epoll_t *) polling->lower;
@@ -200,6 +205,21 @@ ERROR_CODE unregister_connection_polling_epoll(
         );
     }
 
+    /* removes the connection from the outstanding lists as it's going
+    to be deleted before they are processed in the next loop */
+    for(index = 0, count = 0; index < polling_epoll->read_outstanding_size; index++) {
+        if(polling_epoll->read_outstanding[index] == connection) { continue; }
+        polling_epoll->read_outstanding[count] = polling_epoll->read_outstanding[index];
+        count++;
+    }
+    polling_epoll->read_outstanding_size = count;
+    for(index = 0, count = 0; index < polling_epoll->write_outstanding_size; index++) {
+        if(polling_epoll->write_outstanding[index] == connection) { continue; }
+        polling_epoll->write_outstanding[count] = polling_epoll->write_outstanding[index];
+        count++;
+    }
+    polling_epoll->write_outstanding_size = count;
+
     /* decrements the counter that controls the number of events
     currently in the polling state in the epoll */
     polling_epoll->poll_count--;
-- 
2.43.0


From f14742c517e89063ee57f67ce42829390eea6f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:14 +0000
Subject: [PATCH 05/75] fix: reading stops once the data handler has closed the
 connection

---
 src/viriatum/stream/stream_io.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/viriatum/stream/stream_io.c b/src/viriatum/stream/stream_io.c
index 4ff8eeb..5c24df0 100644
--- a/src/viriatum/stream/stream_io.c
+++ b/src/viriatum/stream/stream_io.c
@@ -305,6 +305,10 @@ ERROR_CODE read_handler_stream_io(struct connection_t *connection) {
                 V_DEBUG("Finished calling on data handler\n");
             }
 
+            /* in case the data handler has closed the connection there's
+            nothing more to be read from it (returns immediately) */
+            if(connection->status == STATUS_CLOSED) { RAISE_NO_ERROR; }
+
             /* resets the buffer size to the original (initial)
             position so that it can be reused, note that both
             the buffer pointer and the buffer size are reseted */
@@ -410,6 +414,10 @@ ERROR_CODE read_handler_stream_io(struct connection_t *connection) {
                 V_DEBUG("Finished calling on data handler\n");
             }
 
+            /* in case the data handler has already closed the connection
+            there's nothing more to be done */
+            if(connection->status == STATUS_CLOSED) { break; }
+
             /* closes the connection as the error was fatal, so this is the
             best escape approach to solve the issue */
             connection->close_connection(connection);
-- 
2.43.0


From 334407e6452c1951133cf07da0f3134a4df56052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:34 +0000
Subject: [PATCH 06/75] fix: chunked request bodies no longer abort the parser
 on a read count that is never kept

---
 src/viriatum/http/http_parser.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index d24946e..dd2ea5f 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -1621,7 +1621,6 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                 break;
 
             case STATE_CHUNK_SIZE_START:
-                assert(read_count == 1);
                 assert(http_parser->flags & FLAG_CHUNKED);
 
                 unhex_value = unhex[byte];
-- 
2.43.0


From 31a6358a827136b39f69893e1d305a35ed4408b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:34 +0000
Subject: [PATCH 07/75] fix: bytes above 127 are not hexadecimal digits in a
 chunk size

---
 src/viriatum/http/http_parser.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/viriatum/http/http_parser.h b/src/viriatum/http/http_parser.h
index 9314338..16f131e 100644
--- a/src/viriatum/http/http_parser.h
+++ b/src/viriatum/http/http_parser.h
@@ -184,6 +184,14 @@ static const char unhex[256] = {
     -1, 10, 11, 12, 13, 14, 15, -1, -1, -1, -1, -1, -1, -1, -1, -1,
     -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
     -1, 10, 11, 12, 13, 14, 15, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
     -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1
 };
 
-- 
2.43.0


From aea62d4295d5235490c7fa15fd496923d204f213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:44 +0000
Subject: [PATCH 08/75] fix: a Content-Length or chunk size that overflows is a
 parse error

---
 src/viriatum/http/http_parser.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index dd2ea5f..fceac74 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -27,6 +27,8 @@
 
 #include "stdafx.h"
 
+#include <limits.h>
+
 #include "http_parser.h"
 
 int http_should_keep_alive(struct http_parser_t *http_parser) {
@@ -1387,6 +1389,12 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                             goto error;
                         }
 
+                        /* verifies that the value may be represented, otherwise
+                        the message would be delimited by a wrong length */
+                        if(http_parser->content_length > (INT_MAX - (byte - '0')) / 10) {
+                            goto error;
+                        }
+
                         http_parser->content_length *= 10;
                         http_parser->content_length += byte - '0';
 
@@ -1660,6 +1668,12 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                     goto error;
                 }
 
+                /* verifies that the value may be represented, otherwise
+                the chunk would be delimited by a wrong length */
+                if(http_parser->content_length > (INT_MAX - unhex_value) / 16) {
+                    goto error;
+                }
+
                 http_parser->content_length *= 16;
                 http_parser->content_length += unhex_value;
 
-- 
2.43.0


From 420bbc89579baf4fdc3c697b50cc310a6ffa0b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:44 +0000
Subject: [PATCH 09/75] fix: upgrade requests, which are answered as HTTP, are
 delimited as any other request

---
 src/viriatum/http/http_parser.c | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index fceac74..d70f06c 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -1545,13 +1545,6 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                         }
                     }
 
-                    /* Exit, the rest of the connect is in a different protocol. */
-                    if(http_parser->upgrade) {
-                        HTTP_CALLBACK(message_complete);
-
-                        return (int) (pointer - data) + 1;
-                    }
-
                     if(http_parser->flags & FLAG_SKIPBODY) {
                         HTTP_CALLBACK(message_complete);
                         state = NEW_MESSAGE();
-- 
2.43.0


From 2f17e30e94cb370efdd2975873e1767a5703db75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:44 +0000
Subject: [PATCH 10/75] fix: the last chunk of a body is not reported as a
 second first line

---
 src/viriatum/http/http_parser.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index d70f06c..37b0174 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -1695,7 +1695,6 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
 
                 if(http_parser->content_length == 0) {
                     http_parser->flags |= FLAG_TRAILING;
-                    HTTP_CALLBACK(line);
                     state = STATE_HEADER_FIELD_START;
                 } else {
                     state = STATE_CHUNK_DATA;
-- 
2.43.0


From 3cfc3099fadc41eb682d8d41133f0b41e1120509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 11/75] fix: the request buffer grows with the received data
 and not with the announced content length

---
 src/viriatum/stream/stream_http.c | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/viriatum/stream/stream_http.c b/src/viriatum/stream/stream_http.c
index 6c70889..944d693 100644
--- a/src/viriatum/stream/stream_http.c
+++ b/src/viriatum/stream/stream_http.c
@@ -205,12 +205,6 @@ ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsig
     struct connection_t *connection = io_connection->connection;
     struct http_connection_t *http_connection = (struct http_connection_t *) io_connection->lower;
 
-    /* retrieves the content length value from the parser associated
-    with the current connection, this value is maitained accross multiple
-    parsing loops and is not considered transient, the value remains at the
-    initial zero value until the proper header is parsed */
-    size_t content_length = http_connection->http_parser->_content_length;
-
     /* in case no HTTP connection buffer is currently set, time to start
     a new one from the provided buffer (fast access) */
     if(http_connection->buffer == NULL) {
@@ -223,11 +217,12 @@ ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsig
     else if(http_connection->buffer_offset + buffer_size > http_connection->buffer_size) {
         /* creates two strategies for the reallocation of the buffer, one based on the
         minimal size required for the handling the memory copy (offset strategy) and
-        another that aims at pre-allocating size for the complete message buffer (content
-        length strategy) the maximum value of both is selected as the new buffer size
-        and is used for the reallocation of the buffer */
+        another that duplicates the current size, so that the number of reallocations
+        is small (length strategy), the maximum value of both is selected as the new
+        buffer size, note that the announced content length is never used as it's not
+        trustworthy (could be used to exhaust the memory) */
         size_offset = http_connection->buffer_offset + buffer_size;
-        size_length = http_connection->buffer_size + content_length;
+        size_length = http_connection->buffer_size * 2;
         http_connection->buffer_size = size_length > size_offset ? size_length : size_offset;
         _buffer = http_connection->buffer;
         http_connection->buffer = REALLOC(
-- 
2.43.0


From 1569680ea40e17752888acbc1890888f262e0ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:25 +0000
Subject: [PATCH 12/75] fix: an URL that does not fit the path buffers of the
 file handler is a missing file

---
 src/viriatum/handlers/handler_file.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index f68fc89..0aa2f11 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -273,6 +273,7 @@ ERROR_CODE url_callback_handler_file(struct http_parser_t *http_parser, const un
     /* copies the memory from the data to the url and then
     puts the end of string in the url, note that only the path
     part of the string is used for the url */
+    if(path_size >= VIRIATUM_MAX_URL_SIZE) { path_size = 0; }
     memcpy(handler_file_context->url, data, path_size);
     handler_file_context->url[path_size] = '\0';
 
@@ -290,6 +291,9 @@ ERROR_CODE url_callback_handler_file(struct http_parser_t *http_parser, const un
         handler_file_context->url
     );
 
+    /* a path that does not fit the buffer names no file */
+    if(handler_file_context->url[0] == '\0' || file_path_size >= VIRIATUM_MAX_PATH_SIZE) { file_path_size = 0; }
+
     /* decodes the url and file path for the percent encoding, this method
     uses constant (pre-allocated) memory for fast performance the resulting
     value is stored as a simple string in utf-8 encoding */
@@ -918,6 +922,7 @@ ERROR_CODE path_callback_handler_file(struct http_parser_t *http_parser, const u
     /* copies the memory from the data to the url and then
     puts the end of string in the url, note that only the path
     part of the string is used for the url */
+    if(data_size >= VIRIATUM_MAX_URL_SIZE) { data_size = 0; }
     memcpy(handler_file_context->url, data, data_size);
     handler_file_context->url[data_size] = '\0';
 
@@ -952,6 +957,9 @@ ERROR_CODE path_callback_handler_file(struct http_parser_t *http_parser, const u
         );
     }
 
+    /* a path that does not fit the buffer names no file */
+    if(handler_file_context->url[0] == '\0' || file_path_size >= VIRIATUM_MAX_PATH_SIZE) { file_path_size = 0; }
+
     /* decodes the url and file path for the percent encoding, this method
     uses constant (pre-allocated) memory for fast performance the resulting
     value is stored as a simple string in utf-8 encoding */
@@ -981,6 +989,10 @@ ERROR_CODE location_callback_handler_file(struct http_parser_t *http_parser, siz
     path "calculated" from the url */
     size_t file_path_size;
 
+    /* the size of the url in context, the one that limits the
+    offset of the location */
+    size_t url_size;
+
     /* allocates space for the partial url, resulting from the
     remaining part from the matching of the location */
     unsigned char *partial_url;
@@ -1013,7 +1025,8 @@ ERROR_CODE location_callback_handler_file(struct http_parser_t *http_parser, siz
 
     /* retrieves the partial url match by "removing" the initial part
     of the url in context */
-    partial_url = &handler_file_context->url[offset];
+    url_size = strlen((char *) handler_file_context->url);
+    partial_url = &handler_file_context->url[offset < url_size ? offset : url_size];
 
     /* creates the file path using the base viriatum path
     this should be the complete absolute path, note that
@@ -1026,6 +1039,9 @@ ERROR_CODE location_callback_handler_file(struct http_parser_t *http_parser, siz
         partial_url
     );
 
+    /* a path that does not fit the buffer names no file */
+    if(handler_file_context->url[0] == '\0' || file_path_size >= VIRIATUM_MAX_PATH_SIZE) { file_path_size = 0; }
+
     /* decodes the file path for the percent encoding, this method
     uses constant (pre-allocated) memory for fast performance */
     decode_percent(
-- 
2.43.0


From 7126529e0ddbda4ef1709b6481bd5d4483700ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:29 +0000
Subject: [PATCH 13/75] fix: the file handler serves nothing outside its base
 path

---
 src/viriatum/handlers/handler_file.c | 72 +++++++++++++++++++++++-----
 1 file changed, 60 insertions(+), 12 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index 0aa2f11..d0850f2 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -247,6 +247,39 @@ ERROR_CODE reset_handler_file(struct http_connection_t *http_connection) {
     RAISE_NO_ERROR;
 }
 
+/**
+ * Verifies that the provided (decoded) relative path does not leave
+ * the directory it's relative to, in case it does (or in case it is
+ * not an absolute path in that directory) the path to the file is
+ * emptied so that the request is handled as one for a missing file.
+ *
+ * @param handler_file_context The context with the path to the file.
+ * @param path The decoded relative path to be verified.
+ * @param size The size of the relative path to be verified.
+ */
+static void _confine_path_handler_file(
+    struct handler_file_context_t *handler_file_context,
+    unsigned char *path,
+    size_t size
+) {
+    size_t index;
+    size_t start = 1;
+    long depth = 0;
+    unsigned char valid = size > 0 && path[0] == '/' && memchr(path, '\0', size) == NULL;
+
+    /* iterates over the various segments of the path to keep track
+    of the depth of it, that may never get above the root */
+    for(index = 1; valid && index <= size; index++) {
+        if(index < size && path[index] != '/') { continue; }
+        if(index - start == 2 && path[start] == '.' && path[start + 1] == '.') { depth--; }
+        else if(index > start && !(index - start == 1 && path[start] == '.')) { depth++; }
+        if(depth < 0) { valid = FALSE; }
+        start = index + 1;
+    }
+
+    if(!valid) { handler_file_context->file_path_d[0] = '\0'; }
+}
+
 ERROR_CODE message_begin_callback_handler_file(struct http_parser_t *http_parser) {
     /* raise no error */
     RAISE_NO_ERROR;
@@ -297,18 +330,19 @@ ERROR_CODE url_callback_handler_file(struct http_parser_t *http_parser, const un
     /* decodes the url and file path for the percent encoding, this method
     uses constant (pre-allocated) memory for fast performance the resulting
     value is stored as a simple string in utf-8 encoding */
-    decode_percent(
-        handler_file_context->url,
-        path_size,
-        handler_file_context->url_d,
-        &decoded_size
-    );
     decode_percent(
         handler_file_context->file_path,
         file_path_size,
         handler_file_context->file_path_d,
         &decoded_size
     );
+    decode_percent(
+        handler_file_context->url,
+        path_size,
+        handler_file_context->url_d,
+        &decoded_size
+    );
+    _confine_path_handler_file(handler_file_context, handler_file_context->url_d, decoded_size);
 
     /* raise no error */
     RAISE_NO_ERROR;
@@ -963,18 +997,19 @@ ERROR_CODE path_callback_handler_file(struct http_parser_t *http_parser, const u
     /* decodes the url and file path for the percent encoding, this method
     uses constant (pre-allocated) memory for fast performance the resulting
     value is stored as a simple string in utf-8 encoding */
-    decode_percent(
-        handler_file_context->url,
-        data_size,
-        handler_file_context->url_d,
-        &decoded_size
-    );
     decode_percent(
         handler_file_context->file_path,
         file_path_size,
         handler_file_context->file_path_d,
         &decoded_size
     );
+    decode_percent(
+        handler_file_context->url,
+        data_size,
+        handler_file_context->url_d,
+        &decoded_size
+    );
+    _confine_path_handler_file(handler_file_context, handler_file_context->url_d, decoded_size);
 
     /* raise no error */
     RAISE_NO_ERROR;
@@ -996,6 +1031,8 @@ ERROR_CODE location_callback_handler_file(struct http_parser_t *http_parser, siz
     /* allocates space for the partial url, resulting from the
     remaining part from the matching of the location */
     unsigned char *partial_url;
+    unsigned char partial_url_d[VIRIATUM_MAX_URL_SIZE + 1];
+    size_t base_size;
 
     /* retrieves the handler file context from the HTTP parser */
     struct handler_file_context_t *handler_file_context =
@@ -1051,6 +1088,17 @@ ERROR_CODE location_callback_handler_file(struct http_parser_t *http_parser, siz
         &decoded_size
     );
 
+    /* the file must be inside the base path of the location, an empty
+    partial url denotes the base path itself */
+    decode_percent(partial_url, strlen((char *) partial_url), partial_url_d + 1, &decoded_size);
+    partial_url_d[0] = '/';
+    base_size = strlen((char *) location->base_path);
+    if(decoded_size > 0 && location->base_path[base_size - 1] == '/') {
+        _confine_path_handler_file(handler_file_context, partial_url_d, decoded_size + 1);
+    } else if(decoded_size > 0) {
+        _confine_path_handler_file(handler_file_context, partial_url_d + 1, decoded_size);
+    }
+
     /* raise no error */
     RAISE_NO_ERROR;
 }
-- 
2.43.0


From 2548a46d697253ff9b6e35a1d02b876b2da9f86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:00 +0000
Subject: [PATCH 14/75] fix: percent decoding never reads past the buffer and
 keeps malformed escapes as they are

---
 src/viriatum_commons/encoding/percent.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/viriatum_commons/encoding/percent.c b/src/viriatum_commons/encoding/percent.c
index 77cb449..25aacbe 100644
--- a/src/viriatum_commons/encoding/percent.c
+++ b/src/viriatum_commons/encoding/percent.c
@@ -99,15 +99,17 @@ ERROR_CODE decode_percent(unsigned char *buffer, size_t length, unsigned char *_
         /* in case the current pointer value refers a value
         that is the start character for a special value */
         if(*pointer == '%') {
-            if(pointer[1] && pointer[2]) {
+            if(length - (size_t) (pointer - buffer) > 2 &&
+                isxdigit(pointer[1]) && isxdigit(pointer[2])) {
                 /* converts the character using the hexadecimal value
                 from it and then increments the current buffer pointer
                 by a value of two (buffer advancing) */
                 *__buffer++ = from_hex(pointer[1]) << 4 | from_hex(pointer[2]);
                 pointer += 2;
             } else {
-                /* raises an error */
-                RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Problem decoding URL string");
+                /* the escape sequence is not a valid one (truncated or with
+                non hexadecimal digits) it's kept as it is in the buffer */
+                *__buffer++ = *pointer;
             }
         }
         /* in case the current pointer value refers the plus
-- 
2.43.0


From 03708d060b3762ac31c61448096f33646ec95d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:33 +0000
Subject: [PATCH 15/75] fix: configured base paths are not percent decoded

---
 src/viriatum/handlers/handler_file.c | 41 ++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index d0850f2..44ab4a8 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -247,6 +247,26 @@ ERROR_CODE reset_handler_file(struct http_connection_t *http_connection) {
     RAISE_NO_ERROR;
 }
 
+/* decodes the (percent encoded) URL part that ends the file path
+into the decoded file path, the part before it is a configured
+path and so it's copied as it is */
+static void _decode_path_handler_file(
+    struct handler_file_context_t *handler_file_context,
+    size_t size,
+    size_t url_size
+) {
+    size_t decoded_size;
+    size_t base_size = size > url_size ? size - url_size : 0;
+
+    memcpy(handler_file_context->file_path_d, handler_file_context->file_path, base_size);
+    decode_percent(
+        handler_file_context->file_path + base_size,
+        size - base_size,
+        handler_file_context->file_path_d + base_size,
+        &decoded_size
+    );
+}
+
 /**
  * Verifies that the provided (decoded) relative path does not leave
  * the directory it's relative to, in case it does (or in case it is
@@ -330,11 +350,10 @@ ERROR_CODE url_callback_handler_file(struct http_parser_t *http_parser, const un
     /* decodes the url and file path for the percent encoding, this method
     uses constant (pre-allocated) memory for fast performance the resulting
     value is stored as a simple string in utf-8 encoding */
-    decode_percent(
-        handler_file_context->file_path,
+    _decode_path_handler_file(
+        handler_file_context,
         file_path_size,
-        handler_file_context->file_path_d,
-        &decoded_size
+        strlen((char *) handler_file_context->url)
     );
     decode_percent(
         handler_file_context->url,
@@ -997,11 +1016,10 @@ ERROR_CODE path_callback_handler_file(struct http_parser_t *http_parser, const u
     /* decodes the url and file path for the percent encoding, this method
     uses constant (pre-allocated) memory for fast performance the resulting
     value is stored as a simple string in utf-8 encoding */
-    decode_percent(
-        handler_file_context->file_path,
+    _decode_path_handler_file(
+        handler_file_context,
         file_path_size,
-        handler_file_context->file_path_d,
-        &decoded_size
+        strlen((char *) handler_file_context->url)
     );
     decode_percent(
         handler_file_context->url,
@@ -1081,11 +1099,10 @@ ERROR_CODE location_callback_handler_file(struct http_parser_t *http_parser, siz
 
     /* decodes the file path for the percent encoding, this method
     uses constant (pre-allocated) memory for fast performance */
-    decode_percent(
-        handler_file_context->file_path,
+    _decode_path_handler_file(
+        handler_file_context,
         file_path_size,
-        handler_file_context->file_path_d,
-        &decoded_size
+        strlen((char *) partial_url)
     );
 
     /* the file must be inside the base path of the location, an empty
-- 
2.43.0


From 1961e90db4024b57055daadb2cf6a1190c995e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:33 +0000
Subject: [PATCH 16/75] fix: the file handler recognises complete header names
 in any letter case

---
 src/viriatum/handlers/handler_file.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index 44ab4a8..7034a85 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -367,15 +367,31 @@ ERROR_CODE url_callback_handler_file(struct http_parser_t *http_parser, const un
     RAISE_NO_ERROR;
 }
 
+/* verifies if the header name is the provided (lower cased) one,
+header names are case insensitive */
+static unsigned char _is_header_handler_file(const unsigned char *data, size_t data_size, const char *name) {
+    size_t index;
+
+    for(index = 0; index < data_size; index++) {
+        if(tolower(data[index]) != name[index]) { return FALSE; }
+    }
+
+    return name[data_size] == '\0';
+}
+
 ERROR_CODE header_field_callback_handler_file(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
     /* retrieves the handler file context from the HTTP parser */
     struct handler_file_context_t *handler_file_context = (struct handler_file_context_t *) http_parser->context;
 
+    /* the value of a previous header that had none is not to be
+    taken from the header that is now starting */
+    handler_file_context->next_header = UNDEFINED_HEADER;
+
     /* switches over the size of the header name (field)
     that was provided (used for faster parsing) */
     switch(data_size) {
         case 5:
-            if(data[0] == 'R' && data[1] == 'a' && data[2] == 'n' && data[3] == 'g') {
+            if(_is_header_handler_file(data, data_size, "range")) {
                 /* updates the range status value, it's the next
                 value to be parsed and put in context */
                 handler_file_context->range_status = 1;
@@ -388,7 +404,7 @@ ERROR_CODE header_field_callback_handler_file(struct http_parser_t *http_parser,
             break;
 
         case 13:
-            if(data[0] == 'I' && data[1] == 'f' && data[2] == '-' && data[3] == 'N') {
+            if(_is_header_handler_file(data, data_size, "if-none-match")) {
                 /* updates the etag status value, it's the next
                 value to be parsed and put in context */
                 handler_file_context->etag_status = 1;
@@ -396,7 +412,7 @@ ERROR_CODE header_field_callback_handler_file(struct http_parser_t *http_parser,
                 break;
             }
 
-            if(data[0] == 'C' && data[1] == 'a' && data[2] == 'c' && data[3] == 'h') {
+            if(_is_header_handler_file(data, data_size, "cache-control")) {
                 /* updates the cache control status value, it's the next
                 value to be parsed and put in context */
                 handler_file_context->cache_control_status = 1;
@@ -404,7 +420,7 @@ ERROR_CODE header_field_callback_handler_file(struct http_parser_t *http_parser,
                 break;
             }
 
-            if(data[0] == 'A' && data[1] == 'u' && data[2] == 't' && data[3] == 'h') {
+            if(_is_header_handler_file(data, data_size, "authorization")) {
                 /* updates the authorization status value, it's the next
                 value to be parsed and put in context */
                 handler_file_context->authorization_status = 1;
-- 
2.43.0


From 7d83db8b6965efa8e5d86668cb3dabea05a48e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:33 +0000
Subject: [PATCH 17/75] fix: header values kept by the file handler are bounded
 by their buffers

---
 src/viriatum/handlers/handler_file.c | 10 ++++++++++
 src/viriatum/handlers/handler_file.h |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index 7034a85..a3e7498 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -446,24 +446,34 @@ ERROR_CODE header_value_callback_handler_file(struct http_parser_t *http_parser,
     to undefined no parsing will exist */
     switch(handler_file_context->next_header) {
         case ETAG:
+            /* a value that has not the size of an etag matches none */
+            handler_file_context->etag_status = 1;
+            if(data_size != sizeof(handler_file_context->etag) - 1) { break; }
             memcpy(handler_file_context->etag, data, 10);
             handler_file_context->etag[10] = '\0';
             handler_file_context->etag_status = 2;
             break;
 
         case CACHE_CONTROL:
+            if(data_size >= sizeof(handler_file_context->cache_control)) { break; }
             memcpy(handler_file_context->cache_control, data, data_size);
             handler_file_context->cache_control[data_size] = '\0';
             handler_file_context->cache_control_status = 2;
             break;
 
         case AUTHORIZATION:
+            /* credentials that do not fit the buffer are not valid ones */
+            handler_file_context->authorization_status = 1;
+            if(data_size >= sizeof(handler_file_context->authorization)) { break; }
             memcpy(handler_file_context->authorization, data, data_size);
             handler_file_context->authorization[data_size] = '\0';
             handler_file_context->authorization_status = 2;
             break;
 
         case RANGE:
+            /* a range that does not fit the buffer is ignored */
+            handler_file_context->range_status = 1;
+            if(data_size >= sizeof(handler_file_context->range)) { break; }
             memcpy(handler_file_context->range, data, data_size);
             handler_file_context->range[data_size] = '\0';
             handler_file_context->range_status = 2;
diff --git a/src/viriatum/handlers/handler_file.h b/src/viriatum/handlers/handler_file.h
index 4c12f43..138230a 100644
--- a/src/viriatum/handlers/handler_file.h
+++ b/src/viriatum/handlers/handler_file.h
@@ -223,7 +223,7 @@ typedef struct handler_file_context_t {
      * The value of the authorization header processed for
      * the file retrieval.
      */
-    unsigned char authorization[128];
+    unsigned char authorization[1024];
 
     /**
      * The flag that controls if the authorization value
-- 
2.43.0


From bd52beb2e91e8eab1ed004fcf74394be15a6e42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:12 +0000
Subject: [PATCH 18/75] fix: credentials are invalid unless verified, whatever
 their size and the errors found

---
 src/viriatum/handlers/handler_file.c |  2 +-
 src/viriatum/http/http_util.c        | 31 +++++++++++++++++++++++-----
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index a3e7498..e28e097 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -464,7 +464,7 @@ ERROR_CODE header_value_callback_handler_file(struct http_parser_t *http_parser,
         case AUTHORIZATION:
             /* credentials that do not fit the buffer are not valid ones */
             handler_file_context->authorization_status = 1;
-            if(data_size >= sizeof(handler_file_context->authorization)) { break; }
+            if(data_size >= sizeof(handler_file_context->authorization) || memchr(data, '\0', data_size) != NULL) { break; }
             memcpy(handler_file_context->authorization, data, data_size);
             handler_file_context->authorization[data_size] = '\0';
             handler_file_context->authorization_status = 2;
diff --git a/src/viriatum/http/http_util.c b/src/viriatum/http/http_util.c
index 1d4eeb0..6a6063e 100644
--- a/src/viriatum/http/http_util.c
+++ b/src/viriatum/http/http_util.c
@@ -544,7 +544,14 @@ ERROR_CODE log_http_request(char *host, char *identity, char *user, char *method
 }
 
 ERROR_CODE auth_http(char *auth_file, char *authorization, unsigned char *result) {
-    unsigned char is_default = strcmp(auth_file, "$default") == 0 ? TRUE : FALSE;
+    unsigned char is_default;
+
+    /* no credentials are valid until they are verified and so none is
+    in case there is an error in the verification or no file to use */
+    *result = FALSE;
+    if(auth_file == NULL) { RAISE_NO_ERROR; }
+
+    is_default = strcmp(auth_file, "$default") == 0 ? TRUE : FALSE;
     if(is_default) { auth_default_http(auth_file, authorization, result); }
     else { auth_file_http(auth_file, authorization, result); }
     RAISE_NO_ERROR;
@@ -574,8 +581,8 @@ ERROR_CODE auth_file_http(char *auth_file, char *authorization, unsigned char *r
 
     /* allocates space for the buffers to be used for the username
     and password values extracted from the authorization token */
-    char username[128];
-    char password[128];
+    char *username;
+    char *password;
     char *password_v;
 
     /* allocates the various size relates values for the buffer
@@ -584,6 +591,9 @@ ERROR_CODE auth_file_http(char *auth_file, char *authorization, unsigned char *r
     size_t username_size;
     size_t password_size;
 
+    /* sets the result as invalid until the credentials are verified */
+    *result = FALSE;
+
     /* tries to find the token that separates the authentication
     type from the authorization base 64 value in case the value
     is not found raises an error indicating the problem */
@@ -632,6 +642,8 @@ ERROR_CODE auth_file_http(char *auth_file, char *authorization, unsigned char *r
 
     /* copies both the username and the password values to
     the apropriate internal buffers (to be used in comparision) */
+    username = (char *) MALLOC(username_size + 1);
+    password = (char *) MALLOC(password_size + 1);
     memcpy(username, authorization_d, username_size);
     username[username_size] = '\0';
     memcpy(password, password_pointer, password_size);
@@ -640,7 +652,13 @@ ERROR_CODE auth_file_http(char *auth_file, char *authorization, unsigned char *r
     /* processes the passwd file using the provided file path
     for it, this is an expensive io driven operation, and must
     be used wth care */
-    process_passwd_file(auth_file, &passwd);
+    return_value = process_passwd_file(auth_file, &passwd);
+    if(IS_ERROR_CODE(return_value)) {
+        FREE(password);
+        FREE(username);
+        FREE(authorization_d);
+        RAISE_AGAIN(return_value);
+    }
 
     /* retrieves the password verification value for the
     retrieved username and in case it's valid compares it
@@ -650,7 +668,8 @@ ERROR_CODE auth_file_http(char *auth_file, char *authorization, unsigned char *r
         (unsigned char *) username,
         (void **) &password_v
     );
-    if(password_v != NULL && strcmp(password, password_v) == 0) {
+    if(password_v != NULL && strlen(username) == username_size &&
+        strlen(password) == password_size && strcmp(password, password_v) == 0) {
         *result = TRUE;
     } else { *result = FALSE; }
 
@@ -660,6 +679,8 @@ ERROR_CODE auth_file_http(char *auth_file, char *authorization, unsigned char *r
     the memory associated with the authorization decoded string */
     delete_values_hash_map(passwd);
     delete_hash_map(passwd);
+    FREE(password);
+    FREE(username);
     FREE(authorization_d);
 
     /* raises no error, as everything has been done as possible
-- 
2.43.0


From 2eee63a84c13468c2ec240cde7b84616549e1dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:57 +0000
Subject: [PATCH 19/75] fix: malformed base 64 is an error instead of an
 invalid memory access

---
 src/viriatum_commons/encoding/base_64.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/viriatum_commons/encoding/base_64.c b/src/viriatum_commons/encoding/base_64.c
index 4913570..9295b48 100644
--- a/src/viriatum_commons/encoding/base_64.c
+++ b/src/viriatum_commons/encoding/base_64.c
@@ -62,8 +62,27 @@ ERROR_CODE decode_base64(
     unsigned char **decoded_buffer_pointer,
     size_t *decoded_buffer_length_pointer
 ) {
+    /* allocates space for the index and for the padding count */
+    size_t index;
+    unsigned int padding_count;
+
+    /* verifies that the encoded buffer is valid base 64, complete groups
+    of four characters from the alphabet with the padding (at most two
+    characters) at the end of the last one */
+    if(encoded_buffer_length % 4 != 0) {
+        RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Invalid base 64 length");
+    }
+    for(index = 0; index < encoded_buffer_length; index++) {
+        if(encoded_buffer[index] == 'A' || _lookup_fast_base64(encoded_buffer[index]) > 0) { continue; }
+        if(encoded_buffer[index] == PADDING_BASE_64 && index + 1 == encoded_buffer_length) { continue; }
+        if(encoded_buffer[index] == PADDING_BASE_64 && index + 2 == encoded_buffer_length &&
+            encoded_buffer[index + 1] == PADDING_BASE_64) { continue; }
+        RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Invalid base 64 character");
+    }
+
     /* retrieves the padding count from the encoded buffer */
-    unsigned int padding_count = _get_padding_count(encoded_buffer, encoded_buffer_length);
+    padding_count = encoded_buffer_length > 0 ?\
+        _get_padding_count(encoded_buffer, encoded_buffer_length) : 0;
 
     /* allocates the decoded buffer according to the pre-defined
     rules and then assigns the decoded buffer length */
-- 
2.43.0


From 7ef31aa12d58bceecc269f67d655768bbfc6f0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:57 +0000
Subject: [PATCH 20/75] fix: password files with long fields, CRLF line endings
 or an unterminated last line

---
 src/viriatum_commons/formats/passwd.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/viriatum_commons/formats/passwd.c b/src/viriatum_commons/formats/passwd.c
index 6bedccf..830ea18 100644
--- a/src/viriatum_commons/formats/passwd.c
+++ b/src/viriatum_commons/formats/passwd.c
@@ -52,10 +52,11 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
     unsigned char *pointer;
 
     /* allocates the space for the username and for the password
-    to be parsed, note that the username is allocated in stack
-    (static memory) as it's not going to be stored in map */
-    char username[128];
+    to be parsed, note that the username is kept in a buffer that
+    may hold the complete file as it's not going to be stored in map */
+    char *username;
     char *password;
+    char *previous;
 
     /* creates the "final" hash map that is going to be used to
     associated a username with a password and then allocates the
@@ -67,12 +68,14 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
     provided path an in case an error occurs re-raises it */
     return_value = read_file(file_path, &buffer, &size);
     if(IS_ERROR_CODE(return_value)) {
+        delete_hash_map(passwd);
         RAISE_ERROR_F(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "Problem reading file %s",
             file_path
         );
     }
+    username = (char *) MALLOC(size + 1);
 
     /* sets the initial values for the mark pointer and for the
     state control flag, these represent the start of the loop */
@@ -80,12 +83,13 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
     state = PASSWD_USER;
 
     /* iterates over the buffer contents in its range to parse
-    it and populate the passwd hash map structure */
-    for(index = 0; index < size; index++) {
+    it and populate the passwd hash map structure, the end of
+    the file ends the last line even if there's no line break */
+    for(index = 0; index <= size; index++) {
         /* retrieves the current byte in iteration and the pointer
         address to the current buffer position */
-        current = buffer[index];
-        pointer = &buffer[index];
+        current = index < size ? buffer[index] : '\n';
+        pointer = buffer + index;
 
         /* switches over the current state to operate over the current
         buffer using the proper operation */
@@ -109,10 +113,17 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
                     case ':':
                     case '\n':
                         length = pointer - mark;
+                        if(current == '\n' && length > 0 && mark[length - 1] == '\r') { length--; }
                         password = (char *) MALLOC(length + 1);
                         memcpy(password, mark, length);
                         password[length] = '\0';
                         mark = pointer + 1;
+                        get_value_string_hash_map(
+                            passwd,
+                            (unsigned char *) username,
+                            (void **) &previous
+                        );
+                        if(previous != NULL) { FREE(previous); }
                         set_value_string_hash_map(
                             passwd,
                             (unsigned char *) username,
@@ -139,6 +150,7 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
     /* releases the buffer with the file contents used during
     the parsing of the passwd file (avoids memory leaks) */
     FREE(buffer);
+    FREE(username);
 
     /* updates the passwd structure pointer with the currently
     used hash map structure containing the various username to
-- 
2.43.0


From dbcd9be5d8d8ae9f7a030b655b7ebe8741876470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:43 +0000
Subject: [PATCH 21/75] fix: overwriting a key of an hash map changes only its
 value, keys with equal hashes are kept apart

---
 src/viriatum_commons/structures/hash_map.c | 27 ++++++++++++++--------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/viriatum_commons/structures/hash_map.c b/src/viriatum_commons/structures/hash_map.c
index e966013..b3c9ee7 100644
--- a/src/viriatum_commons/structures/hash_map.c
+++ b/src/viriatum_commons/structures/hash_map.c
@@ -143,6 +143,14 @@ void set_value_string_hash_map(struct hash_map_t *hash_map, unsigned char *key_s
     set_value_hash_map(hash_map, key, key_string, value);
 }
 
+/* verifies if the key string of the element is the provided
+one, an undefined key string refers any element of the key */
+static char _is_key_string_hash_map(struct hash_map_element_t *element, unsigned char *key_string) {
+    if(key_string == NULL) { return TRUE; }
+    if(element->key_string == NULL) { return FALSE; }
+    return strcmp((char *) element->key_string, (char *) key_string) == 0;
+}
+
 void get_hash_map(struct hash_map_t *hash_map, size_t key, unsigned char *key_string, struct hash_map_element_t **element_pointer) {
     /* allocates space for the hash map element to be used */
     struct hash_map_element_t *element;
@@ -168,7 +176,7 @@ void get_hash_map(struct hash_map_t *hash_map, size_t key, unsigned char *key_st
         requested (element found) note that an extra
         verification is done to make sure that in case
         a string key is specified it also matches */
-        if(element->key == key && (key_string == NULL || strcmp((char *) element->key_string, (char *) key_string) == 0)) {
+        if(element->key == key && _is_key_string_hash_map(element, key_string)) {
             /* breaks the loop */
             break;
         }
@@ -391,8 +399,9 @@ void _set_value_hash_map(struct hash_map_t *hash_map, size_t key, unsigned char
         element = &hash_map->elements_buffer[index];
 
         /* in case the element is empty or the
-        key is the same (overwrite) */
-        if(element->used == 0 || element->key == key) {
+        key is the same (overwrite), note that different
+        key strings may share the same (hash) key */
+        if(element->used == 0 || (element->key == key && _is_key_string_hash_map(element, key_string))) {
             /* breaks the loop */
             break;
         }
@@ -411,13 +420,11 @@ void _set_value_hash_map(struct hash_map_t *hash_map, size_t key, unsigned char
         }
     }
 
-    /* in case the key string is already defined in the
-    element (must release it properly) unsets it */
-    if(element->key_string != NULL) {
-        /* releases the key string memory (avoids memory leak)
-        and then unsets the key string reference in the element */
-        FREE(element->key_string);
-        element->key_string = NULL;
+    /* in case the element is already in use only its value
+    is replaced, the key (string) and the size remain */
+    if(element->used == 1) {
+        element->value = value;
+        return;
     }
 
     /* sets the element fields */
-- 
2.43.0


From 4c8ee0efda4b1b850d999dac5aa58750d27888c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:43 +0000
Subject: [PATCH 22/75] fix: setting an existing key of a sort map keeps its
 single position

---
 src/viriatum_commons/structures/sort_map.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/viriatum_commons/structures/sort_map.c b/src/viriatum_commons/structures/sort_map.c
index f447289..e68940c 100644
--- a/src/viriatum_commons/structures/sort_map.c
+++ b/src/viriatum_commons/structures/sort_map.c
@@ -59,6 +59,11 @@ void delete_sort_map(struct sort_map_t *sort_map) {
 void set_value_sort_map(struct sort_map_t *sort_map, size_t key, unsigned char *key_string, void *value) {
     struct hash_map_element_t *element;
 
+    /* in case the key already exists only the value changes, the
+    key keeps its position in the order of the sort map */
+    get_hash_map(sort_map->hash_map, key, key_string, &element);
+    if(element->used == 1) { element->value = value; return; }
+
     set_value_hash_map(sort_map->hash_map, key, key_string, value);
     get_hash_map(sort_map->hash_map, key, key_string, &element);
     append_value_linked_list(sort_map->key_list, (void *) key);
-- 
2.43.0


From b8722956e0f02aa053d204fee9923cbdb35b7664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:43 +0000
Subject: [PATCH 23/75] fix: a cleared linked list no longer refers to its
 deleted nodes

---
 src/viriatum_commons/structures/linked_list.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/viriatum_commons/structures/linked_list.c b/src/viriatum_commons/structures/linked_list.c
index 2c3e233..351e732 100644
--- a/src/viriatum_commons/structures/linked_list.c
+++ b/src/viriatum_commons/structures/linked_list.c
@@ -128,8 +128,10 @@ void clear_linked_list(struct linked_list_t *linked_list) {
     }
 
     /* resets the linked list size to the original
-    empty value of zero */
+    empty value of zero, no node remains in the list */
     linked_list->size = 0;
+    linked_list->first = NULL;
+    linked_list->last = NULL;
 }
 
 void append_linked_list(struct linked_list_t *linked_list, struct linked_list_node_t *linked_list_node) {
-- 
2.43.0


From 2182243a6f58a26d3d28964f91391dbc86a6a55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:43 +0000
Subject: [PATCH 24/75] fix: nodes removed from a linked list keep no links to
 it

---
 src/viriatum_commons/structures/linked_list.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/viriatum_commons/structures/linked_list.c b/src/viriatum_commons/structures/linked_list.c
index 351e732..59bacee 100644
--- a/src/viriatum_commons/structures/linked_list.c
+++ b/src/viriatum_commons/structures/linked_list.c
@@ -315,6 +315,10 @@ void remove_linked_list(struct linked_list_t *linked_list, struct linked_list_no
     has shrinked in size by one */
     linked_list->size--;
 
+    /* the removed node is no longer linked to the list */
+    linked_list_node->previous = NULL;
+    linked_list_node->next = NULL;
+
     /* in case the delete node flag is set, must remote the
     memory allocated for the linked list node */
     if(delete_node) { delete_linked_list_node(linked_list_node); }
-- 
2.43.0


From 7c86dac8d4861d02130af377d592cffae65e5aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:43 +0000
Subject: [PATCH 25/75] fix: linked list indexes past the end refer to no value

---
 src/viriatum_commons/structures/linked_list.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/viriatum_commons/structures/linked_list.c b/src/viriatum_commons/structures/linked_list.c
index 59bacee..c257680 100644
--- a/src/viriatum_commons/structures/linked_list.c
+++ b/src/viriatum_commons/structures/linked_list.c
@@ -371,7 +371,7 @@ void remove_index_linked_list(struct linked_list_t *linked_list, size_t index, c
     current_node = linked_list->first;
 
     /* iterates over the index value */
-    for(_index = 0; _index < index; _index++) {
+    for(_index = 0; _index < index && current_node != NULL; _index++) {
         /* sets the current node as the next node */
         current_node = current_node->next;
     }
@@ -391,7 +391,7 @@ void get_linked_list(struct linked_list_t *linked_list, size_t index, struct lin
     current_node = linked_list->first;
 
     /* iterates over the index value */
-    for(_index = 0; _index < index; _index++) {
+    for(_index = 0; _index < index && current_node != NULL; _index++) {
         /* sets the current node as the next node */
         current_node = current_node->next;
     }
@@ -408,7 +408,7 @@ void get_value_linked_list(struct linked_list_t *linked_list, size_t index, void
     get_linked_list(linked_list, index, &linked_list_node);
 
     /* sets the linked list node value in the value pointer */
-    *value_pointer = linked_list_node->value;
+    *value_pointer = linked_list_node == NULL ? NULL : linked_list_node->value;
 }
 
 void pop_linked_list(struct linked_list_t *linked_list, struct linked_list_node_t **linked_list_node_pointer) {
-- 
2.43.0


From 76e81140e7bddec6a410e6723d12dc62ffc07d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:43 +0000
Subject: [PATCH 26/75] fix: popping an empty priority queue keeps its size

---
 src/viriatum_commons/structures/priority_queue.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/viriatum_commons/structures/priority_queue.c b/src/viriatum_commons/structures/priority_queue.c
index dadb1cd..8d42df9 100644
--- a/src/viriatum_commons/structures/priority_queue.c
+++ b/src/viriatum_commons/structures/priority_queue.c
@@ -104,7 +104,8 @@ void push_priority_queue(struct priority_queue_t *priority_queue, void *value) {
 
 void pop_priority_queue(struct priority_queue_t *priority_queue, void **value_pointer) {
     /* pops a value from the underlying list directly to the value pointer
-    and then decrements the size of the current priority queue */
+    and then updates the size of the current priority queue, popping
+    an empty queue changes nothing */
     pop_value_linked_list(priority_queue->list, value_pointer, TRUE);
-    priority_queue->size--;
+    priority_queue->size = priority_queue->list->size;
 }
-- 
2.43.0


From f2130b0e75aaccbbab5be6dcbced67d719a9ac42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:43 +0000
Subject: [PATCH 27/75] fix: array list elements are addressed in bytes

---
 src/viriatum_commons/structures/array_list.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viriatum_commons/structures/array_list.c b/src/viriatum_commons/structures/array_list.c
index dce5ad0..4a289ea 100644
--- a/src/viriatum_commons/structures/array_list.c
+++ b/src/viriatum_commons/structures/array_list.c
@@ -71,7 +71,7 @@ void set_array_list(struct array_list_t *array_list, size_t index, void *element
     size_t base_index = array_list->element_size * index;
 
     /* retrieves the base address value */
-    void *base_address = &array_list->elements_buffer[base_index];
+    void *base_address = (unsigned char *) array_list->elements_buffer + base_index;
 
     /* copies the element to the array list
     elements buffer, using the element size */
@@ -83,7 +83,7 @@ void get_array_list(struct array_list_t *array_list, size_t index, void **elemen
     size_t base_index = array_list->element_size * index;
 
     /* retrieves the element from the element buffer */
-    void *element = &array_list->elements_buffer[base_index];
+    void *element = (unsigned char *) array_list->elements_buffer + base_index;
 
     /* sets the element in the element pointer */
     *element_pointer = element;
-- 
2.43.0


From ab617d73ddd02634ecc6bf732746c83d37500b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:29 +0000
Subject: [PATCH 28/75] fix: byte ranges are parsed as such, suffix,
 unsatisfiable and malformed ones included

---
 src/viriatum/handlers/handler_file.c |  55 ++++++++++++---
 src/viriatum/http/http_util.c        | 100 ++++++++++-----------------
 2 files changed, 81 insertions(+), 74 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index e28e097..df01c9c 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -552,6 +552,7 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
     /* allocates the space for the "read" result
     error code (valid by default) */
     ERROR_CODE error_code = 0;
+    ERROR_CODE range_error;
 
     /* allocates the space required for the authentication result
     boolean value to be used by the basic authentication system */
@@ -736,6 +737,18 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
         }
     }
 
+    /* in case there's a range retrieves the initial and final bytes for it
+    in accordance with the file size, an invalid range is to be ignored */
+    if(!is_directory && !IS_ERROR_CODE(error_code) && handler_file_context->range_status == 2) {
+        range_error = get_http_range_limits(
+            handler_file_context->range,
+            &handler_file_context->initial_byte,
+            &handler_file_context->final_byte,
+            file_size
+        );
+        if(IS_ERROR_CODE(range_error)) { handler_file_context->range_status = 1; }
+    }
+
     /* sets the (HTTP) flags in the handler file context */
     handler_file_context->flags = http_parser->flags;
 
@@ -871,19 +884,39 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
             handler_file_context
         );
     }
+    /* in case the range selects no bytes of the file there is nothing
+    to be sent, only the size of the file is returned to the client */
+    else if(handler_file_context->range_status == 2 &&\
+        handler_file_context->initial_byte >= file_size) {
+        count = write_http_headers_c(
+            connection,
+            headers_buffer,
+            VIRIATUM_HTTP_SIZE,
+            HTTP11,
+            416,
+            "Range Not Satisfiable",
+            keep_alive ? KEEP_ALIVE : KEEP_CLOSE,
+            0,
+            NO_CACHE,
+            FALSE
+        );
+        SPRINTF(
+            &headers_buffer[count],
+            VIRIATUM_HTTP_SIZE - count,
+            CONTENT_RANGE_H ": bytes */%ld\r\n\r\n",
+            (long int) file_size
+        );
+        write_connection(
+            connection,
+            (unsigned char *) headers_buffer,
+            (unsigned int) strlen(headers_buffer),
+            _cleanup_handler_file,
+            handler_file_context
+        );
+    }
     /* in case the range value is set for the current file request
-    must calculate the range and retrive the associated file chunk */
+    must retrive the associated file chunk */
     else if(handler_file_context->range_status == 2) {
-        /* retrieves the initial and final bytes for the requested
-        range, the final range is set in accordance with the file
-        size that is provided */
-        get_http_range_limits(
-            handler_file_context->range,
-            &handler_file_context->initial_byte,
-            &handler_file_context->final_byte,
-            file_size
-        );
-
         /* writes the HTTP static headers to the response indicating
         that only a part of the file is going to be retrieved, then
         writes also the content range header indicating which bytes
diff --git a/src/viriatum/http/http_util.c b/src/viriatum/http/http_util.c
index 6a6063e..fc5c6ba 100644
--- a/src/viriatum/http/http_util.c
+++ b/src/viriatum/http/http_util.c
@@ -29,6 +29,8 @@
 
 #include "http_util.h"
 
+#include <limits.h>
+
 size_t write_http_headers(
     struct connection_t *connection,
     char *buffer, size_t size,
@@ -427,75 +429,47 @@ ERROR_CODE write_http_error_a(
 }
 
 ERROR_CODE get_http_range_limits(unsigned char *range, size_t *initial_byte, size_t *final_byte, size_t size) {
-    /* allocates space for the byte to be used in the iteration,
-    for the mark value and for the iteration index counter */
-    char byte;
-    char *start;
-    char *end;
-    size_t mark;
-    size_t index;
-
-    /* creates the inital and final local values and starts them
-    at the invalid (unset) values (intial state) */
-    long long initial_byte_v = -1;
-    long long final_byte_v = -1;
-
-    /* retrieves the size of the range string using the normal
-    length if a string function */
-    size_t range_s = strlen((char *) range);
-
-    /* initializes the mark value with a zero indicating that the
-    equals separator may not be found (avoids critical problems) */
-    mark = 0;
-
-    /* iterates over the range string character values to try to
-    find the various key values in it from the byte */
-    for(index = 0; index < range_s; index++) {
-        /* retrieves the current byte in iteration and runs the
-        switch testing against it */
-        byte = range[index];
-        switch(byte) {
-            case '=':
-                mark = index + 1;
-                break;
-
-            case '-':
-                if(index == 0) { initial_byte_v = 0; }
-                else {
-                    start = (char *) &range[mark];
-                    end = (char *) &range[index - 1];
-                    initial_byte_v = (long long) STROULL(start, &end, 10);
-                }
-                mark = index + 1;
-                break;
-
-            case '\0':
-            case ',':
-                if(index == mark) { final_byte_v = size - 1; }
-                else {
-                    start = (char *) &range[mark];
-                    end = (char *) &range[index - 1];
-                    initial_byte_v = (long long) STROULL(start, &end, 10);
-                }
-                break;
+    /* allocates space for the values of the range and for the flags
+    that control if each of them is defined in the range string */
+    size_t values[2] = { 0, 0 };
+    size_t counts[2] = { 0, 0 };
+    size_t index = 0;
+
+    /* only the single range of bytes is supported, note that the
+    name of the unit is case insensitive */
+    const char *unit = "bytes=";
+    for(; *unit != '\0'; unit++, range++) {
+        if(tolower(*range) != *unit) {
+            RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Invalid range unit");
         }
     }
 
-    /* in case the final byte value hasn't been already
-    set time to update its value with the final byte */
-    if(final_byte_v == -1) {
-        if(index == mark) { final_byte_v = size - 1; }
-        else {
-            start = (char *) &range[mark];
-            end = (char *) &range[index - 1];
-            final_byte_v = (long long) STROULL(start, &end, 10);
+    /* parses the initial and the final values, saturating the ones that
+    are larger than any file */
+    for(; *range != '\0'; range++) {
+        if(*range == '-' && index == 0) { index = 1; continue; }
+        if(*range < '0' || *range > '9') {
+            RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Invalid range");
         }
+        values[index] = values[index] > (LONG_MAX - 9) / 10 ? LONG_MAX : values[index] * 10 + (*range - '0');
+        counts[index]++;
+    }
+    if(index == 0 || (counts[0] == 0 && counts[1] == 0) ||
+        (counts[0] > 0 && counts[1] > 0 && values[0] > values[1])) {
+        RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Invalid range");
     }
 
-    /* updates both the initial and the final byte pointer
-    references with the appropriate values */
-    *initial_byte = initial_byte_v > 0 ? (size_t) initial_byte_v : 0;
-    *final_byte = final_byte_v > 0 ? (size_t) final_byte_v : 0;
+    /* computes the limits of the range, a suffix range selects the last
+    bytes and a range without end goes until the end of the contents, an
+    initial byte that is not smaller than the size represents a range
+    that selects no bytes at all */
+    if(counts[0] == 0) {
+        *initial_byte = values[1] == 0 ? size : values[1] < size ? size - values[1] : 0;
+        *final_byte = size - 1;
+    } else {
+        *initial_byte = values[0];
+        *final_byte = counts[1] == 0 || values[1] >= size ? size - 1 : values[1];
+    }
 
     /* raises no error as both the initial and the final
     byte values have been computed with success */
-- 
2.43.0


From 674098df63e7c34de01845851f567590543a36d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:29 +0000
Subject: [PATCH 29/75] fix: a file that shrinks or disappears while it is sent
 closes the connection

---
 src/viriatum/handlers/handler_file.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index df01c9c..f675796 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -1338,8 +1338,13 @@ ERROR_CODE _send_chunk_handler_file(struct connection_t *connection, struct data
     /* in case the file is not defined (should be opened) */
     if(file == NULL) {
         /* opens the file in the most secure manner making sure
-        that the proper encoding is set for the path */
-        open_file((char *) file_path, "rb", &file);
+        that the proper encoding is set for the path, in case the file
+        is no longer available the announced contents are not possible
+        to be sent and so the connection must be closed */
+        if(IS_ERROR_CODE(open_file((char *) file_path, "rb", &file))) {
+            handler_file_context->flags &= ~FLAG_KEEP_ALIVE;
+            return _cleanup_handler_file(connection, data, parameters);
+        }
 
         /* seeks to the end of the file and then to the
         beginig in order to correctly retrieve the size
@@ -1386,6 +1391,10 @@ ERROR_CODE _send_chunk_handler_file(struct connection_t *connection, struct data
     /* otherwise the file "transfer" is complete and the control
     flow should proceed to the cleanup operations */
     else {
+        /* in case the file has less contents than the announced ones the
+        connection must be closed (the message is not complete) */
+        if(remaining > 0) { handler_file_context->flags &= ~FLAG_KEEP_ALIVE; }
+
         /* unsets the file from the handler file context */
         handler_file_context->file = NULL;
 
-- 
2.43.0


From 42b767e7a406ae7bb6468156ff254b41f3016a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:29 +0000
Subject: [PATCH 30/75] fix: directory URLs are bounded by the buffers of the
 redirection and of the listing

---
 src/viriatum/handlers/handler_file.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index f675796..07a0a03 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -587,6 +587,12 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
     messages to be processed, no parallel request handling problems */
     http_connection->acquire(http_connection);
 
+    /* an URL that does not fit the buffers used in the redirection and
+    in the listing names no file */
+    if(strlen((char *) handler_file_context->url) >= VIRIATUM_MAX_PATH_SIZE - 1) {
+        handler_file_context->file_path_d[0] = '\0';
+    }
+
     /* checks if the path being request is in fact a directory */
     is_directory_file((char *) handler_file_context->file_path_d, &is_directory);
 
-- 
2.43.0


From bef45a3c250c765ab23ae795b9f69b7114c93217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:29 +0000
Subject: [PATCH 31/75] fix: an extension that does not fit its buffer has no
 mime type

---
 src/viriatum/system/service.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index f355764..8e24752 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -2302,6 +2302,7 @@ const char *_get_mime_type_service(struct service_t *service, char *extension) {
     char extension_l[VIRIATUM_MAX_EXTENSION_SIZE];
     size_t extension_s = strlen(extension);
     struct service_options_t *service_options = service->options;
+    if(extension_s >= VIRIATUM_MAX_EXTENSION_SIZE) { return NULL; }
     memcpy(extension_l, extension, extension_s);
     extension_l[extension_s] = '\0';
     lowercase(extension_l);
-- 
2.43.0


From 53238dc1e0633a435aa7316bd25e815da296ebe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:22 +0000
Subject: [PATCH 32/75] fix: the listening socket is closed only once on
 shutdown

---
 src/viriatum/system/service.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index 8e24752..e214bdd 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -1220,6 +1220,10 @@ ERROR_CODE close_connections_service(struct service_t *service) {
         current_connection->close_connection(current_connection);
     }
 
+    /* the service socket was closed with its connection and so its
+    descriptor must not be closed again with the service */
+    service->service_socket_handle = 0;
+
 #ifdef VIRIATUM_SSL
     /* closes the ssl context for the current serice, this should disable
     all the metadata access to the ssl */
-- 
2.43.0


From f0b8b54f4964e4884d1e89f2206a03ef2488b33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:11 +0000
Subject: [PATCH 33/75] fix: the path of a request being dispatched may have
 any size

---
 src/viriatum/handlers/handler_dispatch.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/viriatum/handlers/handler_dispatch.c b/src/viriatum/handlers/handler_dispatch.c
index d608614..71fb081 100644
--- a/src/viriatum/handlers/handler_dispatch.c
+++ b/src/viriatum/handlers/handler_dispatch.c
@@ -29,6 +29,9 @@
 
 #include "handler_dispatch.h"
 
+/* the size of the index file names (from the options) */
+#define INDEX_SIZE_HANDLER_DISPATCH 128
+
 ERROR_CODE create_dispatch_handler(struct dispatch_handler_t **dispatch_handler_pointer, struct http_handler_t *http_handler) {
     /* retrieves the dispatch handler size */
     size_t dispatch_handler_size = sizeof(struct dispatch_handler_t);
@@ -200,8 +203,9 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
     unsigned char *handler_name;
 
     /* allocates the required space for the path and the
-    base path, this is done through static allocation */
-    unsigned char path[VIRIATUM_MAX_URL_SIZE];
+    base path, the path is dynamically allocated as there's
+    no limit to the size of it in the request */
+    unsigned char *path;
     unsigned char base_path[VIRIATUM_MAX_URL_SIZE];
 
     /* retrieves the various connection elements and lower substrates
@@ -223,7 +227,9 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
     size_t path_size = pointer == NULL ? data_size : pointer - (char *) data;
 
     /* copies the memory from the data to the path (partial url),
-    then puts the end of string in the path */
+    then puts the end of string in the path, note that there's space
+    reserved for the name of an index file */
+    path = (unsigned char *) MALLOC(path_size + INDEX_SIZE_HANDLER_DISPATCH);
     memcpy(path, data, path_size);
     path[path_size] = '\0';
 
@@ -361,6 +367,9 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
         V_ERROR_F("Error retrieving '%s' handler reference\n", handler_name);
     }
 
+    /* releases the path, no longer required */
+    FREE(path);
+
     /* raise no error */
     RAISE_NO_ERROR;
 }
-- 
2.43.0


From f235d4be1a0d4bb9eabd69439132b64a380cc31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:11 +0000
Subject: [PATCH 34/75] fix: resolving an index file keeps the location unless
 another one matches it

---
 src/viriatum/handlers/handler_dispatch.c | 30 ++++++++++++++----------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/viriatum/handlers/handler_dispatch.c b/src/viriatum/handlers/handler_dispatch.c
index 71fb081..5cad07b 100644
--- a/src/viriatum/handlers/handler_dispatch.c
+++ b/src/viriatum/handlers/handler_dispatch.c
@@ -188,6 +188,7 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
     size_t _index;
     size_t match_size;
     size_t virtual_url_offset;
+    size_t virtual_url_size;
     int offsets[3] = { 0, 0, 0 };
     char regex_match = 0;
 #endif
@@ -298,34 +299,36 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
                 path[path_size] = '\0';
 
 #ifdef VIRIATUM_PCRE
-                /* saves the current match index so that it's possible
-                to detect if the index file resolution changed the handler
-                for the current request */
-                _index = index;
-
                 /* iterates over all the regular expressions so that they
-                may be tested agains the current path */
-                for(index = 0; index < dispatch_handler->regex_count; index++) {
+                may be tested agains the current path, in case none matches
+                the handler selected for the original path remains */
+                for(_index = 0; _index < dispatch_handler->regex_count; _index++) {
                     /* tries to match the current path against the registered
                     regular expression in case it fails continues the loop */
-                    matching = pcre_exec(dispatch_handler->regex[index], NULL, (char *) path, path_size, 0, 0, offsets, 3);
+                    matching = pcre_exec(dispatch_handler->regex[_index], NULL, (char *) path, path_size, 0, 0, offsets, 3);
                     if(matching < 0) { continue; }
 
                     /* sets the name of the handler as the name in the current index
                     and updates the match flag and the breaks the loop to process it */
+                    index = _index;
                     handler_name = dispatch_handler->names[index];
                     regex_match = 1;
                     match_size = (size_t) offsets[1];
                     break;
                 }
 
-                /* in case the matching index has changed a new handler reference
+                /* the matching index may have changed and so a new handler reference
                 must be retrieved from the map containing the HTTP handlers */
-                if(index != _index) { get_value_string_hash_map(service->http_handlers_map, handler_name, (void **) &handler); }
+                get_value_string_hash_map(service->http_handlers_map, handler_name, (void **) &handler);
 #endif
             }
         }
 
+    }
+
+    /* in case the handler exists the request is going to be given to it,
+    note that the index file may belong to a location of its own */
+    if(handler) {
         /* retrieves the current handler and then unsets it
         from the connection (detach) then sets the the proper
         handler in the connection and notifies it of the url */
@@ -346,8 +349,9 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
             if the matched value starts with a slash value for such cases the
             offset to the virtual url must be reduced otherwise abnormal values
             to the url would be considered (creating additional path problems) */
-            virtual_url_offset = match_size > 0 && data[match_size - 1] == '/' ?\
+            virtual_url_offset = match_size > 0 && path[match_size - 1] == '/' ?\
                 match_size - 1 : match_size;
+            virtual_url_size = virtual_url_offset < data_size ? virtual_url_offset : data_size;
             CALL_V(
                 http_connection->http_settings->on_location,
                 http_parser,
@@ -357,8 +361,8 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
             CALL_V(
                 http_connection->http_settings->on_virtual_url,
                 http_parser,
-                data + virtual_url_offset,
-                data_size - virtual_url_offset
+                data + virtual_url_size,
+                data_size - virtual_url_size
             );
         }
 #endif
-- 
2.43.0


From a5ab42be077dd0f3abde2bded19638937f613e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:11 +0000
Subject: [PATCH 35/75] fix: index files are searched in the directory the
 request names

---
 src/viriatum/handlers/handler_dispatch.c | 40 ++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/viriatum/handlers/handler_dispatch.c b/src/viriatum/handlers/handler_dispatch.c
index 5cad07b..755e813 100644
--- a/src/viriatum/handlers/handler_dispatch.c
+++ b/src/viriatum/handlers/handler_dispatch.c
@@ -208,6 +208,9 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
     no limit to the size of it in the request */
     unsigned char *path;
     unsigned char base_path[VIRIATUM_MAX_URL_SIZE];
+    size_t base_path_size;
+    size_t root_offset;
+    unsigned char *root_path;
 
     /* retrieves the various connection elements and lower substrates
     fomr the parser parameters and then uses them to retrieves the handler
@@ -277,11 +280,42 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
         index configuration option */
         if(handler->resolve_index && options->default_index
             && (path_size == 0 || path[path_size - 1] == '/')) {
+            /* the path of the location is relative to the base path of
+            it, in case there's one defined in its configuration */
+            root_path = NULL;
+            root_offset = 0;
+#ifdef VIRIATUM_PCRE
+            if(regex_match) {
+                get_value_string_sort_map(
+                    service->locations.values[index].configuration,
+                    (unsigned char *) "base_path",
+                    (void **) &root_path
+                );
+                if(root_path != NULL) {
+                    root_offset = match_size > 0 && path[match_size - 1] == '/' ?\
+                        match_size - 1 : match_size;
+                }
+            }
+#endif
+
             /* creates the base path from the viriatum contents path
-            and the current provided path and then runs the file existence
+            and the (decoded) current provided path and then runs the file existence
             validation process using the index array provided */
-            SPRINTF((char *) base_path, VIRIATUM_MAX_PATH_SIZE, "%s%s", VIRIATUM_CONTENTS_PATH, path);
-            index_ = validate_file((char *) base_path, (char *) options->index, 32, 128);
+            base_path_size = SPRINTF(
+                (char *) base_path,
+                VIRIATUM_MAX_PATH_SIZE,
+                "%s",
+                root_path == NULL ? VIRIATUM_CONTENTS_PATH : (char *) root_path
+            );
+            if(base_path_size + path_size - root_offset < VIRIATUM_MAX_PATH_SIZE) {
+                decode_percent(
+                    path + root_offset,
+                    path_size - root_offset,
+                    base_path + base_path_size,
+                    &base_path_size
+                );
+                index_ = validate_file((char *) base_path, (char *) options->index, 32, 128);
+            } else { index_ = NULL; }
 
             /* in case the index file resolution was successfull
             (a new file was resolved) must match the file path through
-- 
2.43.0


From a9fb1e5722ebf691c7090992c84058d09b2f6bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:33 +0000
Subject: [PATCH 36/75] fix: the location of a request does not depend on the
 way its path is encoded

---
 src/viriatum/handlers/handler_dispatch.c | 92 +++++++++++++++++++++++-
 1 file changed, 91 insertions(+), 1 deletion(-)

diff --git a/src/viriatum/handlers/handler_dispatch.c b/src/viriatum/handlers/handler_dispatch.c
index 755e813..fc3de6b 100644
--- a/src/viriatum/handlers/handler_dispatch.c
+++ b/src/viriatum/handlers/handler_dispatch.c
@@ -32,6 +32,73 @@
 /* the size of the index file names (from the options) */
 #define INDEX_SIZE_HANDLER_DISPATCH 128
 
+/* converts the path to the form in which it's matched against the
+locations, the one that names the same resource with no dot segments,
+no repeated slashes and only the required percent escapes, returns the
+size of it or zero in case there's no such form (outside of the root),
+the target buffer must have three times the size of the path */
+static size_t _normalize_handler_dispatch(unsigned char *path, size_t path_size, unsigned char *target, char *collapsed) {
+    size_t index;
+    size_t size;
+    size_t start = 1;
+    size_t count = 1;
+    unsigned char byte;
+    unsigned char *decoded;
+
+    *collapsed = FALSE;
+    if(path_size == 0 || path[0] != '/') { return 0; }
+
+    /* decodes the path and then copies each of its segments to the
+    (in place) result, removing from it the ones that are canceled */
+    decoded = (unsigned char *) MALLOC(path_size + 1);
+    decode_percent(path, path_size, decoded, &size);
+    for(index = 1; index <= size; index++) {
+        if(index < size && decoded[index] != '/') { continue; }
+        if((index == start && index < size) || (index - start == 1 && decoded[start] == '.')) {
+            *collapsed = TRUE;
+        } else if(index - start == 2 && decoded[start] == '.' && decoded[start + 1] == '.') {
+            *collapsed = TRUE;
+            if(count == 1) { FREE(decoded); return 0; }
+            for(count--; decoded[count - 1] != '/'; count--) { }
+        } else {
+            memmove(decoded + count, decoded + start, index - start);
+            count += index - start;
+            if(index < size) { decoded[count++] = '/'; }
+        }
+        start = index + 1;
+    }
+
+    /* encodes back the characters that may not be part of a path */
+    for(index = 0, size = 0; index < count; index++) {
+        byte = decoded[index];
+        if(isalphanum(byte) || (byte != '\0' && strchr("-_.~/!$&'()*,;=:@", byte) != NULL)) {
+            target[size++] = byte;
+        } else {
+            target[size++] = '%';
+            target[size++] = toupper(to_hex(byte >> 4));
+            target[size++] = toupper(to_hex(byte & 15));
+        }
+    }
+
+    FREE(decoded);
+    return size;
+}
+
+#ifdef VIRIATUM_PCRE
+/* retrieves the index of the first location that matches the path or
+the number of locations in case there's none */
+static size_t _match_handler_dispatch(struct dispatch_handler_t *dispatch_handler, unsigned char *path, size_t path_size) {
+    size_t index;
+    int offsets[3] = { 0, 0, 0 };
+
+    for(index = 0; index < dispatch_handler->regex_count; index++) {
+        if(pcre_exec(dispatch_handler->regex[index], NULL, (char *) path, path_size, 0, 0, offsets, 3) >= 0) { break; }
+    }
+
+    return index;
+}
+#endif
+
 ERROR_CODE create_dispatch_handler(struct dispatch_handler_t **dispatch_handler_pointer, struct http_handler_t *http_handler) {
     /* retrieves the dispatch handler size */
     size_t dispatch_handler_size = sizeof(struct dispatch_handler_t);
@@ -191,6 +258,9 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
     size_t virtual_url_size;
     int offsets[3] = { 0, 0, 0 };
     char regex_match = 0;
+    char collapsed;
+    size_t normal_size;
+    unsigned char *normal;
 #endif
 
     /* allocates space for the pointer to the index file name
@@ -233,10 +303,27 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
     /* copies the memory from the data to the path (partial url),
     then puts the end of string in the path, note that there's space
     reserved for the name of an index file */
-    path = (unsigned char *) MALLOC(path_size + INDEX_SIZE_HANDLER_DISPATCH);
+    path = (unsigned char *) MALLOC(path_size * 3 + INDEX_SIZE_HANDLER_DISPATCH);
     memcpy(path, data, path_size);
     path[path_size] = '\0';
 
+#ifdef VIRIATUM_PCRE
+    /* the location is the one of the resource that is named by the path
+    and so it must not depend on the way the path is written, in case it
+    does the path and the url are replaced by their normal form */
+    normal = (unsigned char *) MALLOC(data_size * 3 + 1);
+    normal_size = _normalize_handler_dispatch(path, path_size, normal, &collapsed);
+    if(normal_size > 0 && (collapsed || _match_handler_dispatch(dispatch_handler, path, path_size) !=
+        _match_handler_dispatch(dispatch_handler, normal, normal_size))) {
+        memcpy(path, normal, normal_size);
+        path[normal_size] = '\0';
+        memcpy(normal + normal_size, data + path_size, data_size - path_size);
+        data_size = normal_size + data_size - path_size;
+        data = normal;
+        path_size = normal_size;
+    }
+#endif
+
     /* sets the default handler, this is considered to be
     the fallback in case no handler is found */
     handler_name = (unsigned char *) DISPATCH_DEFAULT_HANDLER;
@@ -407,6 +494,9 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
 
     /* releases the path, no longer required */
     FREE(path);
+#ifdef VIRIATUM_PCRE
+    FREE(normal);
+#endif
 
     /* raise no error */
     RAISE_NO_ERROR;
-- 
2.43.0


From 552092c1cbaade66257fa6d475cd2105cfa3acce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:54 +0000
Subject: [PATCH 37/75] fix: unauthorized requests do not reveal which files
 exist

---
 src/viriatum/handlers/handler_file.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index 07a0a03..f59c0ad 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -759,8 +759,9 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
     handler_file_context->flags = http_parser->flags;
 
     /* tests the error code for error, in case there's an error
-    the file is considered to be not found (normal error) */
-    if(IS_ERROR_CODE(error_code)) {
+    the file is considered to be not found (normal error), only
+    authorized requests may know that the file does not exist */
+    if(auth_result && IS_ERROR_CODE(error_code)) {
         /* prints the information about the current error */
         V_DEBUG_F("%s\n", get_last_error_message_safe());
 
-- 
2.43.0


From d96e4d4ae24b7d1a27f3c1e6e3e5626345c576ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:42 +0000
Subject: [PATCH 38/75] fix: an item released from a full chunk of a memory
 pool is its lowest free one

---
 src/viriatum_commons/memory/memory_pool.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/viriatum_commons/memory/memory_pool.h b/src/viriatum_commons/memory/memory_pool.h
index d8ae517..2e475f7 100644
--- a/src/viriatum_commons/memory/memory_pool.h
+++ b/src/viriatum_commons/memory/memory_pool.h
@@ -701,6 +701,10 @@ static __inline void pfree(struct memory_pool_t *pool, void *buffer) {
     index_c = ((size_t) buffer - (size_t) chunk->buffer) / chunk->item_size;
     chunk->bitmap[index_c] = 0;
 
+    /* in case the chunk was full it had no free item, and so
+    the released one is now its lowest free item */
+    if(chunk->is_full) { chunk->free = index_c; }
+
     /* ensures that the is full flag of the chunk is set
     to false as there's at least one item available for
     allocation, then decrement the current item alloc
-- 
2.43.0


From 04643542fdabe36b8c5988d061567d4049ece2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:24 +0000
Subject: [PATCH 39/75] fix: error messages of any size

---
 src/viriatum/handlers/handler_file.c |  4 ++--
 src/viriatum/http/http_util.c        | 15 +++++++++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index f59c0ad..ac6b109 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -547,7 +547,7 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
     /* allocates space for the temporary buffer that will hold
     the description of the error to be sent to the client in case
     there is a problem (eg: file not found) */
-    char error_description[VIRIATUM_MAX_PATH_SIZE];
+    char error_description[VIRIATUM_MAX_PATH_SIZE + 32];
 
     /* allocates the space for the "read" result
     error code (valid by default) */
@@ -769,7 +769,7 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
         sends the error to the connection (with the current format) */
         SPRINTF(
             error_description,
-            VIRIATUM_MAX_PATH_SIZE,
+            sizeof(error_description),
             "File not found (%s)",
             handler_file_context->file_path_d
         );
diff --git a/src/viriatum/http/http_util.c b/src/viriatum/http/http_util.c
index fc5c6ba..444d4ca 100644
--- a/src/viriatum/http/http_util.c
+++ b/src/viriatum/http/http_util.c
@@ -274,7 +274,8 @@ ERROR_CODE write_http_error_a(
 
     /* allocates space for the "possible" locally generated
     error description (format based generation) */
-    char _error_description[1024];
+    char *_error_description;
+    size_t _error_size;
 
     /* allocates space to the path to the template file to
     be used for template generation */
@@ -389,15 +390,24 @@ ERROR_CODE write_http_error_a(
         string in order to be correctly displayed then formats the error
         message using the code, message and description */
         error_description = error_description == NULL ? (char *) service->description : error_description;
+        _error_size = strlen(error_message) + strlen(error_description) + 32;
+        _error_description = MALLOC(_error_size);
         SPRINTF(
             _error_description,
-            sizeof(_error_description),
+            _error_size,
             "%d - %s - %s",
             error_code,
             error_message,
             error_description
         );
 
+        /* the headers and the message share the headers buffer, that
+        must be able to hold a message of any size */
+        if(size < _error_size + 1024) {
+            size = _error_size + 1024;
+            headers_buffer = REALLOC(headers_buffer, size);
+        }
+
         /* writes the HTTP static headers to the response and
         then writes the error description itself */
         write_http_headers_m(
@@ -412,6 +422,7 @@ ERROR_CODE write_http_error_a(
             NO_CACHE,
             _error_description
         );
+        FREE(_error_description);
 
         /* writes both the headers to the connection, an then
         registers for the appropriate callbacks */
-- 
2.43.0


From ccaab21e4279cd279880fc489e52fb39329159b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:55 +0000
Subject: [PATCH 40/75] fix: challenge sent with errors that use no template

---
 src/viriatum/http/http_util.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/viriatum/http/http_util.c b/src/viriatum/http/http_util.c
index 444d4ca..650084a 100644
--- a/src/viriatum/http/http_util.c
+++ b/src/viriatum/http/http_util.c
@@ -408,9 +408,21 @@ ERROR_CODE write_http_error_a(
             headers_buffer = REALLOC(headers_buffer, size);
         }
 
-        /* writes the HTTP static headers to the response and
-        then writes the error description itself */
-        write_http_headers_m(
+        /* writes the HTTP static headers to the response (including
+        the challenge in case there's a realm) and then writes the error
+        description itself */
+        realm == NULL ? write_http_headers_c(
+            connection,
+            headers_buffer,
+            size,
+            version,
+            error_code,
+            error_message,
+            keep_alive,
+            strlen(_error_description),
+            NO_CACHE,
+            TRUE
+        ) : write_http_headers_a(
             connection,
             headers_buffer,
             size,
@@ -420,8 +432,10 @@ ERROR_CODE write_http_error_a(
             keep_alive,
             strlen(_error_description),
             NO_CACHE,
-            _error_description
+            realm,
+            TRUE
         );
+        strcat(headers_buffer, _error_description);
         FREE(_error_description);
 
         /* writes both the headers to the connection, an then
-- 
2.43.0


From b10950dafd01ea4e2cdda369a9190c75f42d44bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:40 +0000
Subject: [PATCH 41/75] fix: file path buffer fits the path of any URL

---
 src/viriatum/handlers/handler_file.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum/handlers/handler_file.h b/src/viriatum/handlers/handler_file.h
index 138230a..e9d138e 100644
--- a/src/viriatum/handlers/handler_file.h
+++ b/src/viriatum/handlers/handler_file.h
@@ -115,7 +115,7 @@ typedef struct handler_file_context_t {
      * The path to the file to be handled by
      * the current file request.
      */
-    unsigned char file_path[VIRIATUM_MAX_PATH_SIZE];
+    unsigned char file_path[VIRIATUM_MAX_PATH_SIZE + VIRIATUM_MAX_URL_SIZE];
 
     /**
      * The url (percent) decoded version of the path
-- 
2.43.0


From 6292a202ab7074693f69f8a4677e7ee366cfcc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:27 +0000
Subject: [PATCH 42/75] fix: termination signals arriving right before the
 epoll wait are not lost

---
 src/viriatum/polling/polling_epoll.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/viriatum/polling/polling_epoll.c b/src/viriatum/polling/polling_epoll.c
index 3f0bbc0..274c639 100644
--- a/src/viriatum/polling/polling_epoll.c
+++ b/src/viriatum/polling/polling_epoll.c
@@ -448,6 +448,12 @@ ERROR_CODE _poll_polling_epoll(
     int index;
     int event_count;
 
+    /* allocates space for the sets of signals that are going
+    to be blocked outside the wait call and for the ones that
+    were already blocked before it */
+    sigset_t signals;
+    sigset_t previous;
+
     /* allocates space for the reference to the connection
     to be used in the iteration cycle (temporary object) */
     struct connection_t *connection;
@@ -478,12 +484,23 @@ ERROR_CODE _poll_polling_epoll(
         VIRIATUM_SELECT_TIMEOUT * 1000
     );
 #else
-    event_count = epoll_wait(
+    /* blocks the termination signals while the status of the service
+    is verified, they're received only inside the wait call, otherwise
+    a signal arriving right before the call would not unblock it */
+    sigemptyset(&signals);
+    sigaddset(&signals, SIGHUP);
+    sigaddset(&signals, SIGINT);
+    sigaddset(&signals, SIGQUIT);
+    sigaddset(&signals, SIGTERM);
+    sigprocmask(SIG_BLOCK, &signals, &previous);
+    event_count = service->status == STATUS_OPEN ? epoll_pwait(
         polling_epoll->epoll_fd,
         events,
         VIRIATUM_MAX_EVENTS,
-        -1
-    );
+        -1,
+        &previous
+    ) : 0;
+    sigprocmask(SIG_SETMASK, &previous, NULL);
 #endif
 
     /* prints a debug message */
-- 
2.43.0


From 2bfed18952c12beb502b8060cf8c8a546117c642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:45 +0000
Subject: [PATCH 43/75] fix: ini files with blank lines, white space,
 unterminated lines or long names are parsed correctly

---
 src/viriatum_commons/ini/ini.c          | 41 ++++++++++++++++++++-----
 src/viriatum_commons/ini/ini.h          |  4 +--
 src/viriatum_commons/util/string_util.h | 10 +++---
 3 files changed, 40 insertions(+), 15 deletions(-)

diff --git a/src/viriatum_commons/ini/ini.c b/src/viriatum_commons/ini/ini.c
index e7d90e9..6bac8c1 100644
--- a/src/viriatum_commons/ini/ini.c
+++ b/src/viriatum_commons/ini/ini.c
@@ -90,6 +90,10 @@ ERROR_CODE process_ini_file(char *file_path, struct sort_map_t **configuration_p
     characters should be removesd from key and values */
     ini_handler_s.remove_spaces = 1;
 
+    /* no section and no key have been found so far */
+    ini_handler_s.section = NULL;
+    ini_handler_s.key = NULL;
+
     /* reads the file contained in the provided file path
     and then tests the error code for error, in case there is an
     error prints it to the error stream output */
@@ -127,7 +131,7 @@ ERROR_CODE process_ini_file(char *file_path, struct sort_map_t **configuration_p
 
                     INI_MARK_N(comment_end, -1);
                     INI_CALLBACK(comment_start);
-                } else if(character == '\n' || character == '\r') {
+                } else if(character == '\n' || character == '\r' || character == ' ' || character == '\t') {
                     state = INI_ENGINE_NORMAL;
                 } else {
                     state = INI_ENGINE_KEY;
@@ -143,6 +147,9 @@ ERROR_CODE process_ini_file(char *file_path, struct sort_map_t **configuration_p
                     state = INI_ENGINE_NORMAL;
 
                     INI_CALLBACK_DATA(section_end);
+                } else if(character == '\n' || character == '\r') {
+                    /* the section is not terminated in its line */
+                    state = INI_ENGINE_NORMAL;
                 }
 
                 break;
@@ -163,6 +170,9 @@ ERROR_CODE process_ini_file(char *file_path, struct sort_map_t **configuration_p
                     INI_MARK_N(value_end, -1);
                     INI_CALLBACK_DATA(key_end);
                     INI_CALLBACK(value_start);
+                } else if(character == '\n' || character == '\r') {
+                    /* there's no assignment in the line */
+                    state = INI_ENGINE_NORMAL;
                 }
 
                 break;
@@ -178,9 +188,19 @@ ERROR_CODE process_ini_file(char *file_path, struct sort_map_t **configuration_p
         }
     }
 
+    /* in case the last line of the file is not terminated and
+    is an assignment its value ends with the file */
+    if(state == INI_ENGINE_VALUE) {
+        pointer = &file_buffer[file_size];
+        INI_CALLBACK_DATA(value_end);
+    }
+
     /* releases the buffer used durring the parsing of
-    the configuration file (avoids leaks) */
+    the configuration file and the ones used for the names
+    of the section and of the key (avoids leaks) */
     FREE(file_buffer);
+    if(ini_handler_s.section != NULL) { FREE(ini_handler_s.section); }
+    if(ini_handler_s.key != NULL) { FREE(ini_handler_s.key); }
 
     /* raises no error */
     RAISE_NO_ERROR;
@@ -190,8 +210,12 @@ ERROR_CODE _ini_section_end_callback(struct ini_engine_t *ini_engine, const unsi
     /* retrieves the ini handler from the template engine context
     then uses it to store the (current) section */
     struct ini_handler_t *ini_handler = (struct ini_handler_t *) ini_engine->context;
-    memcpy(ini_handler->section, pointer, size);
-    ini_handler->section[size] = '\0';
+    size_t offset = ini_handler->remove_spaces ? leading_offset((char *) pointer, size) : 0;
+    size_t _size = ini_handler->remove_spaces ? trailing_size((char *) pointer + offset, size - offset) : size;
+    if(ini_handler->section != NULL) { FREE(ini_handler->section); }
+    ini_handler->section = (char *) MALLOC(_size + 1);
+    memcpy(ini_handler->section, pointer + offset, _size);
+    ini_handler->section[_size] = '\0';
 
     /* raises no error */
     RAISE_NO_ERROR;
@@ -207,6 +231,8 @@ ERROR_CODE _ini_key_end_callback(struct ini_engine_t *ini_engine, const unsigned
     then uses it to store the (current) value */
     struct ini_handler_t *ini_handler = (struct ini_handler_t *) ini_engine->context;
     size = ini_handler->remove_spaces ? trailing_size((char *) pointer, size) : size;
+    if(ini_handler->key != NULL) { FREE(ini_handler->key); }
+    ini_handler->key = (char *) MALLOC(size + 1);
     memcpy(ini_handler->key, pointer, size);
     ini_handler->key[size] = '\0';
 
@@ -223,7 +249,8 @@ ERROR_CODE _ini_value_end_callback(struct ini_engine_t *ini_engine, const unsign
     then uses it to store the (current) value */
     struct ini_handler_t *ini_handler = (struct ini_handler_t *) ini_engine->context;
     size_t offset = ini_handler->remove_spaces ? leading_offset((char *) pointer, size) : 0;
-    size_t _size = size - offset;
+    size_t _size = ini_handler->remove_spaces ? trailing_size((char *) pointer + offset, size - offset) : size;
+    unsigned char *section = (unsigned char *) (ini_handler->section == NULL ? "" : ini_handler->section);
     char *value = MALLOC(_size + 1);
     memcpy(value, pointer + offset, _size);
     value[_size] = '\0';
@@ -231,13 +258,13 @@ ERROR_CODE _ini_value_end_callback(struct ini_engine_t *ini_engine, const unsign
     /* tries to retrieve the current section configuration from the
     configuration in case it's not possible to retrieve it a new
     configuration map must be created */
-    get_value_string_sort_map(ini_handler->configuration, (unsigned char *) ini_handler->section, (void **) &section_configuration);
+    get_value_string_sort_map(ini_handler->configuration, section, (void **) &section_configuration);
     if(section_configuration == NULL) {
         /* creates a new sort map to contain the section configuration
         and sets it under the current configuration variable in the ini
         handler for the current section name */
         create_sort_map(&section_configuration, 0);
-        set_value_string_sort_map(ini_handler->configuration, (unsigned char *) ini_handler->section, section_configuration);
+        set_value_string_sort_map(ini_handler->configuration, section, section_configuration);
     }
 
     /* sets the current key and value under the current section configuration
diff --git a/src/viriatum_commons/ini/ini.h b/src/viriatum_commons/ini/ini.h
index a6121b6..838b8ee 100644
--- a/src/viriatum_commons/ini/ini.h
+++ b/src/viriatum_commons/ini/ini.h
@@ -101,8 +101,8 @@ typedef struct ini_engine_t {
 
 typedef struct ini_handler_t {
     char remove_spaces;
-    char section[INI_KEY_MAX_SIZE];
-    char key[INI_KEY_MAX_SIZE];
+    char *section;
+    char *key;
     struct sort_map_t *configuration;
 } ini_handler;
 
diff --git a/src/viriatum_commons/util/string_util.h b/src/viriatum_commons/util/string_util.h
index b9217d2..e7cff46 100644
--- a/src/viriatum_commons/util/string_util.h
+++ b/src/viriatum_commons/util/string_util.h
@@ -199,12 +199,11 @@ static __inline size_t trailing_size(char *buffer, size_t size) {
     char byte;
     char *_pointer = buffer + size - 1;
 
-    while(TRUE) {
+    while(size > 0) {
         byte = *_pointer;
-        if(byte != ' ') { break; }
+        if(byte != ' ' && byte != '\t') { break; }
         _pointer--;
         size--;
-        if(size == 0) { break; }
     }
 
     return size;
@@ -215,12 +214,11 @@ static __inline size_t leading_offset(char *buffer, size_t size) {
     size_t _size = 0;
     char *_pointer = buffer;
 
-    while(TRUE) {
+    while(_size < size) {
         byte = *_pointer;
-        if(byte != ' ') { break; }
+        if(byte != ' ' && byte != '\t') { break; }
         _pointer++;
         _size++;
-        if(_size == size) { break; }
     }
 
     return _size;
-- 
2.43.0


From 62c77cc4208b05326faa2d8d767ffcbc4b8aa0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:45 +0000
Subject: [PATCH 44/75] fix: urls without path, password or query are accepted
 and copies of their parts are complete and bounded

---
 src/viriatum_commons/formats/url.c | 113 ++++++++++++++---------------
 src/viriatum_commons/formats/url.h |   1 -
 2 files changed, 56 insertions(+), 58 deletions(-)

diff --git a/src/viriatum_commons/formats/url.c b/src/viriatum_commons/formats/url.c
index 95ff5c9..4d7279d 100644
--- a/src/viriatum_commons/formats/url.c
+++ b/src/viriatum_commons/formats/url.c
@@ -45,10 +45,6 @@ ERROR_CODE parse_url(char *url, size_t url_size, struct url_t *url_s) {
     unsigned char *mark;
     unsigned char *pointer;
 
-    /* creates space for a "local" buffer that is going to
-    be used as temporary for some of the conversion operations */
-    unsigned char buffer[128];
-
     /* resets the URL structure by setting all of its contents
     to the default zero (reset) value */
     memset(url_s, 0, sizeof(struct url_t));
@@ -56,6 +52,7 @@ ERROR_CODE parse_url(char *url, size_t url_size, struct url_t *url_s) {
     /* sets the URL pointer as the initial mark value and also
     sets the initial state of the parsing as the scheme state */
     mark = (unsigned char *) url;
+    pointer = mark;
     state = SCHEME_STATE;
 
     /* iterate over the complete URL buffer to try to gather
@@ -107,16 +104,21 @@ ERROR_CODE parse_url(char *url, size_t url_size, struct url_t *url_s) {
                 break;
 
             case AUTH_STATE:
+            case HOST_STATE:
                 switch(current) {
                     case '/':
+                    case '?':
+                    case '#':
                         length = pointer - mark;
                         url_s->host_c.buffer = mark;
                         url_s->host_c.length = length;
-                        state = PATH_STATE;
-                        mark = pointer;
+                        state = current == '/' ? PATH_STATE :
+                            current == '?' ? QUERY_STATE : FRAGMENT_STATE;
+                        mark = current == '/' ? pointer : pointer + 1;
                         break;
 
                     case '@':
+                        if(state == HOST_STATE) { goto error; }
                         length = pointer - mark;
                         url_s->auth.buffer = mark;
                         url_s->auth.length = length;
@@ -127,47 +129,14 @@ ERROR_CODE parse_url(char *url, size_t url_size, struct url_t *url_s) {
 
                 break;
 
-            case HOST_STATE:
-                switch(current) {
-                    case '/':
-                        length = pointer - mark;
-                        url_s->host.buffer = mark;
-                        url_s->host.length = length;
-                        state = PATH_STATE;
-                        mark = pointer;
-                        break;
-
-                    case ':':
-                        length = pointer - mark;
-                        url_s->host.buffer = mark;
-                        url_s->host.length = length;
-                        state = PORT_STATE;
-                        mark = pointer + 1;
-                        break;
-                }
-
-                break;
-
-            case PORT_STATE:
-                switch(current) {
-                    case '/':
-                        length = pointer - mark;
-                        url_s->port_s.buffer = mark;
-                        url_s->port_s.length = length;
-                        state = PATH_STATE;
-                        mark = pointer;
-                        break;
-                }
-
-                break;
-
             case PATH_STATE:
                 switch(current) {
                     case '?':
+                    case '#':
                         length = pointer - mark;
                         url_s->path.buffer = mark;
                         url_s->path.length = length;
-                        state = QUERY_STATE;
+                        state = current == '?' ? QUERY_STATE : FRAGMENT_STATE;
                         mark = pointer + 1;
                         break;
                 }
@@ -191,11 +160,18 @@ ERROR_CODE parse_url(char *url, size_t url_size, struct url_t *url_s) {
                 break;
         }
     }
-    pointer++;
+    pointer = (unsigned char *) url + url_size;
 
     /* runs the final swith operation to clone the still
     opened parse step (the final step) */
     switch(state) {
+        case AUTH_STATE:
+        case HOST_STATE:
+            length = pointer - mark;
+            url_s->host_c.buffer = mark;
+            url_s->host_c.length = length;
+            break;
+
         case PATH_STATE:
             length = pointer - mark;
             url_s->path.buffer = mark;
@@ -220,7 +196,12 @@ ERROR_CODE parse_url(char *url, size_t url_size, struct url_t *url_s) {
     }
 
     if(url_s->host_c.buffer != NULL) {
-        pointer = memchr(url_s->host_c.buffer, ':', url_s->host_c.length);
+        /* an address between brackets may contain the port separator
+        so the search for it must start only after the address */
+        pointer = url_s->host_c.length > 0 && url_s->host_c.buffer[0] == '[' ?
+            memchr(url_s->host_c.buffer, ']', url_s->host_c.length) : url_s->host_c.buffer;
+        if(pointer == NULL) { goto error; }
+        pointer = memchr(pointer, ':', url_s->host_c.buffer + url_s->host_c.length - pointer);
         if(pointer == NULL) {
             url_s->host.buffer = url_s->host_c.buffer;
             url_s->host.length = url_s->host_c.length;
@@ -236,21 +217,24 @@ ERROR_CODE parse_url(char *url, size_t url_size, struct url_t *url_s) {
 
     if(url_s->auth.buffer != NULL) {
         pointer = memchr(url_s->auth.buffer, ':', url_s->auth.length);
-        if(pointer == NULL) { goto error; }
-
         url_s->username.buffer = url_s->auth.buffer;
-        url_s->username.length = pointer - url_s->auth.buffer;
+        url_s->username.length = pointer == NULL ?
+            url_s->auth.length : (size_t) (pointer - url_s->auth.buffer);
 
-        url_s->password.buffer = pointer + 1;
-        url_s->password.length = url_s->auth.buffer +\
-            url_s->auth.length - (pointer + 1);
+        if(pointer != NULL) {
+            url_s->password.buffer = pointer + 1;
+            url_s->password.length = url_s->auth.buffer +\
+                url_s->auth.length - (pointer + 1);
+        }
     }
 
     if(url_s->port_s.buffer != NULL) {
-        memcpy(buffer, url_s->port_s.buffer, url_s->port_s.length);
-        buffer[url_s->port_s.length] = '\0';
-
-        url_s->port = atoi((char *) buffer);
+        for(index = 0; index < url_s->port_s.length; index++) {
+            current = url_s->port_s.buffer[index];
+            if(current < '0' || current > '9') { goto error; }
+            url_s->port = url_s->port * 10 + (current - '0');
+            if(url_s->port > 65535) { goto error; }
+        }
     }
 
     RAISE_NO_ERROR;
@@ -281,6 +265,21 @@ ERROR_CODE parse_url_static(char *url, size_t url_size, struct url_static_t *url
 
     memset(url_s, 0, sizeof(struct url_static_t));
 
+    /* in case any of the parts does not fit in its buffer there's
+    no way to copy it and so the url can't be accepted */
+    if(_url_s.scheme.length >= sizeof(url_s->scheme) ||
+        _url_s.username.length >= sizeof(url_s->username) ||
+        _url_s.password.length >= sizeof(url_s->password) ||
+        _url_s.host.length >= sizeof(url_s->host) ||
+        _url_s.path.length >= sizeof(url_s->path) ||
+        _url_s.query.length >= sizeof(url_s->query) ||
+        _url_s.fragment.length >= sizeof(url_s->fragment)) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem copying the url"
+        );
+    }
+
     if(_url_s.scheme.buffer != NULL) {
         memcpy(url_s->scheme, _url_s.scheme.buffer, _url_s.scheme.length);
         url_s->scheme[_url_s.scheme.length] = '\0';
@@ -298,24 +297,24 @@ ERROR_CODE parse_url_static(char *url, size_t url_size, struct url_static_t *url
 
     if(_url_s.host.buffer != NULL) {
         memcpy(url_s->host, _url_s.host.buffer, _url_s.host.length);
-        url_s->password[_url_s.host.length] = '\0';
+        url_s->host[_url_s.host.length] = '\0';
     }
 
     if(_url_s.port != 0) { url_s->port = _url_s.port; }
 
     if(_url_s.path.buffer != NULL) {
         memcpy(url_s->path, _url_s.path.buffer, _url_s.path.length);
-        url_s->password[_url_s.path.length] = '\0';
+        url_s->path[_url_s.path.length] = '\0';
     }
 
     if(_url_s.query.buffer != NULL) {
         memcpy(url_s->query, _url_s.query.buffer, _url_s.query.length);
-        url_s->password[_url_s.query.length] = '\0';
+        url_s->query[_url_s.query.length] = '\0';
     }
 
     if(_url_s.fragment.buffer != NULL) {
         memcpy(url_s->fragment, _url_s.fragment.buffer, _url_s.fragment.length);
-        url_s->password[_url_s.fragment.length] = '\0';
+        url_s->fragment[_url_s.fragment.length] = '\0';
     }
 
     RAISE_NO_ERROR;
diff --git a/src/viriatum_commons/formats/url.h b/src/viriatum_commons/formats/url.h
index 267b821..7cfb421 100644
--- a/src/viriatum_commons/formats/url.h
+++ b/src/viriatum_commons/formats/url.h
@@ -60,7 +60,6 @@ typedef enum url_parse_state_e {
     SLA_SLA_STATE,
     AUTH_STATE,
     HOST_STATE,
-    PORT_STATE,
     PATH_STATE,
     QUERY_STATE,
     FRAGMENT_STATE
-- 
2.43.0


From 13234c7e93c2e436d141b3ca3ae9d87b14884fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:45 +0000
Subject: [PATCH 45/75] fix: long, repeated and positional command line
 arguments do not corrupt memory

---
 src/viriatum_commons/util/arguments_util.c | 38 ++++++++++++++++++++--
 src/viriatum_commons/util/arguments_util.h |  5 +--
 2 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/src/viriatum_commons/util/arguments_util.c b/src/viriatum_commons/util/arguments_util.c
index bdb40d4..2106feb 100644
--- a/src/viriatum_commons/util/arguments_util.c
+++ b/src/viriatum_commons/util/arguments_util.c
@@ -40,6 +40,7 @@ ERROR_CODE process_arguments(int argc, char *argv[], struct hash_map_t **argumen
     /* allocates space for both the argument holder, to
     be created every iteration of the argument retrieval */
     struct argument_t *argument;
+    struct argument_t *previous;
     struct hash_map_t *arguments;
 
     /* creates the hash map that will hold the various
@@ -56,7 +57,22 @@ ERROR_CODE process_arguments(int argc, char *argv[], struct hash_map_t **argumen
         using the default (simple) parser and sets it in
         the arguments map */
         current_argument = argv[index];
-        _process_argument(current_argument, argument);
+
+        /* in case the argument is not an option (problem in the
+        parsing) there's nothing to be set in the arguments map */
+        if(IS_ERROR_CODE(_process_argument(current_argument, argument))) {
+            _delete_argument(argument);
+            continue;
+        }
+
+        /* in case the option was already set the previous argument
+        is replaced by the new one and must be released */
+        get_value_string_hash_map(
+            arguments,
+            (unsigned char *) argument->key,
+            (void **) &previous
+        );
+        if(previous != NULL) { _delete_argument(previous); }
         set_value_string_hash_map(
             arguments,
             (unsigned char *) argument->key,
@@ -103,7 +119,7 @@ ERROR_CODE delete_arguments(struct hash_map_t *arguments) {
         );
 
         /* releases the argument memory */
-        FREE(argument);
+        _delete_argument(argument);
     }
 
     /* deletes the iterator for the arguments hash map */
@@ -169,6 +185,12 @@ ERROR_CODE print_arguments(struct hash_map_t *arguments) {
     RAISE_NO_ERROR;
 }
 
+void _delete_argument(struct argument_t *argument) {
+    FREE(argument->key);
+    FREE(argument->value);
+    FREE(argument);
+}
+
 ERROR_CODE _process_argument(char *argument_value, struct argument_t *argument) {
     /* allocates space for the index counter */
     unsigned int index;
@@ -189,6 +211,13 @@ ERROR_CODE _process_argument(char *argument_value, struct argument_t *argument)
     /* sets the argument to type key (just a name) */
     argument->type = SINGLE_ARGUMENT;
 
+    /* allocates the space for both the key and the value, any of
+    them is at most as long as the argument, and sets them as empty */
+    argument->key = (char *) MALLOC(argument_size + 1);
+    argument->value = (char *) MALLOC(argument_size + 1);
+    argument->key[0] = '\0';
+    argument->value[0] = '\0';
+
     /* iterates over all the characters present in
     the argument string to parse the argument */
     for(index = 0; index < argument_size; index++) {
@@ -260,6 +289,11 @@ ERROR_CODE _process_argument(char *argument_value, struct argument_t *argument)
     /* switches one final time over the state to close
     the pending values */
     switch(state) {
+        case ARGUMENT_INITIAL:
+        case ARGUMENT_FIRST:
+            /* there's no name in the argument, it's not an option */
+            RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Problem parsing option");
+
         case ARGUMENT_SECOND:
         case ARGUMENT_KEY:
             /* copies the key value into the appropriate variable
diff --git a/src/viriatum_commons/util/arguments_util.h b/src/viriatum_commons/util/arguments_util.h
index ec9d09d..0dd9837 100644
--- a/src/viriatum_commons/util/arguments_util.h
+++ b/src/viriatum_commons/util/arguments_util.h
@@ -72,17 +72,18 @@ typedef struct argument_t {
      * The key to the argument, this value
      * should also describe the argument.
      */
-    char key[256];
+    char *key;
 
     /**
      * The value content of the argument.
      * This value is represented as a string
      * and must be parsed for interpretation.
      */
-    char value[1024];
+    char *value;
 } argument;
 
 VIRIATUM_EXPORT_PREFIX ERROR_CODE process_arguments(int argc, char *argv[], struct hash_map_t **arguments_pointer);
 VIRIATUM_EXPORT_PREFIX ERROR_CODE delete_arguments(struct hash_map_t *arguments);
 VIRIATUM_EXPORT_PREFIX ERROR_CODE print_arguments(struct hash_map_t *arguments);
+VIRIATUM_EXPORT_PREFIX void _delete_argument(struct argument_t *argument);
 VIRIATUM_EXPORT_PREFIX ERROR_CODE _process_argument(char *argument_value, struct argument_t *argument);
-- 
2.43.0


From ddf52d0e875a98f817b8bd680a96e92474dd821c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:09 +0000
Subject: [PATCH 46/75] fix: memory and file streams keep their data on
 overwrites, reads past the end and mixed transfers

---
 src/viriatum_commons/stream/file_stream.c   | 19 ++++++++
 src/viriatum_commons/stream/file_stream.h   | 12 ++++++
 src/viriatum_commons/stream/memory_stream.c | 48 +++++++++++++++++----
 3 files changed, 70 insertions(+), 9 deletions(-)

diff --git a/src/viriatum_commons/stream/file_stream.c b/src/viriatum_commons/stream/file_stream.c
index de07c77..244fc40 100644
--- a/src/viriatum_commons/stream/file_stream.c
+++ b/src/viriatum_commons/stream/file_stream.c
@@ -50,6 +50,8 @@ void create_file_stream(
     file_stream->file = NULL;
     file_stream->file_path = file_path;
     file_stream->mode = mode;
+    file_stream->written = FALSE;
+    file_stream->read = FALSE;
 
     /* sets the various functions of the stream */
     file_stream->stream->open = open_file_stream;
@@ -89,6 +91,8 @@ void open_file_stream(struct stream_t *stream) {
         (char *) file_stream->file_path,
         (char *) file_stream->mode
     );
+    file_stream->written = FALSE;
+    file_stream->read = FALSE;
 }
 
 void close_file_stream(struct stream_t *stream) {
@@ -103,6 +107,14 @@ size_t read_file_stream(struct stream_t *stream, unsigned char *buffer, size_t s
     /* retrieves the file stream from the stream (as the lowee substrate)
     and reads the amount of data requested from the currently open file */
     struct file_stream_t *file_stream = (struct file_stream_t *) stream->lower;
+
+    /* in case the last transfer was a write operation a positioning
+    operation is required before the read (standard input/output rule),
+    otherwise the data pending to be written could be lost */
+    if(file_stream->written) { fseek(file_stream->file, 0, SEEK_CUR); }
+    file_stream->written = FALSE;
+    file_stream->read = TRUE;
+
     return fread(buffer, sizeof(unsigned char), size, file_stream->file);
 }
 
@@ -110,6 +122,13 @@ size_t write_file_stream(struct stream_t *stream, unsigned char *buffer, size_t
     /* retrieves the file stream from the stream (as the lower substrate)
     and then writes the provided data to the underlying file reference */
     struct file_stream_t *file_stream = (struct file_stream_t *) stream->lower;
+
+    /* in case the last transfer was a read operation a positioning
+    operation is required before the write (standard input/output rule) */
+    if(file_stream->read) { fseek(file_stream->file, 0, SEEK_CUR); }
+    file_stream->read = FALSE;
+    file_stream->written = TRUE;
+
     return fwrite(buffer, sizeof(unsigned char), size, file_stream->file);
 }
 
diff --git a/src/viriatum_commons/stream/file_stream.h b/src/viriatum_commons/stream/file_stream.h
index e2ebb1a..790d635 100644
--- a/src/viriatum_commons/stream/file_stream.h
+++ b/src/viriatum_commons/stream/file_stream.h
@@ -48,6 +48,18 @@ typedef struct file_stream_t {
      */
     unsigned char *mode;
 
+    /**
+     * If the last transfer made in the stream was a
+     * write, a seek is required before the next read.
+     */
+    unsigned char written;
+
+    /**
+     * If the last transfer made in the stream was a
+     * read, a seek is required before the next write.
+     */
+    unsigned char read;
+
     /**
      * The reference to the upper stream
      * structure.
diff --git a/src/viriatum_commons/stream/memory_stream.c b/src/viriatum_commons/stream/memory_stream.c
index 54de954..a70e104 100644
--- a/src/viriatum_commons/stream/memory_stream.c
+++ b/src/viriatum_commons/stream/memory_stream.c
@@ -64,9 +64,11 @@ void create_memory_stream(struct memory_stream_t **memory_stream_pointer) {
 
 void delete_memory_stream(struct memory_stream_t *memory_stream) {
     /* in case the internal buffer is defined its memory
-    must be released and then releases the memory of the
-    proper memory stream structure (avoid memory leaks) */
+    must be released and then releases the underlying stream
+    and the memory of the proper memory stream structure
+    (avoid memory leaks) */
     if(memory_stream->buffer) { FREE(memory_stream->buffer); }
+    delete_stream(memory_stream->stream);
     FREE(memory_stream);
 }
 
@@ -97,9 +99,17 @@ void close_memory_stream(struct stream_t *stream) {
 size_t read_memory_stream(struct stream_t *stream, unsigned char *buffer, size_t size) {
     struct memory_stream_t *memory_stream =\
         (struct memory_stream_t *) stream->lower;
-    size_t remaining = memory_stream->size - memory_stream->position;
-    size_t count = size > remaining ? remaining : size;
-    unsigned char *pointer = &memory_stream->buffer[memory_stream->position];
+    size_t count;
+    size_t remaining;
+    unsigned char *pointer;
+
+    /* in case the current position is at (or beyond) the end
+    of the stream there's nothing to be read from it */
+    if(memory_stream->position >= memory_stream->size) { return 0; }
+
+    remaining = memory_stream->size - memory_stream->position;
+    count = size > remaining ? remaining : size;
+    pointer = &memory_stream->buffer[memory_stream->position];
 
     memcpy(buffer, pointer, count);
     memory_stream->position += count;
@@ -113,10 +123,14 @@ size_t write_memory_stream(struct stream_t *stream, unsigned char *buffer, size_
     unsigned char *pointer;
     struct memory_stream_t *memory_stream =\
         (struct memory_stream_t *) stream->lower;
-    size_t remaining = memory_stream->buffer_size - memory_stream->position;
+    size_t required = memory_stream->position + size;
+
+    /* in case there's nothing to be written the stream must
+    remain unchanged (no extension to be performed) */
+    if(size == 0) { return 0; }
 
-    if(size > remaining) {
-        extra = size - remaining;
+    if(required > memory_stream->buffer_size) {
+        extra = required - memory_stream->buffer_size;
         allocation = extra > SIZE_MEMORY_STREAM ? extra : SIZE_MEMORY_STREAM;
         memory_stream->buffer_size += allocation;
         memory_stream->buffer =    REALLOC(
@@ -125,10 +139,26 @@ size_t write_memory_stream(struct stream_t *stream, unsigned char *buffer, size_
         );
     }
 
+    /* in case the current position is beyond the end of the
+    stream the gap between both is filled with zeros, the same
+    behavior as the one of a file */
+    if(memory_stream->position > memory_stream->size) {
+        memset(
+            &memory_stream->buffer[memory_stream->size],
+            0,
+            memory_stream->position - memory_stream->size
+        );
+    }
+
     pointer = &memory_stream->buffer[memory_stream->position];
     memcpy(pointer, buffer, size);
     memory_stream->position += size;
-    memory_stream->size += size;
+
+    /* the size of the stream only changes in case the write
+    operation has gone beyond the previous end of the stream */
+    if(memory_stream->position > memory_stream->size) {
+        memory_stream->size = memory_stream->position;
+    }
 
     return size;
 }
-- 
2.43.0


From a46847d18156f136a33c8c3c94e9205518211436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:09 +0000
Subject: [PATCH 47/75] fix: bit stream seek across more than one buffer
 boundary byte

---
 src/viriatum_commons/stream/bit_stream.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/viriatum_commons/stream/bit_stream.c b/src/viriatum_commons/stream/bit_stream.c
index c75f693..ce8f62a 100644
--- a/src/viriatum_commons/stream/bit_stream.c
+++ b/src/viriatum_commons/stream/bit_stream.c
@@ -75,7 +75,9 @@ void create_bit_stream(struct bit_stream_t **bit_stream_pointer, struct stream_t
 }
 
 void delete_bit_stream(struct bit_stream_t *bit_stream) {
-    /* releases the bit stream */
+    /* releases the buffer used by the bit stream and
+    then releases the bit stream */
+    FREE(bit_stream->buffer);
     FREE(bit_stream);
 }
 
@@ -184,11 +186,11 @@ void seek_bit_stream(
             /* calculates the size of the current read buffer by adding the
             current byte (index) to the counter and then calculates the diff
             to the initial position of the stream by calculating the diference
-            between the current index position and the number of bytes to be
-            set back plus one (this is the distance to the initial byte in
+            between the number of bytes to be set back plus one and the current
+            index position (this is the distance to the initial byte in
             the last read operation) */
             total_read = bit_stream->byte_current_read + bit_stream->byte_counter_read;
-            diff_read = bit_stream->byte_current_read - (size_t) byte_count + 1;
+            diff_read = (size_t) byte_count + 1 - bit_stream->byte_current_read;
 
             /* retrieves the reference to the underlying stream and uses it to
             gather its current position and recalculates the new position using
-- 
2.43.0


From 2f788306efa0d55d9673fa7f105390096740444c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:09 +0000
Subject: [PATCH 48/75] fix: huffman coding of empty, single symbol and very
 skewed streams

---
 src/viriatum_commons/compression/huffman.c | 167 +++++++++++++--------
 src/viriatum_commons/compression/huffman.h |   6 +
 2 files changed, 108 insertions(+), 65 deletions(-)

diff --git a/src/viriatum_commons/compression/huffman.c b/src/viriatum_commons/compression/huffman.c
index 53a1ab2..27ac156 100644
--- a/src/viriatum_commons/compression/huffman.c
+++ b/src/viriatum_commons/compression/huffman.c
@@ -232,7 +232,7 @@ void decode_table_huffman(struct huffman_t *huffman, struct stream_t *in, struct
 
     /* closes the output stream flusing all of it's data and then
     closes the input bit based stream also*/
-    in->close(out);
+    out->close(out);
     close_bit_stream(bit_stream);
 
     /* deletes the bit stream structure, avoiding the leak of any
@@ -395,79 +395,115 @@ void generate_table_huffman(struct huffman_t *huffman, struct stream_t *stream)
     struct huffman_node_t *left;
     struct huffman_node_t *right;
     struct priority_queue_t *queue;
-
-    /* creates a new priority queue and sets the default
-    comparision algorithm to the compare huffman one */
-    create_priority_queue(&queue, _compare_huffman);
+    size_t freqs[HUFFMAN_SYMBOL_SIZE];
+    unsigned char is_large = FALSE;
 
     /* runs the calculus of the frequencies for the provided
     stream, at the end of the operation a table of frequencies
     for each of the ascii symbols is created, please no that
     this may be an expensive operation */
     calc_freqs_huffman(huffman, stream);
+    memcpy(freqs, huffman->freqs, sizeof(freqs));
+
+    /* iterates until the generated tree is one in which the complete
+    set of codes fits the maximum number of bits for a code */
+    do {
+        /* creates a new priority queue and sets the default
+        comparision algorithm to the compare huffman one */
+        create_priority_queue(&queue, _compare_huffman);
+
+        /* resets the values that are associated with the tree, so
+        that no information from a previous tree is used */
+        huffman->symbol_count = 0;
+        huffman->prefix_size = 0;
+
+        /* iterates over the range of symbols of the default huffman
+        tree implementation to create and insert a new node for each
+        of the symbols that are considered value (more that one occurence) */
+        for(index = 0; index < HUFFMAN_SYMBOL_SIZE; index++) {
+            /* retrieves the count for the current symbol and
+            in case there are no counts for it ignores it and
+            continues the loop skipping one step */
+            count = freqs[index];
+            if(count == 0) { continue; }
+
+            /* create a new huffman node and updates it with the
+            count for the current symbol and with the symbol itself */
+            create_huffman_node(&node);
+            node->value = count;
+            node->symbol = (unsigned char) index;
+
+            /* increments the symbol counter (valid symbols counter)
+            and sets the node in the symbol to node array map then
+            "pushes" the new node into the priority queue */
+            huffman->symbol_count++;
+            huffman->nodes[index] = node;
+            push_priority_queue(queue, (void *) node);
+        }
 
-    /* iterates over the range of symbols of the default huffman
-    tree implementation to create and insert a new node for each
-    of the symbols that are considered value (more that one occurence) */
-    for(index = 0; index < HUFFMAN_SYMBOL_SIZE; index++) {
-        /* retrieves the count for the current symbol and
-        in case there are no counts for it ignores it and
-        continues the loop skipping one step */
-        count = huffman->freqs[index];
-        if(count == 0) { continue; }
-
-        /* create a new huffman node and updates it with the
-        count for the current symbol and with the symbol itself */
-        create_huffman_node(&node);
-        node->value = count;
-        node->symbol = (unsigned char) index;
-
-        /* increments the symbol counter (valid symbols counter)
-        and sets the node in the symbol to node array map then
-        "pushes" the new node into the priority queue */
-        huffman->symbol_count++;
-        huffman->nodes[index] = node;
-        push_priority_queue(queue, (void *) node);
-    }
-
-    /* iterates continuously creating the huffman tree using
-    the pre-defined algorithm of frequecies */
-    while(TRUE) {
-        /* in case the size has reached the value of one
-        only one (master root node) is present the algorithm
-        is considered complete and the loop must break */
-        if(queue->size <= 1) { break; }
-
-        /* retrieves two nodes from the priority queue that
-        are going to be set as the left and right childs of
-        the new master node to be created */
-        pop_priority_queue(queue, (void **) &left);
-        pop_priority_queue(queue, (void **) &right);
-
-        /* creates the new "master" node and sets the references
-        to the just retrieved left and right nodes, the new (frequency)
-        value for the master node is going to be the sum of both
-        values as the node represents both of them */
-        create_huffman_node(&node);
-        node->left = left;
-        node->right = right;
-        node->value = left->value + right->value;
-
-        /* pushes the new node into the priority queue so that
-        it may be also grouped again if required */
-        push_priority_queue(queue, (void *) node);
-    }
+        /* iterates continuously creating the huffman tree using
+        the pre-defined algorithm of frequecies */
+        while(TRUE) {
+            /* in case the size has reached the value of one
+            only one (master root node) is present the algorithm
+            is considered complete and the loop must break */
+            if(queue->size <= 1) { break; }
+
+            /* retrieves two nodes from the priority queue that
+            are going to be set as the left and right childs of
+            the new master node to be created */
+            pop_priority_queue(queue, (void **) &left);
+            pop_priority_queue(queue, (void **) &right);
+
+            /* creates the new "master" node and sets the references
+            to the just retrieved left and right nodes, the new (frequency)
+            value for the master node is going to be the sum of both
+            values as the node represents both of them */
+            create_huffman_node(&node);
+            node->left = left;
+            node->right = right;
+            node->value = left->value + right->value;
+
+            /* pushes the new node into the priority queue so that
+            it may be also grouped again if required */
+            push_priority_queue(queue, (void *) node);
+        }
 
-    /* pops the current and only element of the queue as the
-    root node of the huffman tree and then deletes the priority
-    queue structure as it's not longer required */
-    pop_priority_queue(queue, (void **) &huffman->root);
-    delete_priority_queue(queue);
+        /* pops the current and only element of the queue as the
+        root node of the huffman tree and then deletes the priority
+        queue structure as it's not longer required, note that there's
+        no such element in case the stream is empty */
+        huffman->root = NULL;
+        if(queue->size > 0) { pop_priority_queue(queue, (void **) &huffman->root); }
+        delete_priority_queue(queue);
+        if(huffman->root == NULL) { return; }
+
+        /* in case there's only one symbol in the stream a master node
+        is created for it, so that the symbol is represented by one bit
+        (otherwise it would not be possible to decode the stream) */
+        if(huffman->root->left == NULL) {
+            create_huffman_node(&node);
+            node->left = huffman->root;
+            node->value = huffman->root->value;
+            huffman->root = node;
+        }
 
-    /* runs the allocation algorithm in the huffman tree so that
-    each of the nodes is represented by a binary number that is
-    inversely big as its size (huffman strategy) */
-    allocate_tree_huffman(huffman, huffman->root, 0, 0);
+        /* runs the allocation algorithm in the huffman tree so that
+        each of the nodes is represented by a binary number that is
+        inversely big as its size (huffman strategy) */
+        allocate_tree_huffman(huffman, huffman->root, 0, 0);
+
+        /* in case the largest of the codes does not fit the maximum number
+        of bits the tree is deleted and a new one is generated using less
+        disparate frequencies, from which shorter codes are generated */
+        is_large = huffman->prefix_size > HUFFMAN_CODE_SIZE;
+        if(is_large) {
+            delete_tree_huffman(huffman->root);
+            for(index = 0; index < HUFFMAN_SYMBOL_SIZE; index++) {
+                freqs[index] = (freqs[index] + 1) / 2;
+            }
+        }
+    } while(is_large);
 }
 
 void calc_freqs_huffman(struct huffman_t *huffman, struct stream_t *stream) {
@@ -533,6 +569,7 @@ void allocate_tree_huffman(
             (code << 1) | 0,
             bit_count + 1
         );
+        if(node->right == NULL) { return; }
         allocate_tree_huffman(
             huffman,
             node->right,
diff --git a/src/viriatum_commons/compression/huffman.h b/src/viriatum_commons/compression/huffman.h
index 54f6c93..f7d087f 100644
--- a/src/viriatum_commons/compression/huffman.h
+++ b/src/viriatum_commons/compression/huffman.h
@@ -37,6 +37,12 @@
  */
 #define HUFFMAN_BYTE_SIZE 8
 
+/**
+ * The maximum number of bits that may be used
+ * in the code of a symbol.
+ */
+#define HUFFMAN_CODE_SIZE 16
+
 /**
  * The range of code values that are allowed for
  * an huffman structure, this value should match
-- 
2.43.0


From 9311bc5bc6742d62713663eb7eb31d3136000e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:50 +0000
Subject: [PATCH 49/75] fix: bencoding decodes empty strings and reports
 malformed or truncated documents as errors

---
 src/viriatum/stream/stream_httpc.c        |   3 +-
 src/viriatum/system/torrent.c             |  18 +
 src/viriatum_commons/encoding/bencoding.c | 445 ++++++++++++----------
 src/viriatum_commons/encoding/bencoding.h |   8 +
 4 files changed, 274 insertions(+), 200 deletions(-)

diff --git a/src/viriatum/stream/stream_httpc.c b/src/viriatum/stream/stream_httpc.c
index 0e235be..fe24388 100644
--- a/src/viriatum/stream/stream_httpc.c
+++ b/src/viriatum/stream/stream_httpc.c
@@ -37,7 +37,8 @@
 ERROR_CODE body_callback_handler_client(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
     struct type_t *type;
 
-    decode_bencoding((unsigned char *) data, data_size, &type);
+    ERROR_CODE return_value = decode_bencoding((unsigned char *) data, data_size, &type);
+    if(IS_ERROR_CODE(return_value)) { return return_value; }
     print_type(type);
     free_type(type);
 
diff --git a/src/viriatum/system/torrent.c b/src/viriatum/system/torrent.c
index 0961794..96d4f69 100644
--- a/src/viriatum/system/torrent.c
+++ b/src/viriatum/system/torrent.c
@@ -100,6 +100,16 @@ ERROR_CODE _create_tracker_connection(
         );
     }
 
+    /* verifies that the torrent file contains a map as it's
+    expected by the specification (otherwise it's malformed) */
+    if(type->type != SORT_MAP_TYPE) {
+        free_type(type);
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem reading torrent file"
+        );
+    }
+
     /* retries the info part of the torrent description, this
     value contains "valuable" information describing the file
     and may be used to generate the info hash */
@@ -109,6 +119,14 @@ ERROR_CODE _create_tracker_connection(
         (void **) &_type
     );
 
+    if(_type == NULL) {
+        free_type(type);
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem reading torrent file"
+        );
+    }
+
     /* encodes the info dictionary into bencoding and calculates
     the sha1 value of the encoded value as the info hash value
     that uniquely identifies the file over the grid */
diff --git a/src/viriatum_commons/encoding/bencoding.c b/src/viriatum_commons/encoding/bencoding.c
index b2b5334..febd6ab 100644
--- a/src/viriatum_commons/encoding/bencoding.c
+++ b/src/viriatum_commons/encoding/bencoding.c
@@ -29,6 +29,8 @@
 
 #include "bencoding.h"
 
+#include <limits.h>
+
 void create_bencoding_engine(struct bencoding_engine_t **bencoding_engine_pointer, void *context) {
     /* retrieves the bencoding engine size */
     size_t bencoding_engine_size = sizeof(struct bencoding_engine_t);
@@ -64,6 +66,7 @@ void create_bencoding_handler(struct bencoding_handler_t **bencoding_handler_poi
     bencoding_handler->top = NULL;
     bencoding_handler->key = NULL;
     bencoding_handler->next_key = 0;
+    bencoding_handler->complete = 0;
 
     /* creates the linked lists for both the sequence and key stack
     values (used for runtime) */
@@ -75,10 +78,25 @@ void create_bencoding_handler(struct bencoding_handler_t **bencoding_handler_poi
 }
 
 void delete_bencoding_handler(struct bencoding_handler_t *bencoding_handler) {
-    /* in case the sequence stack and the key stack are defined releases
-    their memory to avoid any leaks */
-    if(bencoding_handler->sequence_stack) { FREE(bencoding_handler->sequence_stack); }
-    if(bencoding_handler->key_stack) { FREE(bencoding_handler->key_stack); }
+    /* allocates space for the values that are still present in
+    the stacks, this is the case for an interrupted parsing */
+    unsigned char *key;
+    struct type_t *sequence;
+
+    /* releases the complete set of sequences that were not yet completed
+    (not associated with any other) together with the keys of them, then
+    releases the memory of both of the stacks, avoiding any leaks */
+    while(bencoding_handler->sequence_stack->size > 0) {
+        pop_top_value_linked_list(bencoding_handler->key_stack, (void **) &key, 1);
+        pop_top_value_linked_list(bencoding_handler->sequence_stack, (void **) &sequence, 1);
+        if(key != NULL) { FREE(key); }
+        free_type(sequence);
+    }
+    delete_linked_list(bencoding_handler->sequence_stack);
+    delete_linked_list(bencoding_handler->key_stack);
+
+    /* releases the key that may be still pending in the handler */
+    if(bencoding_handler->key != NULL) { FREE(bencoding_handler->key); }
 
     /* releases the bencoding handler */
     FREE(bencoding_handler);
@@ -113,6 +131,8 @@ ERROR_CODE encode_bencoding(struct type_t *type, unsigned char **encoded_puffer_
 ERROR_CODE decode_bencoding(unsigned char *encoded_buffer, size_t encoded_buffer_length, struct type_t **type_pointer) {
     /* allocates space for the general (temporary) variables
     to be used durring the parsing of the buffer */
+    ERROR_CODE return_value;
+    unsigned char is_valid;
     struct bencoding_engine_t *bencoding_engine;
     struct bencoding_handler_t *bencoding_handler;
 
@@ -120,17 +140,34 @@ ERROR_CODE decode_bencoding(unsigned char *encoded_buffer, size_t encoded_buffer
     structures and then runs an engine tick parsing the complete
     file buffer (it's completely available) */
     _start_bencoding_engine(&bencoding_engine);
-    _run_bencoding_engine(bencoding_engine, encoded_buffer, encoded_buffer_length);
+    return_value = _run_bencoding_engine(bencoding_engine, encoded_buffer, encoded_buffer_length);
 
     /* retieves the handler associated with the engine and then
-    uses it to retrieve the top type of the parsed structure */
+    uses it to retrieve the top type of the parsed structure, in case
+    the buffer does not contain exactly one (complete) value the top type
+    is released as the buffer is considered to be malformed */
     bencoding_handler = (struct bencoding_handler_t *) bencoding_engine->context;
+    is_valid = !IS_ERROR_CODE(return_value) && bencoding_handler->complete &&
+        bencoding_engine->state == BENCODING_ENGINE_NORMAL;
+    if(!is_valid && bencoding_handler->top != NULL) {
+        free_type(bencoding_handler->top);
+        bencoding_handler->top = NULL;
+    }
     *type_pointer = bencoding_handler->top;
 
     /* stops the bencoding engine releasing all of its internal
     structures, the top type is still defined */
     _stop_bencoding_engine(bencoding_engine);
 
+    /* in case the buffer is not valid raises an error to the caller
+    function, no value has been set for it */
+    if(!is_valid) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem decoding bencoding buffer"
+        );
+    }
+
     /* raises no error */
     RAISE_NO_ERROR;
 }
@@ -157,8 +194,6 @@ ERROR_CODE decode_bencoding_file(char *file_path, struct type_t **type_pointer)
     ERROR_CODE return_value;
     size_t file_size;
     unsigned char *file_buffer;
-    struct bencoding_engine_t *bencoding_engine;
-    struct bencoding_handler_t *bencoding_handler;
 
     /* reads the file contained in the provided file path
     and then tests the error code for error, in case there is an
@@ -172,27 +207,13 @@ ERROR_CODE decode_bencoding_file(char *file_path, struct type_t **type_pointer)
         );
     }
 
-    /* starts the bencoding engine, starting all of its internal
-    structures and then runs an engine tick parsing the complete
-    file buffer (it's completely available) */
-    _start_bencoding_engine(&bencoding_engine);
-    _run_bencoding_engine(bencoding_engine, file_buffer, file_size);
-
-    /* retieves the handler associated with the engine and then
-    uses it to retrieve the top type of the parsed structure */
-    bencoding_handler = (struct bencoding_handler_t *) bencoding_engine->context;
-    *type_pointer = bencoding_handler->top;
-
-    /* stops the bencoding engine releasing all of its internal
-    structures, the top type is still defined */
-    _stop_bencoding_engine(bencoding_engine);
-
-    /* releases the buffer used durring the parsing of
-    the configuration file */
+    /* decodes the complete file buffer (it's completely available)
+    and then releases the buffer used durring the parsing */
+    return_value = decode_bencoding(file_buffer, file_size, type_pointer);
     FREE(file_buffer);
 
-    /* raises no error */
-    RAISE_NO_ERROR;
+    /* returns the result of the decoding to the caller function */
+    return return_value;
 }
 
 ERROR_CODE _encode_type(struct type_t *type, struct string_buffer_t *string_buffer) {
@@ -397,6 +418,15 @@ ERROR_CODE _run_bencoding_engine(struct bencoding_engine_t *bencoding_engine, un
                         break;
 
                     default:
+                        /* only the size of a string may be present at
+                        this point, everything else is malformed */
+                        if(character < '0' || character > '9') {
+                            RAISE_ERROR_M(
+                                RUNTIME_EXCEPTION_ERROR_CODE,
+                                (unsigned char *) "Unexpected character in bencoding"
+                            );
+                        }
+
                         state = BENCODING_ENGINE_STRING_SIZE;
                         string_size = character - '0';
 
@@ -427,11 +457,35 @@ ERROR_CODE _run_bencoding_engine(struct bencoding_engine_t *bencoding_engine, un
 
             case BENCODING_ENGINE_STRING_SIZE:
                 if(character == ':') {
-                    state = BENCODING_ENGINE_STRING;
+                    /* in case the string is larger than the remaining
+                    buffer, the buffer is truncated (malformed) */
+                    if(string_size > size - index - 1) {
+                        RAISE_ERROR_M(
+                            RUNTIME_EXCEPTION_ERROR_CODE,
+                            (unsigned char *) "Truncated string in bencoding"
+                        );
+                    }
 
+                    state = BENCODING_ENGINE_STRING;
                     BENCODING_MARK_N(string_end, -1);
                     BENCODING_CALLBACK(string_start);
+
+                    /* in case the string is empty it's already complete
+                    as there's no character to be read for it */
+                    if(string_size == 0) {
+                        state = BENCODING_ENGINE_NORMAL;
+                        BENCODING_CALLBACK_DATA_N(string_end, -1);
+                    }
                 } else {
+                    /* the size must be a sequence of digits with no leading
+                    zeros and must not be larger than the buffer itself */
+                    if(character < '0' || character > '9' || string_size == 0 || string_size > size) {
+                        RAISE_ERROR_M(
+                            RUNTIME_EXCEPTION_ERROR_CODE,
+                            (unsigned char *) "Invalid string size in bencoding"
+                        );
+                    }
+
                     string_size *= 10;
                     string_size += character - '0';
                 }
@@ -453,72 +507,120 @@ ERROR_CODE _run_bencoding_engine(struct bencoding_engine_t *bencoding_engine, un
     RAISE_NO_ERROR;
 }
 
+ERROR_CODE _bencoding_add_value(struct bencoding_engine_t *bencoding_engine, struct type_t *type, unsigned char *key) {
+    /* retrieves the bencoding handler from the engine context
+    and the sequence that is the target for the value */
+    struct bencoding_handler_t *bencoding_handler = (struct bencoding_handler_t *) bencoding_engine->context;
+    struct type_t *sequence = bencoding_handler->sequence;
+
+    /* in case there's no sequence the value is the top type (base type)
+    and the parsing of the value is considered complete */
+    if(sequence == NULL) {
+        bencoding_handler->top = type;
+        bencoding_handler->complete = 1;
+        RAISE_NO_ERROR;
+    }
+
+    /* switches over the type of current sequence to
+    execute the proper operations */
+    switch(sequence->type) {
+        case LIST_TYPE:
+            /* adds the current type to the list sequence */
+            append_value_linked_list(sequence->value.value_list, (void *) type);
+
+            /* breaks the switch */
+            break;
+
+        case MAP_TYPE:
+            /* sets the value in the map for the current key and sets the next key
+            flag so that the next string is saved as a key */
+            set_value_string_hash_map(sequence->value.value_map, key, (void *) type);
+            bencoding_handler->next_key = 1;
+
+            /* breaks the switch */
+            break;
+
+        case SORT_MAP_TYPE:
+            /* sets the value in the map for the current key and sets the next key
+            flag so that the next string is saved as a key */
+            set_value_string_sort_map(sequence->value.value_sort_map, key, (void *) type);
+            bencoding_handler->next_key = 1;
+
+            /* breaks the switch */
+            break;
+
+        default:
+            /* breaks the switch */
+            break;
+    }
+
+    /* raises no error */
+    RAISE_NO_ERROR;
+}
+
+ERROR_CODE _bencoding_check_value(struct bencoding_engine_t *bencoding_engine) {
+    /* retrieves the bencoding handler from the engine context */
+    struct bencoding_handler_t *bencoding_handler = (struct bencoding_handler_t *) bencoding_engine->context;
+
+    /* in case the top value is already complete or in case a key is
+    expected no value may be present (malformed) */
+    if(bencoding_handler->complete || bencoding_handler->next_key) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Unexpected value in bencoding"
+        );
+    }
+
+    /* raises no error */
+    RAISE_NO_ERROR;
+}
+
 ERROR_CODE _bencoding_integer_end_callback(struct bencoding_engine_t *bencoding_engine, const unsigned char *pointer, size_t size) {
     /* allocates space for the integer value and for
     the type that will encapsulate it */
-    int _integer;
+    size_t index;
+    long long _integer = 0;
+    unsigned char is_negative;
     struct type_t *type;
 
     /* retrieves the bencoding handler from the template engine context
     then uses it to store the (current) value */
     struct bencoding_handler_t *bencoding_handler = (struct bencoding_handler_t *) bencoding_engine->context;
 
-    /* allocates space for the integer string value and then copies
-    the data buffer into it and terminates the null string */
-    char *integer = MALLOC(size + 1);
-    memcpy(integer, pointer, size);
-    integer[size] = '\0';
-
-    /* in case the sequence type is defined the integer must
-    be a value and must be associated with the sequence */
-    if(bencoding_handler->sequence != NULL) {
-        /* converts the integer string into an integer value, then creates
-        the type structure for the integer and sets it as an integer value */
-        _integer = atoi(integer);
-        create_type(&type, INTEGER_TYPE);
-        *type = integer_type(_integer);
-
-        /* switches over the type of current sequence to
-        execute the proper operations */
-        switch(bencoding_handler->sequence->type) {
-            case LIST_TYPE:
-                /* adds the current type to the list sequence */
-                append_value_linked_list(bencoding_handler->sequence->value.value_list, (void *) type);
-
-                /* breaks the switch */
-                break;
-
-            case MAP_TYPE:
-                /* sets the value in the map for the current key and sets the next key
-                flag so that the next string is saved as a key */
-                set_value_string_hash_map(bencoding_handler->sequence->value.value_map, bencoding_handler->key, (void *) type);
-                bencoding_handler->next_key = 1;
+    /* verifies that a value is allowed at this point */
+    if(IS_ERROR_CODE(_bencoding_check_value(bencoding_engine))) { return RUNTIME_EXCEPTION_ERROR_CODE; }
 
-                /* breaks the switch */
-                break;
-
-            case SORT_MAP_TYPE:
-                /* sets the value in the map for the current key and sets the next key
-                flag so that the next string is saved as a key */
-                set_value_string_sort_map(bencoding_handler->sequence->value.value_sort_map, bencoding_handler->key, (void *) type);
-                bencoding_handler->next_key = 1;
-
-                /* breaks the switch */
-                break;
+    /* checks if the integer is negative and skips the sign, the
+    remaining part must be a non empty sequence of digits that has
+    no leading zeros (and that is not the negative zero) */
+    is_negative = size > 0 && pointer[0] == '-';
+    if(is_negative) { pointer++; size--; }
+    if(size == 0 || (pointer[0] == '0' && (size > 1 || is_negative))) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Invalid integer in bencoding"
+        );
+    }
 
-            default:
-                /* breaks the switch */
-                break;
+    /* converts the sequence of digits into an integer value, making
+    sure that it fits the range of the integer type */
+    for(index = 0; index < size; index++) {
+        if(pointer[index] >= '0' && pointer[index] <= '9') {
+            _integer = _integer * 10 + (pointer[index] - '0');
+            if(_integer <= (long long) INT_MAX + is_negative) { continue; }
         }
-    }
 
-    /* in case there is no top type defined for the handler sets the
-    current type as the top type (base type) */
-    if(bencoding_handler->top == NULL) { bencoding_handler->top = type; }
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Invalid integer in bencoding"
+        );
+    }
 
-    /* releases the memory associated with the intger string value
-    in order to avoid memory leaks */
-    FREE(integer);
+    /* creates the type structure for the integer and sets it as an
+    integer value, then adds it to the current sequence */
+    create_type(&type, INTEGER_TYPE);
+    *type = integer_type((int) (is_negative ? -_integer : _integer));
+    _bencoding_add_value(bencoding_engine, type, bencoding_handler->key);
 
     /* raises no error */
     RAISE_NO_ERROR;
@@ -527,15 +629,28 @@ ERROR_CODE _bencoding_integer_end_callback(struct bencoding_engine_t *bencoding_
 ERROR_CODE _bencoding_string_end_callback(struct bencoding_engine_t *bencoding_engine, const unsigned char *pointer, size_t size) {
     /* allocates space for the reference to the
     type structure to hold the string */
+    char *string;
+    void *current;
     struct type_t *type;
 
     /* retrieves the bencoding handler from the template engine context
     then uses it to store the (current) value */
     struct bencoding_handler_t *bencoding_handler = (struct bencoding_handler_t *) bencoding_engine->context;
 
+    /* in case no key is expected verifies that a value is allowed,
+    otherwise verifies that the key may be represented in a map */
+    if(bencoding_handler->next_key == 0) {
+        if(IS_ERROR_CODE(_bencoding_check_value(bencoding_engine))) { return RUNTIME_EXCEPTION_ERROR_CODE; }
+    } else if(memchr(pointer, '\0', size) != NULL) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Invalid key in bencoding"
+        );
+    }
+
     /* allocates memory for the string and then copies the source pointer
     data into the string buffer for the provided size and then closes it */
-    char *string = MALLOC(size + 1);
+    string = MALLOC(size + 1);
     memcpy(string, pointer, size);
     string[size] = '\0';
 
@@ -548,64 +663,31 @@ ERROR_CODE _bencoding_string_end_callback(struct bencoding_engine_t *bencoding_e
         if(bencoding_handler->key != NULL) { FREE(bencoding_handler->key); }
         bencoding_handler->key = (unsigned char *) string;
         bencoding_handler->next_key = 0;
+
+        /* tries to retrieve the value that is currently set for the key,
+        as the same key may not be present more than once in a map */
+        if(bencoding_handler->sequence->type == MAP_TYPE) {
+            get_value_string_hash_map(bencoding_handler->sequence->value.value_map, bencoding_handler->key, &current);
+        } else {
+            get_value_string_sort_map(bencoding_handler->sequence->value.value_sort_map, bencoding_handler->key, &current);
+        }
+        if(current != NULL) {
+            RAISE_ERROR_M(
+                RUNTIME_EXCEPTION_ERROR_CODE,
+                (unsigned char *) "Duplicated key in bencoding"
+            );
+        }
     }
-    /* otherwise in case the sequence type is defined the string must
-    be a value and must be associated with the sequence */
-    else if(bencoding_handler->sequence != NULL) {
+    /* otherwise the string is a value and must be associated with the
+    current sequence (or set as the top type) */
+    else {
         /* creates a new type structure for the string
         and sets it with the correct string value */
         create_type(&type, STRING_TYPE);
         *type = buffer_type(string, size);
-
-        /* switches over the type of current sequence to
-        execute the proper operations */
-        switch(bencoding_handler->sequence->type) {
-            case LIST_TYPE:
-                /* adds the current type to the list sequence */
-                append_value_linked_list(
-                    bencoding_handler->sequence->value.value_list,
-                    (void *) type
-                );
-
-                /* breaks the switch */
-                break;
-
-            case MAP_TYPE:
-                /* sets the value in the map for the current key and sets the next key
-                flag so that the next string is saved as a key */
-                set_value_string_hash_map(
-                    bencoding_handler->sequence->value.value_map,
-                    bencoding_handler->key,
-                    (void *) type
-                );
-                bencoding_handler->next_key = 1;
-
-                /* breaks the switch */
-                break;
-
-            case SORT_MAP_TYPE:
-                /* sets the value in the map for the current key and sets the next key
-                flag so that the next string is saved as a key */
-                set_value_string_sort_map(
-                    bencoding_handler->sequence->value.value_sort_map,
-                    bencoding_handler->key,
-                    (void *) type
-                );
-                bencoding_handler->next_key = 1;
-
-                /* breaks the switch */
-                break;
-
-            default:
-                /* breaks the switch */
-                break;
-        }
+        _bencoding_add_value(bencoding_engine, type, bencoding_handler->key);
     }
 
-    /* in case there is no top type defined for the handler sets the
-    current type as the top type (base type) */
-    if(bencoding_handler->top == NULL) { bencoding_handler->top = type; }
-
     /* raises no error */
     RAISE_NO_ERROR;
 }
@@ -620,6 +702,9 @@ ERROR_CODE _bencoding_list_start_callback(struct bencoding_engine_t *bencoding_e
     then uses it to store the (current) value */
     struct bencoding_handler_t *bencoding_handler = (struct bencoding_handler_t *) bencoding_engine->context;
 
+    /* verifies that a value is allowed at this point */
+    if(IS_ERROR_CODE(_bencoding_check_value(bencoding_engine))) { return RUNTIME_EXCEPTION_ERROR_CODE; }
+
     /* creates a new linked list for the new structure (sequence) context
     and then creates the respective type for the list */
     create_linked_list(&list);
@@ -634,10 +719,6 @@ ERROR_CODE _bencoding_list_start_callback(struct bencoding_engine_t *bencoding_e
     bencoding_handler->sequence = type;
     bencoding_handler->key = NULL;
 
-    /* in case there is no top type defined for the handler sets the
-    current type as the top type (base type) */
-    if(bencoding_handler->top == NULL) { bencoding_handler->top = type; }
-
     /* unsets the next key flag to avoid any possible misbehavior, colliding
     with the hash map structure */
     bencoding_handler->next_key = 0;
@@ -657,6 +738,9 @@ ERROR_CODE _bencoding_dictionary_start_callback(struct bencoding_engine_t *benco
     then uses it to store the (current) value */
     struct bencoding_handler_t *bencoding_handler = (struct bencoding_handler_t *) bencoding_engine->context;
 
+    /* verifies that a value is allowed at this point */
+    if(IS_ERROR_CODE(_bencoding_check_value(bencoding_engine))) { return RUNTIME_EXCEPTION_ERROR_CODE; }
+
     /* switchs over the "target" map type to be used to store conceptual
     maps in the bencoding structure */
     switch(bencoding_engine->map_type) {
@@ -667,6 +751,9 @@ ERROR_CODE _bencoding_dictionary_start_callback(struct bencoding_engine_t *benco
             create_type(&type, MAP_TYPE);
             *type = map_type(hash_map);
 
+            /* breaks the switch */
+            break;
+
         case SORT_MAP_TYPE:
             /* creates a new sort map for the new structure (sequence) context
             and then creates the respective type for the map */
@@ -674,6 +761,9 @@ ERROR_CODE _bencoding_dictionary_start_callback(struct bencoding_engine_t *benco
             create_type(&type, SORT_MAP_TYPE);
             *type = sort_map_type(sort_map);
 
+            /* breaks the switch */
+            break;
+
         default:
             /* creates a new sort map for the new structure (sequence) context
             and then creates the respective type for the map */
@@ -690,10 +780,6 @@ ERROR_CODE _bencoding_dictionary_start_callback(struct bencoding_engine_t *benco
     bencoding_handler->sequence = type;
     bencoding_handler->key = NULL;
 
-    /* in case there is no top type defined for the handler sets the
-    current type as the top type (base type) */
-    if(bencoding_handler->top == NULL) { bencoding_handler->top = type; }
-
     /* sets the next key flag so that in the next iteration the string
     is "accepted" as the current key value */
     bencoding_handler->next_key = 1;
@@ -713,6 +799,20 @@ ERROR_CODE _bencoding_sequence_end_callback(struct bencoding_engine_t *bencoding
     then uses it to store the (current) value */
     struct bencoding_handler_t *bencoding_handler = (struct bencoding_handler_t *) bencoding_engine->context;
 
+    /* in case there is no sequence to be ended or in case it's a map
+    that is missing the value of a key the end is malformed */
+    if(bencoding_handler->sequence == NULL || (bencoding_handler->sequence->type != LIST_TYPE &&
+        bencoding_handler->next_key == 0)) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Unexpected sequence end in bencoding"
+        );
+    }
+
+    /* releases the key of the sequence that is going to be ended
+    (in case there's one), to avoid any leaks */
+    if(bencoding_handler->key != NULL) { FREE(bencoding_handler->key); }
+
     /* pops the current key in the stack and the current sequence in the
     stack (these are the current values), then peeks the current sequence
     in the stack (in case it exists) it should represent the sequence to
@@ -722,65 +822,12 @@ ERROR_CODE _bencoding_sequence_end_callback(struct bencoding_engine_t *bencoding
     peek_top_value_linked_list(bencoding_handler->sequence_stack, (void **) &type);
     bencoding_handler->sequence = type;
 
-    /* in case the current (previous) sequence is a map, must do some
-    garbage collection to avoid leeks */
-    if(sequence->type == MAP_TYPE || sequence->type == SORT_MAP_TYPE) {
-        /* in case there is a key currently defined in the handler
-        must release its memory (to avoid any leaks) */
-        if(bencoding_handler->key != NULL) { FREE(bencoding_handler->key); }
-        bencoding_handler->key = NULL;
-    }
-
-    /* in case there is no sequence defined for the current handler context
-    no need to continue the processing (nothing to be assiciated) this is
-    typical for the top level of parsing */
-    if(bencoding_handler->sequence == NULL) { RAISE_NO_ERROR; }
-
-    /* swithces over the sequence type to take the appropriate action of
-    setting the lower (previous) context in the upper (current) context */
-    switch(bencoding_handler->sequence->type) {
-        case LIST_TYPE:
-            /* adds the lower value to the upper list appending it to the
-            back of the lis */
-            append_value_linked_list(bencoding_handler->sequence->value.value_list, (void *) sequence);
-
-            /* unsets the next key flag to avoid any unexpected string parsing
-            behavior (hash map only) */
-            bencoding_handler->next_key = 0;
-
-            /* breaks the switch */
-            break;
-
-        case MAP_TYPE:
-            /* sets the lower value in the upper map for the current key
-            this is the lower upper layer association */
-            set_value_string_hash_map(bencoding_handler->sequence->value.value_map, key, (void *) sequence);
-
-            /* sets the retrieved key as the current key and
-            sets the next key flag to force the retrieval of key */
-            bencoding_handler->key = key;
-            bencoding_handler->next_key = 1;
-
-            /* breaks the switch */
-            break;
-
-        case SORT_MAP_TYPE:
-            /* sets the lower value in the upper map for the current key
-            this is the lower upper layer association */
-            set_value_string_sort_map(bencoding_handler->sequence->value.value_sort_map, key, (void *) sequence);
-
-            /* sets the retrieved key as the current key and
-            sets the next key flag to force the retrieval of key */
-            bencoding_handler->key = key;
-            bencoding_handler->next_key = 1;
-
-            /* breaks the switch */
-            break;
-
-        default:
-            /* breaks the switch */
-            break;
-    }
+    /* restores the key and the next key flag of the upper context and
+    sets the lower (previous) context in it, this is the lower upper layer
+    association, or the top type in case there's no upper context */
+    bencoding_handler->key = key;
+    bencoding_handler->next_key = 0;
+    _bencoding_add_value(bencoding_engine, sequence, key);
 
     /* raises no error */
     RAISE_NO_ERROR;
diff --git a/src/viriatum_commons/encoding/bencoding.h b/src/viriatum_commons/encoding/bencoding.h
index 2dbfc90..c046a4e 100644
--- a/src/viriatum_commons/encoding/bencoding.h
+++ b/src/viriatum_commons/encoding/bencoding.h
@@ -101,6 +101,12 @@ typedef struct bencoding_handler_t {
     struct type_t *top;
     unsigned char *key;
     unsigned char next_key;
+
+    /**
+     * Flag that controls if the top (base) type
+     * has already been completely parsed.
+     */
+    unsigned char complete;
 } bencoding_handler;
 
 VIRIATUM_EXPORT_PREFIX void create_bencoding_engine(struct bencoding_engine_t **bencoding_engine_pointer, void *context);
@@ -115,6 +121,8 @@ VIRIATUM_EXPORT_PREFIX ERROR_CODE _encode_type(struct type_t *type, struct strin
 VIRIATUM_EXPORT_PREFIX ERROR_CODE _start_bencoding_engine(struct bencoding_engine_t **bencoding_engine_pointer);
 VIRIATUM_EXPORT_PREFIX ERROR_CODE _stop_bencoding_engine(struct bencoding_engine_t *bencoding_engine);
 VIRIATUM_EXPORT_PREFIX ERROR_CODE _run_bencoding_engine(struct bencoding_engine_t *bencoding_engine, unsigned char *buffer, size_t size);
+VIRIATUM_EXPORT_PREFIX ERROR_CODE _bencoding_add_value(struct bencoding_engine_t *bencoding_engine, struct type_t *type, unsigned char *key);
+VIRIATUM_EXPORT_PREFIX ERROR_CODE _bencoding_check_value(struct bencoding_engine_t *bencoding_engine);
 VIRIATUM_EXPORT_PREFIX ERROR_CODE _bencoding_integer_end_callback(struct bencoding_engine_t *bencoding_engine, const unsigned char *pointer, size_t size);
 VIRIATUM_EXPORT_PREFIX ERROR_CODE _bencoding_string_end_callback(struct bencoding_engine_t *bencoding_engine, const unsigned char *pointer, size_t size);
 VIRIATUM_EXPORT_PREFIX ERROR_CODE _bencoding_list_start_callback(struct bencoding_engine_t *bencoding_engine);
-- 
2.43.0


From fdc5c344f7051aa9234a0065ea34e0671cc2d698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:53 +0000
Subject: [PATCH 50/75] fix: template text is complete, bytes above 127,
 dollars before a tag and the end of the file included

---
 src/viriatum_commons/template/engine.c | 35 ++++++++++++++------------
 src/viriatum_commons/template/engine.h |  2 +-
 2 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/viriatum_commons/template/engine.c b/src/viriatum_commons/template/engine.c
index 8fc501c..489fda6 100644
--- a/src/viriatum_commons/template/engine.c
+++ b/src/viriatum_commons/template/engine.c
@@ -80,8 +80,8 @@ ERROR_CODE process_template_engine(struct template_engine_t *template_engine, st
 
     /* allocates space for the current (character) for reading
     and for the ahead character for look ahead */
-    char current = '\0';
-    char ahead = '\0';
+    int current = '\0';
+    int ahead = '\0';
 
     /* allocates the space for the look ahead valid flag */
     unsigned char ahead_set = 0;
@@ -162,9 +162,8 @@ ERROR_CODE process_template_engine(struct template_engine_t *template_engine, st
             current = _getc_template_engine(file, &pointer, &file_size);
         }
 
-        /* in case the end of file has been found, or
-        the file size is zero (breaks) */
-        if(current == EOF || file_size == 0) {
+        /* in case the end of file has been found (breaks) */
+        if(current == EOF) {
             /* breaks the cycle (end of parsing) */
             break;
         }
@@ -200,8 +199,9 @@ ERROR_CODE process_template_engine(struct template_engine_t *template_engine, st
                         TEMPLATE_CALLBACK(tag_close_begin);
                         ahead_set = 0;
                     }
-                } else {
-                    /* resets the state to the "normal" */
+                } else if(current != '$') {
+                    /* resets the state to the "normal", a new dollar
+                    may still be the start of a tag */
                     state = TEMPLATE_ENGINE_NORMAL;
                 }
 
@@ -345,7 +345,9 @@ ERROR_CODE process_template_engine(struct template_engine_t *template_engine, st
 
                         TEMPLATE_MARK(text_end);
 
-                        /* calls the tag end and text begin callbacks */
+                        /* calls the parameter value, tag end and
+                        text begin callbacks */
+                        TEMPLATE_CALLBACK_DATA_N(parameter_value, 2);
                         TEMPLATE_CALLBACK_DATA(tag_end);
                         TEMPLATE_CALLBACK(text_begin);
 
@@ -391,8 +393,9 @@ ERROR_CODE process_template_engine(struct template_engine_t *template_engine, st
     }
 
     /* in case the current state is engine
-    normal (there must be text to be flushed) */
-    if(state == TEMPLATE_ENGINE_NORMAL) {
+    normal, or there is a dollar that starts no
+    tag (there must be text to be flushed) */
+    if(state == TEMPLATE_ENGINE_NORMAL || state == TEMPLATE_ENGINE_DOLLAR) {
         /* calls the text end callback */
         TEMPLATE_CALLBACK_DATA(text_end);
     }
@@ -407,15 +410,15 @@ ERROR_CODE process_template_engine(struct template_engine_t *template_engine, st
     RAISE_NO_ERROR;
 }
 
-char _getc_template_engine(FILE *file, unsigned char **pointer, size_t *size) {
+int _getc_template_engine(FILE *file, unsigned char **pointer, size_t *size) {
     /* allocates space for the current character
     to be retrieve in the function */
-    char current;
+    int current;
 
     /* in case the size is already zero (nothing remaining) */
-    if(size == 0) {
-        /* returns invalid */
-        return 0;
+    if(*size == 0) {
+        /* returns end of file */
+        return EOF;
     }
 
     /* retrieves the current character
@@ -431,7 +434,7 @@ char _getc_template_engine(FILE *file, unsigned char **pointer, size_t *size) {
 
     /* updates the file buffer (from pointer) with the current
     character and increments the pointer reference */
-    **pointer = current;
+    **pointer = (unsigned char) current;
     (*pointer)++;
 
     /* decrements the file size */
diff --git a/src/viriatum_commons/template/engine.h b/src/viriatum_commons/template/engine.h
index 1afdc2d..4861b89 100644
--- a/src/viriatum_commons/template/engine.h
+++ b/src/viriatum_commons/template/engine.h
@@ -216,4 +216,4 @@ VIRIATUM_EXPORT_PREFIX ERROR_CODE process_template_engine(struct template_engine
  * (remaining) size in the file.
  * @return The character read from the file stream.
  */
-VIRIATUM_EXPORT_PREFIX char _getc_template_engine(FILE *file, unsigned char **pointer, size_t *size);
+VIRIATUM_EXPORT_PREFIX int _getc_template_engine(FILE *file, unsigned char **pointer, size_t *size);
-- 
2.43.0


From a9f6613fbbe7e4ab6bb231b6edb978b355eaa9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:53 +0000
Subject: [PATCH 51/75] fix: template conditions compare the item they name,
 operands of any size and missing names are handled

---
 src/viriatum_commons/template/handler.c | 108 ++++++++++++++++++++----
 src/viriatum_commons/template/handler.h |   8 +-
 2 files changed, 97 insertions(+), 19 deletions(-)

diff --git a/src/viriatum_commons/template/handler.c b/src/viriatum_commons/template/handler.c
index 58e770e..92bfd73 100644
--- a/src/viriatum_commons/template/handler.c
+++ b/src/viriatum_commons/template/handler.c
@@ -204,6 +204,10 @@ void create_template_parameter(struct template_parameter_t **template_parameter_
 
     /* sets the default values in the template parameter */
     template_parameter->type = 0;
+    template_parameter->name = NULL;
+    template_parameter->raw_value = NULL;
+    template_parameter->string_value = NULL;
+    template_parameter->reference_value = NULL;
     template_parameter->int_value = 0;
     template_parameter->float_value = 0.0f;
 
@@ -212,6 +216,13 @@ void create_template_parameter(struct template_parameter_t **template_parameter_
 }
 
 void delete_template_parameter(struct template_parameter_t *template_parameter) {
+    /* releases the various values of the parameter (in
+    case they are set) */
+    if(template_parameter->name) { FREE(template_parameter->name); }
+    if(template_parameter->raw_value) { FREE(template_parameter->raw_value); }
+    if(template_parameter->string_value) { FREE(template_parameter->string_value); }
+    if(template_parameter->reference_value) { FREE(template_parameter->reference_value); }
+
     /* releases the template parameter */
     FREE(template_parameter);
 }
@@ -328,19 +339,21 @@ void assign_list_template_handler(struct template_handler_t *template_handler, u
 void get_template_handler(struct template_handler_t *template_handler, unsigned char *name, struct type_t **value_pointer) {
     /* allocates space for the temporary (tokanizable) name variable
     and for the generated token values*/
-    unsigned char _name[64];
+    size_t name_size = strlen((char *) name) + 1;
+    unsigned char *_name = (unsigned char *) MALLOC(name_size);
     unsigned char *name_token;
     unsigned char *context;
 
-    /* allocates space for the (type) value */
-    struct type_t *value;
+    /* allocates space for the (type) value, that is not
+    found until there is a (valid) token for it */
+    struct type_t *value = NULL;
 
     /* retrieves the template global names as thee base value */
     struct hash_map_t *_value = template_handler->names;
 
     /* copies the name reference into a backup value
     to avoid data corruption (from tokenization) */
-    memcpy(_name, name, strlen((char *) name) + 1);
+    memcpy(_name, name, name_size);
 
     /* tokenizes the name into tokens */
     name_token = (unsigned char *) STRTOK((char *) _name, ".", context);
@@ -365,14 +378,26 @@ void get_template_handler(struct template_handler_t *template_handler, unsigned
             break;
         }
 
+        /* retrieves the next token, in case there's none
+        the value is the final one */
+        name_token = (unsigned char *) STRTOK(NULL, ".", context);
+        if(name_token == NULL) { break; }
+
+        /* in case the value has no names in it the requested
+        one does not exist */
+        if(value->type != MAP_TYPE) {
+            value = NULL;
+            break;
+        }
+
         /* updates the (hash map) value reference with the "newly"
         retrieved value */
         _value = value->value.value_map;
-
-        /* retrieves the next token */
-        name_token = (unsigned char *) STRTOK(NULL, ".", context);
     }
 
+    /* releases the (tokenized) name */
+    FREE(_name);
+
     /* sets the value pointer with the internal
     retrieved value */
     *value_pointer = value;
@@ -452,6 +477,10 @@ void traverse_node_buffer(struct template_handler_t *template_handler, struct te
 
         case TEMPLATE_NODE_SINGLE:
         case TEMPLATE_NODE_OPEN:
+            /* in case the node has no name or no parameters
+            there's nothing to be done */
+            if(node->name == NULL || node->parameters_map == NULL) { break; }
+
             if(strcmp((char *) node->name, "out") == 0) {
                 /* traverses the out node in buffer mode */
                 _traverse_out_buffer(template_handler, node);
@@ -522,6 +551,9 @@ void _traverse_out_buffer(struct template_handler_t *template_handler, struct te
     /* retrieves value parameter from the parameters map */
     get_value_string_hash_map(node->parameters_map, (unsigned char *) "value", (void **) &value_parameter);
 
+    /* in case there's no value to be printed */
+    if(value_parameter == NULL) { return; }
+
     /* switches over the value parameter type to
     update the string buffer accordingly */
     switch(value_parameter->type) {
@@ -590,12 +622,18 @@ void _traverse_for_each_buffer(struct template_handler_t *template_handler, stru
     get_value_string_hash_map(node->parameters_map, (unsigned char *) "item", (void **) &item_parameter);
     get_value_string_hash_map(node->parameters_map, (unsigned char *) "from", (void **) &from_parameter);
 
+    /* in case there are no references for the item or for
+    the list there's nothing to be iterated */
+    if(item_parameter == NULL || item_parameter->reference_value == NULL) { return; }
+    if(from_parameter == NULL || from_parameter->reference_value == NULL) { return; }
+
     /* tries to retrieve the reference value from the map of names in the
     template handler (dereferencing) */
     get_template_handler(template_handler, from_parameter->reference_value, &value);
 
-    /* in case the value was not found */
-    if(value == NULL) {
+    /* in case the value was not found or if it's not
+    a sequence of values */
+    if(value == NULL || value->type != LIST_TYPE) {
         /* returns immediately */
         return;
     }
@@ -636,17 +674,24 @@ void _traverse_if_buffer(struct template_handler_t *template_handler, struct tem
     struct template_parameter_t *value_parameter;
     struct template_parameter_t *operator_parameter;
 
-    /* allocates space for the value to be retrieved */
+    /* allocates space for the value to be retrieved and for
+    the one referred by the value parameter */
     struct type_t *value;
+    struct type_t *_value;
 
     /* retrieves both the from and the item parameters from the parameters map */
     get_value_string_hash_map(node->parameters_map, (unsigned char *) "item", (void **) &item_parameter);
     get_value_string_hash_map(node->parameters_map, (unsigned char *) "value", (void **) &value_parameter);
     get_value_string_hash_map(node->parameters_map, (unsigned char *) "operator", (void **) &operator_parameter);
 
+    /* in case there's no item or no value there's nothing
+    to be compared (the condition is not verified) */
+    if(item_parameter == NULL || item_parameter->reference_value == NULL) { return; }
+    if(value_parameter == NULL) { return; }
+
     /* tries to retrieve the reference value from the map of names in the
     template handler (dereferencing) */
-    get_template_handler(template_handler, (unsigned char *) "entry.type", &value);
+    get_template_handler(template_handler, item_parameter->reference_value, &value);
 
     /* in case the value was not found */
     if(value == NULL) {
@@ -654,8 +699,31 @@ void _traverse_if_buffer(struct template_handler_t *template_handler, struct tem
         return;
     }
 
-    if(value->value.value_int != value_parameter->int_value) {
-        return;
+    /* switches over the type of the value parameter, the condition
+    is verified for values of the same type that are equal */
+    switch(value_parameter->type) {
+        case TEMPLATE_PARAMETER_INTEGER:
+            if(value->type != INTEGER_TYPE) { return; }
+            if(value->value.value_int != value_parameter->int_value) { return; }
+            break;
+
+        case TEMPLATE_PARAMETER_STRING:
+            if(value->type != STRING_TYPE) { return; }
+            if(strcmp(value->value.value_string, (char *) value_parameter->string_value) != 0) { return; }
+            break;
+
+        case TEMPLATE_PARAMETER_REFERENCE:
+            get_template_handler(template_handler, value_parameter->reference_value, &_value);
+            if(_value == NULL || _value->type != value->type) { return; }
+            if(value->type == INTEGER_TYPE) {
+                if(value->value.value_int != _value->value.value_int) { return; }
+            } else if(value->type == STRING_TYPE) {
+                if(strcmp(value->value.value_string, _value->value.value_string) != 0) { return; }
+            } else { return; }
+            break;
+
+        default:
+            return;
     }
 
     /* traverses the child nodes of the node
@@ -686,6 +754,12 @@ ERROR_CODE _open_context_template_handler(struct template_handler_t *template_ha
 }
 
 ERROR_CODE _close_context_template_handler(struct template_handler_t *template_handler) {
+    /* in case there is no context to be closed (unbalanced tag)
+    keeps the current node */
+    if(template_handler->contexts == NULL || template_handler->contexts->size == 0) {
+        RAISE_NO_ERROR;
+    }
+
     /* pops the last context into the template handler current node */
     pop_top_value_linked_list(template_handler->contexts, (void **) &template_handler->current_node, 1);
 
@@ -885,6 +959,7 @@ ERROR_CODE _parameter_callback(struct template_engine_t *template_engine, const
     append_value_linked_list(temporary_node->parameters, template_parameter);
 
     /* sets the name in the template parameter throught a memory copy */
+    template_parameter->name = (unsigned char *) MALLOC(size + 1);
     memcpy(template_parameter->name, pointer, size);
     template_parameter->name[size] = '\0';
 
@@ -904,24 +979,27 @@ ERROR_CODE _parameter_value_callback(struct template_engine_t *template_engine,
     struct template_parameter_t *temporary_parameter = temporary_node->temporary_parameter;
 
     /* sets the raw value in the template parameter throught a memory copy */
+    temporary_parameter->raw_value = (unsigned char *) MALLOC(size + 1);
     memcpy(temporary_parameter->raw_value, pointer, size);
     temporary_parameter->raw_value[size] = '\0';
 
     /* in case the first character of the raw value is
     a start string character the value must be a string */
-    if(temporary_parameter->raw_value[0] == '"') {
+    if(size > 1 && temporary_parameter->raw_value[0] == '"') {
+        temporary_parameter->string_value = (unsigned char *) MALLOC(size - 1);
         memcpy(temporary_parameter->string_value, pointer + 1, size - 2);
         temporary_parameter->string_value[size - 2] = '\0';
         temporary_parameter->type = TEMPLATE_PARAMETER_STRING;
     }
     /* in case the first character of the raw value is a numeric
     value it must be a number */
-    else if(temporary_parameter->raw_value[0] > 0x2f && temporary_parameter->raw_value[0] < 0x58) {
+    else if(temporary_parameter->raw_value[0] > 0x2f && temporary_parameter->raw_value[0] < 0x3a) {
         temporary_parameter->int_value = atoi((char *) temporary_parameter->raw_value);
         temporary_parameter->type = TEMPLATE_PARAMETER_INTEGER;
     }
     /* othwerwise it must be a (variable) reference value */
     else {
+        temporary_parameter->reference_value = (unsigned char *) MALLOC(size + 1);
         memcpy(temporary_parameter->reference_value, pointer, size);
         temporary_parameter->reference_value[size] = '\0';
         temporary_parameter->type = TEMPLATE_PARAMETER_REFERENCE;
diff --git a/src/viriatum_commons/template/handler.h b/src/viriatum_commons/template/handler.h
index aca5657..202d478 100644
--- a/src/viriatum_commons/template/handler.h
+++ b/src/viriatum_commons/template/handler.h
@@ -116,22 +116,22 @@ typedef struct template_parameter_t {
     /**
      * The name of the current parameter.
      */
-    unsigned char name[64];
+    unsigned char *name;
 
     /**
      * The "raw" and unprocessed parameter value.s
      */
-    unsigned char raw_value[128];
+    unsigned char *raw_value;
 
     /**
      * The value as a string of the parameter.
      */
-    unsigned char string_value[128];
+    unsigned char *string_value;
 
     /**
      * The value as a refernce of the parameter.
      */
-    unsigned char reference_value[64];
+    unsigned char *reference_value;
 
     /**
      * The value as an integer of the parameter.
-- 
2.43.0


From e4dcc33c6733b2ea28a813587718088ed8f3d290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:52 +0000
Subject: [PATCH 52/75] fix: the SHA-1 digest no longer changes the data it is
 given

---
 src/viriatum_commons/checksum/sha1.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/viriatum_commons/checksum/sha1.c b/src/viriatum_commons/checksum/sha1.c
index 1dbfa2b..1978dec 100644
--- a/src/viriatum_commons/checksum/sha1.c
+++ b/src/viriatum_commons/checksum/sha1.c
@@ -92,9 +92,12 @@ void final_sha1(struct sha1_context_t *context, unsigned char *digest) {
 
 void _transform_sha1(unsigned int state[5], const unsigned char buffer[64]) {
     unsigned int a, b, c, d, e;
-    union sha1_block_t *block;
+    union sha1_block_t _block;
+    union sha1_block_t *block = &_block;
 
-    block = (union sha1_block_t *) buffer;
+    /* copies the block, as the message schedule is going to be
+    computed in place and the buffer belongs to the caller */
+    memcpy(_block.c, buffer, 64);
 
     /* copies context state to working vars */
     a = state[0];
-- 
2.43.0


From ef2d98481aec0317b6e99380e99aebf6b5055e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:10 +0000
Subject: [PATCH 53/75] fix: the socket of a client connection that fails is
 closed

---
 src/viriatum/system/client.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/viriatum/system/client.c b/src/viriatum/system/client.c
index ad23739..4d398ca 100644
--- a/src/viriatum/system/client.c
+++ b/src/viriatum/system/client.c
@@ -63,6 +63,7 @@ ERROR_CODE _create_client_connection(struct connection_t **connection_pointer, s
     an error indicating the problem */
     server = SOCKET_GET_HOST_BY_NAME(hostname);
     if(server == NULL) {
+        SOCKET_CLOSE(socket_handle);
         RAISE_ERROR_M(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "No such host"
@@ -80,6 +81,7 @@ ERROR_CODE _create_client_connection(struct connection_t **connection_pointer, s
     a problem in the connection attempt, raises an error */
     error = SOCKET_CONNECT_SIZE(socket_handle, serv_addr, sizeof(SOCKET_ADDRESS_INTERNET));
     if(SOCKET_TEST_ERROR(error)) {
+        SOCKET_CLOSE(socket_handle);
         RAISE_ERROR_M(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "Problem connecting to host"
-- 
2.43.0


From 80330c6b445a8dae7e46719cb6c89ea6666d050d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:10 +0000
Subject: [PATCH 54/75] fix: the buffer of a proxied request grows with the
 request

---
 src/viriatum/handlers/handler_proxy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum/handlers/handler_proxy.h b/src/viriatum/handlers/handler_proxy.h
index 87b058c..96721a4 100644
--- a/src/viriatum/handlers/handler_proxy.h
+++ b/src/viriatum/handlers/handler_proxy.h
@@ -247,7 +247,7 @@ static __inline void write_proxy_out_buffer(struct handler_proxy_context_t *cont
 static __inline void write_proxy_buffer(struct handler_proxy_context_t *context, char *data, size_t size) {
     if(context->buffer_size + size > context->buffer_max_size) {
         context->buffer_max_size = (context->buffer_size + size) * 2;
-        context->out_buffer = REALLOC(context->buffer, context->buffer_max_size);
+        context->buffer = REALLOC(context->buffer, context->buffer_max_size);
     }
 
     memcpy(&context->buffer[context->buffer_size], data, size);
-- 
2.43.0


From 569f29ad3d8dd648be16a714e0051e368841e090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:10 +0000
Subject: [PATCH 55/75] fix: the url of a proxied request may have any size

---
 src/viriatum/handlers/handler_proxy.c | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index 32525db..261ae0b 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -484,15 +484,6 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
     struct custom_parameters_t *parameters;
     struct connection_t *connection_c;
 
-    /* sets space for the resulting size of the buffer that will hold
-    the status line to be sent to the backend connection */
-    size_t size_m;
-
-    /* allocates two buffers for temporary and local operations to
-    in the current callback function */
-    char buffer[1024];
-    char path[1024];
-
     /* allocates space fot the temporary variable that will store the
     on close handler that will be set in the associative map */
     io_connection_callback on_close;
@@ -523,15 +514,14 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
 
-    /* copies the virtual url value into the local path buffer and then
-    closes it as a null terminated string */
-    memcpy(path, data, data_size);
-    path[data_size] = '\0';
-
-    /* writes the initial line of the HTTP message into the temporary buffer
-    and then sends this value to the current buffer for writing */
-    size_m = SPRINTF(buffer, 1024, "%s %s %s\r\n", method, path, version);
-    write_proxy_buffer(handler_proxy_context, buffer, size_m);
+    /* writes the initial line of the HTTP message into the current buffer
+    for writing (the virtual url may have any size) */
+    write_proxy_buffer(handler_proxy_context, (char *) method, strlen(method));
+    write_proxy_buffer(handler_proxy_context, " ", 1);
+    write_proxy_buffer(handler_proxy_context, (char *) data, data_size);
+    write_proxy_buffer(handler_proxy_context, " ", 1);
+    write_proxy_buffer(handler_proxy_context, (char *) version, strlen(version));
+    write_proxy_buffer(handler_proxy_context, "\r\n", 2);
 
     /*@todo: can put here the extra headers to be sent to the backend */
     write_proxy_buffer(handler_proxy_context, "X-Viriatum-Proxy:1\r\n", 20);
-- 
2.43.0


From 6ef23fadc53f2be871e0ee46388400cbda8bcee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:10 +0000
Subject: [PATCH 56/75] fix: a proxied response may have any status code

---
 src/viriatum/handlers/handler_proxy.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index 261ae0b..68a3501 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -803,7 +803,14 @@ ERROR_CODE line_callback_backend(struct http_parser_t *http_parser) {
     and the equivalent status message from the pre-defined ones */
     const char *version = get_http_version_string(version_e);
     unsigned short status_code = http_parser->status_code;
-    const char *status_message = GET_HTTP_STATUS(status_code);
+    const char *status_message = NULL;
+
+    /* the backend may use any status code, so the ones that are not part
+    of the pre-defined set have no message */
+    if(status_code >= 100 && status_code < 600 && status_code % 100 < 64) {
+        status_message = GET_HTTP_STATUS(status_code);
+    }
+    if(status_message == NULL) { status_message = ""; }
 
     /* writes the status line (should mimic the received one) into a local
     buffer and then writes this buffer into the output buffer */
-- 
2.43.0


From 0a2061e14570602f6d887258a71447f35ba82b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:33 +0000
Subject: [PATCH 57/75] fix: the messages of the status codes from 411 on are
 the ones of their codes

---
 src/viriatum/http/http_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum/http/http_util.h b/src/viriatum/http/http_util.h
index c4ff195..952fb13 100644
--- a/src/viriatum/http/http_util.h
+++ b/src/viriatum/http/http_util.h
@@ -131,7 +131,7 @@ static const char *http_status_codes[5][64] = {
         "Request Timeout",
         "Conflict",
         "Gone",
-        "Length Required"
+        "Length Required",
         "Precondition Failed",
         "Request Entity Too Large",
         "Request-URI Too Long",
-- 
2.43.0


From bcf3893b2527823f2699f8ab82bacdb2dab7ce7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:51 +0000
Subject: [PATCH 58/75] fix: folded headers are proxied as folded headers

---
 src/viriatum/handlers/handler_proxy.c | 18 ++++++++++++++++--
 src/viriatum/handlers/handler_proxy.h | 12 ++++++++++++
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index 68a3501..b51a68b 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -103,6 +103,8 @@ ERROR_CODE create_handler_proxy_context(struct handler_proxy_context_t **handler
     handler_proxy_context->connection_c = NULL;
     handler_proxy_context->pending = FALSE;
     handler_proxy_context->pending_write = 0;
+    handler_proxy_context->field = FALSE;
+    handler_proxy_context->out_field = FALSE;
 
     /* creates a new set of HTTP settings and parser for the new
     context that is being created, these are going to be used in
@@ -367,6 +369,7 @@ ERROR_CODE header_field_callback_handler_proxy(struct http_parser_t *http_parser
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
     write_proxy_buffer(handler_proxy_context, (char *) data, data_size);
+    handler_proxy_context->field = TRUE;
 
     RAISE_NO_ERROR;
 }
@@ -374,9 +377,14 @@ ERROR_CODE header_field_callback_handler_proxy(struct http_parser_t *http_parser
 ERROR_CODE header_value_callback_handler_proxy(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
-    write_proxy_buffer(handler_proxy_context, ": ", 2);
+
+    /* the value may be preceded by the name of its header or else it's the
+    continuation of the previous value (starts with a space) */
+    if(handler_proxy_context->field) { write_proxy_buffer(handler_proxy_context, ": ", 2); }
+    else { write_proxy_buffer(handler_proxy_context, " ", 1); }
     write_proxy_buffer(handler_proxy_context, (char *) data, data_size);
     write_proxy_buffer(handler_proxy_context, "\r\n", 2);
+    handler_proxy_context->field = FALSE;
     RAISE_NO_ERROR;
 }
 
@@ -828,15 +836,21 @@ ERROR_CODE header_field_callback_backend(struct http_parser_t *http_parser, cons
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
     write_proxy_out_buffer(handler_proxy_context, (char *) data, data_size);
+    handler_proxy_context->out_field = TRUE;
     RAISE_NO_ERROR;
 }
 
 ERROR_CODE header_value_callback_backend(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
-    write_proxy_out_buffer(handler_proxy_context, ": ", 2);
+
+    /* the value may be preceded by the name of its header or else it's the
+    continuation of the previous value (starts with a space) */
+    if(handler_proxy_context->out_field) { write_proxy_out_buffer(handler_proxy_context, ": ", 2); }
+    else { write_proxy_out_buffer(handler_proxy_context, " ", 1); }
     write_proxy_out_buffer(handler_proxy_context, (char *) data, data_size);
     write_proxy_out_buffer(handler_proxy_context, "\r\n", 2);
+    handler_proxy_context->out_field = FALSE;
     RAISE_NO_ERROR;
 }
 
diff --git a/src/viriatum/handlers/handler_proxy.h b/src/viriatum/handlers/handler_proxy.h
index 96721a4..b18495a 100644
--- a/src/viriatum/handlers/handler_proxy.h
+++ b/src/viriatum/handlers/handler_proxy.h
@@ -196,6 +196,18 @@ typedef struct handler_proxy_context_t {
      * the continuous growth of them.
      */
     size_t pending_write;
+
+    /**
+     * If the name of a header of the request has just been written, meaning
+     * that the next value belongs to it, otherwise the value is considered
+     * to be the continuation of the previous one (folded header).
+     */
+    char field;
+
+    /**
+     * The equivalent of the field flag for the headers of the response.
+     */
+    char out_field;
 } handler_proxy_context;
 
 ERROR_CODE create_proxy_handler(struct proxy_handler_t **proxy_handler_pointer, struct http_handler_t *http_handler);
-- 
2.43.0


From 13f9e064d98f26ac586597b414e7736208eab3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:51 +0000
Subject: [PATCH 59/75] fix: the chunked body of a request is proxied as a
 chunked body

---
 src/viriatum/handlers/handler_proxy.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index b51a68b..ad2a44c 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -368,6 +368,10 @@ ERROR_CODE url_callback_handler_proxy(struct http_parser_t *http_parser, const u
 ERROR_CODE header_field_callback_handler_proxy(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
+
+    /* the fields that follow a chunked body are not proxied */
+    if(http_parser->flags & FLAG_TRAILING) { RAISE_NO_ERROR; }
+
     write_proxy_buffer(handler_proxy_context, (char *) data, data_size);
     handler_proxy_context->field = TRUE;
 
@@ -378,6 +382,10 @@ ERROR_CODE header_value_callback_handler_proxy(struct http_parser_t *http_parser
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
 
+    /* the fields that follow a chunked body are not proxied */
+    if(http_parser->flags & FLAG_TRAILING) { RAISE_NO_ERROR; }
+
+
     /* the value may be preceded by the name of its header or else it's the
     continuation of the previous value (starts with a space) */
     if(handler_proxy_context->field) { write_proxy_buffer(handler_proxy_context, ": ", 2); }
@@ -396,9 +404,19 @@ ERROR_CODE headers_complete_callback_handler_proxy(struct http_parser_t *http_pa
 }
 
 ERROR_CODE body_callback_handler_proxy(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
+    size_t size_m;
+    char buffer[32];
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
+
+    /* the body of a chunked message must be sent in chunks as that's
+    what the headers that have been sent announce */
+    if(http_parser->flags & FLAG_CHUNKED) {
+        size_m = SPRINTF(buffer, 32, "%lx\r\n", (unsigned long) data_size);
+        write_proxy_buffer(handler_proxy_context, buffer, size_m);
+    }
     write_proxy_buffer(handler_proxy_context, (char *) data, data_size);
+    if(http_parser->flags & FLAG_CHUNKED) { write_proxy_buffer(handler_proxy_context, "\r\n", 2); }
     RAISE_NO_ERROR;
 }
 
@@ -441,6 +459,11 @@ ERROR_CODE message_complete_callback_handler_proxy(struct http_parser_t *http_pa
             (void *) (size_t) http_parser->flags
         );
     } else {
+        /* a chunked message is finished by an empty chunk */
+        if(http_parser->flags & FLAG_CHUNKED) {
+            write_proxy_buffer(handler_proxy_context, "0\r\n\r\n", 5);
+        }
+
         write_connection_c(
             handler_proxy_context->connection_c,
             (unsigned char *) handler_proxy_context->buffer,
-- 
2.43.0


From 1d866a1e1b00953719a8d5da974aa89c7f7535d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:29 +0000
Subject: [PATCH 60/75] fix: a proxied request outlives the context of its
 response

---
 src/viriatum/handlers/handler_proxy.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index ad2a44c..c6f79c9 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -470,8 +470,14 @@ ERROR_CODE message_complete_callback_handler_proxy(struct http_parser_t *http_pa
             handler_proxy_context->buffer_size,
             NULL,
             NULL,
-            FALSE
+            TRUE
         );
+
+        /* the buffer now belongs to the write operation, the response (and
+        the end of the context) may come before it has been fully written */
+        handler_proxy_context->buffer = MALLOC(1024);
+        handler_proxy_context->buffer_size = 0;
+        handler_proxy_context->buffer_max_size = 1024;
     }
 
     /* raises no error as no problem has arised from the
-- 
2.43.0


From 2dbd4b0b64c9d69b04150b75930f112d96aabdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:29 +0000
Subject: [PATCH 61/75] fix: the end of a proxied response is the one its
 headers announce

---
 src/viriatum/handlers/handler_proxy.c | 40 +++++++++++++++++++++++----
 src/viriatum/http/http_parser.c       | 16 ++++++-----
 2 files changed, 44 insertions(+), 12 deletions(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index c6f79c9..58aa890 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -892,17 +892,26 @@ ERROR_CODE headers_complete_callback_backend(struct http_parser_t *http_parser)
     struct connection_t *connection = handler_proxy_context->connection;
     struct connection_t *connection_c = handler_proxy_context->connection_c;
 
+    /* allocates space for the lower layers of the proxy client connection */
+    struct io_connection_t *io_connection;
+    struct http_connection_t *http_connection;
+
+    /* reserves space for the buffer that is going to be written, the
+    output buffer may be used again while it's pending */
+    char *buffer;
+
     /* writes the final header to body separator in the current output
     buffer of the proxy and then flushes (writes) the output buffer to
     the proxy client connection (propagation) */
     write_proxy_out_buffer(handler_proxy_context, "\r\n", 2);
-    write_connection_c(
+    buffer = MALLOC(handler_proxy_context->out_buffer_size);
+    memcpy(buffer, handler_proxy_context->out_buffer, handler_proxy_context->out_buffer_size);
+    write_connection(
         connection,
-        (unsigned char *) handler_proxy_context->out_buffer,
+        (unsigned char *) buffer,
         handler_proxy_context->out_buffer_size,
         _pending_handler_proxy,
-        (void *) handler_proxy_context,
-        FALSE
+        (void *) handler_proxy_context
     );
 
     /* adds the size of the current data to the counter of bytes
@@ -910,11 +919,18 @@ ERROR_CODE headers_complete_callback_backend(struct http_parser_t *http_parser)
     the maximum allowed and the read enabled in the client connection
     disables the read operations in the backend connection (avoids flooding) */
     handler_proxy_context->pending_write += handler_proxy_context->out_buffer_size;
+    handler_proxy_context->out_buffer_size = 0;
     if(connection_c != NULL && connection_c->read_registered == TRUE &&\
         handler_proxy_context->pending_write >= VIRIATUM_MAX_READ) {
         connection_c->unregister_read(connection_c);
     }
 
+    /* the response to a HEAD request has no body, even if the headers
+    announce the length of one (skips it) */
+    io_connection = (struct io_connection_t *) connection->lower;
+    http_connection = (struct http_connection_t *) io_connection->lower;
+    if(http_connection->http_parser->method == HTTP_HEAD) { return 1; }
+
     /* raises no error */
     RAISE_NO_ERROR;
 }
@@ -962,6 +978,20 @@ ERROR_CODE message_complete_callback_backend(struct http_parser_t *http_parser)
         (struct handler_proxy_context_t *) http_parser->context;
     struct connection_t *connection = handler_proxy_context->connection;
 
+    /* retrieves the flags of the response, these are going to decide
+    if the connection with the proxy client is kept alive */
+    unsigned char flags = http_parser->flags;
+
+    /* an informational response is followed by the final one, so
+    the message is not yet complete */
+    if(http_parser->status_code / 100 == 1) { RAISE_NO_ERROR; }
+
+    /* a body that is delimited by the end of the backend connection
+    must be delimited the same way in the proxy client connection */
+    if(http_parser->content_length < 0 && !(flags & (FLAG_CHUNKED | FLAG_SKIPBODY))) {
+        flags &= ~FLAG_KEEP_ALIVE;
+    }
+
     /* writes the final (empty value) to the connection stream so that
     the cleanup handler callback is called at the end of all the pending
     write operations, this is a required "empty" operation */
@@ -970,7 +1000,7 @@ ERROR_CODE message_complete_callback_backend(struct http_parser_t *http_parser)
         (unsigned char *) "",
         0,
         _cleanup_handler_proxy,
-        (void *) (size_t) http_parser->flags,
+        (void *) (size_t) flags,
         FALSE
     );
 
diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index 37b0174..a675281 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -144,6 +144,7 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
         switch(state) {
             case STATE_BODY_IDENTITY_EOF:
                 HTTP_CALLBACK(message_complete);
+                http_parser->state = NEW_MESSAGE();
 
                 /* returns immediately */
                 return 0;
@@ -1545,6 +1546,13 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                         }
                     }
 
+                    /* some of the responses never have a body, even if their
+                    headers announce the length of one */
+                    if(http_parser->type == HTTP_RESPONSE && (http_parser->status_code / 100 == 1 ||\
+                        http_parser->status_code == 204 || http_parser->status_code == 304)) {
+                        http_parser->flags |= FLAG_SKIPBODY;
+                    }
+
                     if(http_parser->flags & FLAG_SKIPBODY) {
                         HTTP_CALLBACK(message_complete);
                         state = NEW_MESSAGE();
@@ -1566,7 +1574,7 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                             value so that it can be used later */
                             http_parser->_content_length = http_parser->content_length;
                         } else {
-                            if(http_parser->type == HTTP_REQUEST || http_should_keep_alive(http_parser)) {
+                            if(http_parser->type == HTTP_REQUEST) {
                                 /* assumes content-length 0 - read the next */
                                 HTTP_CALLBACK(message_complete);
                                 state = NEW_MESSAGE();
@@ -1746,12 +1754,6 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
         }
     }
 
-    if(state == STATE_BODY_IDENTITY_EOF) {
-        HTTP_CALLBACK(message_complete);
-        state = NEW_MESSAGE();
-        parse_count++;
-    }
-
     /* updates (saves) the vaious parser state values into the
     proper structure so that they may be used latter in further
     parsing stages (partial parsing) */
-- 
2.43.0


From 2ec62a81487445aca0d3f917769e3a607d7dd443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:29 +0000
Subject: [PATCH 62/75] fix: the chunked body of a response is proxied as a
 chunked body

---
 src/viriatum/handlers/handler_proxy.c | 41 +++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index 58aa890..f2d0130 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -385,7 +385,6 @@ ERROR_CODE header_value_callback_handler_proxy(struct http_parser_t *http_parser
     /* the fields that follow a chunked body are not proxied */
     if(http_parser->flags & FLAG_TRAILING) { RAISE_NO_ERROR; }
 
-
     /* the value may be preceded by the name of its header or else it's the
     continuation of the previous value (starts with a space) */
     if(handler_proxy_context->field) { write_proxy_buffer(handler_proxy_context, ": ", 2); }
@@ -864,6 +863,10 @@ ERROR_CODE line_callback_backend(struct http_parser_t *http_parser) {
 ERROR_CODE header_field_callback_backend(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
+
+    /* the fields that follow a chunked body are not proxied */
+    if(http_parser->flags & FLAG_TRAILING) { RAISE_NO_ERROR; }
+
     write_proxy_out_buffer(handler_proxy_context, (char *) data, data_size);
     handler_proxy_context->out_field = TRUE;
     RAISE_NO_ERROR;
@@ -873,6 +876,9 @@ ERROR_CODE header_value_callback_backend(struct http_parser_t *http_parser, cons
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
 
+    /* the fields that follow a chunked body are not proxied */
+    if(http_parser->flags & FLAG_TRAILING) { RAISE_NO_ERROR; }
+
     /* the value may be preceded by the name of its header or else it's the
     continuation of the previous value (starts with a space) */
     if(handler_proxy_context->out_field) { write_proxy_out_buffer(handler_proxy_context, ": ", 2); }
@@ -947,12 +953,25 @@ ERROR_CODE body_callback_backend(struct http_parser_t *http_parser, const unsign
     /* allocates a buffer of the same size of the received body
     data and then copies the data into this new buffer, then
     writes the buffer into the current (proxy client) connection */
-    char *buffer = MALLOC(data_size);
-    memcpy(buffer, data, data_size);
+    char *buffer = MALLOC(data_size + 32);
+    size_t size = 0;
+
+    /* the body of a chunked message must be sent in chunks as that's
+    what the headers that have been sent announce */
+    if(http_parser->flags & FLAG_CHUNKED) {
+        size += SPRINTF(buffer, 32, "%lx\r\n", (unsigned long) data_size);
+    }
+    memcpy(&buffer[size], data, data_size);
+    size += data_size;
+    if(http_parser->flags & FLAG_CHUNKED) {
+        memcpy(&buffer[size], "\r\n", 2);
+        size += 2;
+    }
+
     write_connection(
         connection,
         (unsigned char *) buffer,
-        data_size,
+        size,
         _pending_handler_proxy,
         (void *) handler_proxy_context
     );
@@ -961,7 +980,7 @@ ERROR_CODE body_callback_backend(struct http_parser_t *http_parser, const unsign
     that are in the write buffer and then in case this values exceeds
     the maximum allowed and the read enabled in the client connection
     disables the read operations in the backend connection (avoids flooding) */
-    handler_proxy_context->pending_write += data_size;
+    handler_proxy_context->pending_write += size;
     if(connection_c->read_registered == TRUE &&\
         handler_proxy_context->pending_write >= VIRIATUM_MAX_READ) {
         connection_c->unregister_read(connection_c);
@@ -992,6 +1011,18 @@ ERROR_CODE message_complete_callback_backend(struct http_parser_t *http_parser)
         flags &= ~FLAG_KEEP_ALIVE;
     }
 
+    /* a chunked message is finished by an empty chunk */
+    if((flags & FLAG_CHUNKED) && !(flags & FLAG_SKIPBODY)) {
+        write_connection_c(
+            connection,
+            (unsigned char *) "0\r\n\r\n",
+            5,
+            NULL,
+            NULL,
+            FALSE
+        );
+    }
+
     /* writes the final (empty value) to the connection stream so that
     the cleanup handler callback is called at the end of all the pending
     write operations, this is a required "empty" operation */
-- 
2.43.0


From 61cd760069d18580eac1ee7727345ab71fb26f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:52 +0000
Subject: [PATCH 63/75] fix: a proxied response may be received in any number
 of parts

---
 src/viriatum/handlers/handler_proxy.c | 68 +++++++++++++++++++++++----
 src/viriatum/handlers/handler_proxy.h | 11 +++++
 2 files changed, 71 insertions(+), 8 deletions(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index f2d0130..f6717d3 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -105,6 +105,8 @@ ERROR_CODE create_handler_proxy_context(struct handler_proxy_context_t **handler
     handler_proxy_context->pending_write = 0;
     handler_proxy_context->field = FALSE;
     handler_proxy_context->out_field = FALSE;
+    handler_proxy_context->tail = NULL;
+    handler_proxy_context->tail_size = 0;
 
     /* creates a new set of HTTP settings and parser for the new
     context that is being created, these are going to be used in
@@ -140,6 +142,9 @@ ERROR_CODE delete_handler_proxy_context(struct handler_proxy_context_t *handler_
     defined it must be properly released to avoid memory leaks */
     if(handler_proxy_context->out_buffer) { FREE(handler_proxy_context->out_buffer); }
 
+    /* releases the bytes of the header that was being received (if any) */
+    if(handler_proxy_context->tail) { FREE(handler_proxy_context->tail); }
+
     /* in case the HTTP settings structure is defined for the current
     context it must be release in order to avoid any leaks */
     if(handler_proxy_context->http_settings) {
@@ -690,6 +695,14 @@ ERROR_CODE data_backend_handler(struct io_connection_t *io_connection, unsigned
     /* allocates space for the proxy context that may be retrieved
     latter in the function */
     struct handler_proxy_context_t *handler_proxy_context;
+    struct http_parser_t *http_parser;
+
+    /* allocates space for the values that control the data that is
+    going to be processed */
+    int processed_size;
+    unsigned char *mark;
+    unsigned char *buffer_end;
+    unsigned char *data = NULL;
 
     /* retrieves the top level connection object from the io connection
     and then uses it to retrieve its parameters */
@@ -707,16 +720,55 @@ ERROR_CODE data_backend_handler(struct io_connection_t *io_connection, unsigned
     handler_proxy_context =\
         (struct handler_proxy_context_t *) custom_parameters->parameters;
 
+    /* in case part of a header has been previously received the complete set
+    of bytes of it must be contiguous, so the data is copied after it */
+    http_parser = handler_proxy_context->http_parser;
+    if(handler_proxy_context->tail != NULL) {
+        data = (unsigned char *) REALLOC(
+            handler_proxy_context->tail,
+            handler_proxy_context->tail_size + buffer_size
+        );
+        memcpy(&data[handler_proxy_context->tail_size], buffer, buffer_size);
+        buffer = &data[handler_proxy_context->tail_size];
+        if(http_parser->header_field_mark) { http_parser->header_field_mark = data; }
+        else { http_parser->header_value_mark = data; }
+        handler_proxy_context->tail = NULL;
+        handler_proxy_context->tail_size = 0;
+    }
+
     /* runs the process operation (parser iteration) using the buffer that contains
     the data that has been retrieved from the backend server, this should trigger a
-    series of callbacks for the various stages of the parsing, then returns the control
-    flow to the caller function (everything went well) */
-    process_data_http_parser(
-        handler_proxy_context->http_parser,
-        handler_proxy_context->http_settings,
-        buffer,
-        buffer_size
-    );
+    series of callbacks for the various stages of the parsing */
+    buffer_end = buffer + buffer_size;
+    while(handler_proxy_context->pending && buffer != buffer_end) {
+        processed_size = process_data_http_parser(
+            http_parser,
+            handler_proxy_context->http_settings,
+            buffer,
+            buffer_end - buffer
+        );
+        if(processed_size <= 0) { break; }
+        buffer += processed_size;
+    }
+
+    /* in case there's data that is not part of the response to the request the
+    backend connection may not be used any longer */
+    if(buffer != buffer_end) { connection->close_connection(connection); }
+
+    /* otherwise the bytes of the header that is not complete are saved as the
+    data is not going to be available in the next call */
+    else {
+        mark = http_parser->header_field_mark ? http_parser->header_field_mark :\
+            http_parser->header_value_mark;
+        if(mark != NULL) {
+            handler_proxy_context->tail_size = buffer_end - mark;
+            handler_proxy_context->tail = (unsigned char *) MALLOC(handler_proxy_context->tail_size);
+            memcpy(handler_proxy_context->tail, mark, handler_proxy_context->tail_size);
+        }
+    }
+
+    if(data != NULL) { FREE(data); }
+
     RAISE_NO_ERROR;
 }
 
diff --git a/src/viriatum/handlers/handler_proxy.h b/src/viriatum/handlers/handler_proxy.h
index b18495a..5e32a5c 100644
--- a/src/viriatum/handlers/handler_proxy.h
+++ b/src/viriatum/handlers/handler_proxy.h
@@ -208,6 +208,17 @@ typedef struct handler_proxy_context_t {
      * The equivalent of the field flag for the headers of the response.
      */
     char out_field;
+
+    /**
+     * The bytes of the header of the response that has not been completely
+     * received, these must be kept until the remaining ones are received.
+     */
+    unsigned char *tail;
+
+    /**
+     * The number of bytes in the tail buffer.
+     */
+    size_t tail_size;
 } handler_proxy_context;
 
 ERROR_CODE create_proxy_handler(struct proxy_handler_t **proxy_handler_pointer, struct http_handler_t *http_handler);
-- 
2.43.0


From c491f6daa0a3b2a1dbee4dde4bb0110df3c66577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:30 +0000
Subject: [PATCH 64/75] fix: the client of the proxy is told that the backend
 has closed the connection

---
 src/viriatum/handlers/handler_proxy.c | 73 ++++++++++++++++++++++-----
 src/viriatum/handlers/handler_proxy.h |  7 +++
 2 files changed, 66 insertions(+), 14 deletions(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index f6717d3..53ff20f 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -102,6 +102,7 @@ ERROR_CODE create_handler_proxy_context(struct handler_proxy_context_t **handler
     handler_proxy_context->connection = NULL;
     handler_proxy_context->connection_c = NULL;
     handler_proxy_context->pending = FALSE;
+    handler_proxy_context->flushed = FALSE;
     handler_proxy_context->pending_write = 0;
     handler_proxy_context->field = FALSE;
     handler_proxy_context->out_field = FALSE;
@@ -463,6 +464,13 @@ ERROR_CODE message_complete_callback_handler_proxy(struct http_parser_t *http_pa
             (void *) (size_t) http_parser->flags
         );
     } else {
+        /* updates the current proxy context so that the pending flag is set
+        this means that the message to be sent to the proxy client is in the
+        middle of the processing, any connection dropped in this state should
+        also be noticed by the proxy client */
+        handler_proxy_context->pending = TRUE;
+        handler_proxy_context->flushed = FALSE;
+
         /* a chunked message is finished by an empty chunk */
         if(http_parser->flags & FLAG_CHUNKED) {
             write_proxy_buffer(handler_proxy_context, "0\r\n\r\n", 5);
@@ -591,12 +599,6 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
     parameters->on_close = close_backend_handler;
     parameters->parameters = (void *) handler_proxy_context;
 
-    /* updates the current proxy context so that the pending flag is set
-    this means that the message to be sent to the proxy client is in the
-    middle of the processing, any connection dropped in this state should
-    also drop the connection to the proxy client */
-    handler_proxy_context->pending = TRUE;
-
     /* sets the initial values for the number of bytes pending in the write
     buffer to be writen this value will be used to control the read stream
     of the backend server, in order to avoid flooding */
@@ -711,9 +713,12 @@ ERROR_CODE data_backend_handler(struct io_connection_t *io_connection, unsigned
         (struct custom_parameters_t *) connection->parameters;
 
     /* in case there're no custom parameters available for the current
-    backend connection, the connection is already disabled (but not closed)
-    and so the data operation should be ignored */
-    if(custom_parameters == NULL) { RAISE_NO_ERROR; }
+    backend connection there's no request waiting for this data and so
+    the connection may not be used any longer */
+    if(custom_parameters == NULL) {
+        connection->close_connection(connection);
+        RAISE_NO_ERROR;
+    }
 
     /* retrieves the current proxy context structure from the custom parameters
     to be used for the processing of the current data received from the backend */
@@ -782,6 +787,11 @@ ERROR_CODE close_backend_handler(struct io_connection_t *io_connection) {
     struct handler_proxy_context_t *handler_proxy_context;
     struct connection_t *connection_s;
     struct io_connection_t *io_connection_s;
+    struct http_connection_t *http_connection_s;
+
+    /* reserves space for the values used in the sending of an error */
+    char *buffer;
+    unsigned char flags;
 
     /* reserves space for both the top level HTTP handler structure and the
     concrete proxy handler structure containing the specifics of the proxy and
@@ -847,21 +857,55 @@ ERROR_CODE close_backend_handler(struct io_connection_t *io_connection) {
         processing operation uses it (it's no longer usable) */
         handler_proxy_context =\
             (struct handler_proxy_context_t *) custom_parameters->parameters;
-        handler_proxy_context->connection_c = NULL;
 
-        /* in case there's data currently pending then the final connection cleanup
-        operation has not been yet scheduled, so one must be scheduled to close
-        the service (proxy client) connection */
+        /* notifies the parser about the end of the data, as it may also
+        be the end of the response */
         if(handler_proxy_context->pending) {
+            process_data_http_parser(
+                handler_proxy_context->http_parser,
+                handler_proxy_context->http_settings,
+                NULL,
+                0
+            );
+        }
+
+        handler_proxy_context->connection_c = NULL;
+
+        /* in case the response is not complete the proxy client must be aware
+        of that, either by the sending of an error or, in case part of the
+        response has already been sent, by the closing of the connection */
+        if(handler_proxy_context->pending && handler_proxy_context->flushed) {
             write_connection_c(
-                connection,
+                connection_s,
                 (unsigned char *) "",
                 0,
                 _cleanup_handler_proxy,
                 NULL,
                 FALSE
             );
+        } else if(handler_proxy_context->pending) {
+            http_connection_s = (struct http_connection_t *) io_connection_s->lower;
+            flags = http_connection_s->http_parser->flags;
+            buffer = MALLOC(VIRIATUM_HTTP_SIZE);
+            write_http_error(
+                connection_s,
+                buffer,
+                VIRIATUM_HTTP_SIZE,
+                HTTP11,
+                502,
+                "Bad gateway",
+                "Invalid proxy response",
+                flags & FLAG_KEEP_ALIVE ? KEEP_ALIVE : KEEP_CLOSE,
+                _cleanup_handler_proxy,
+                (void *) (size_t) flags
+            );
         }
+        handler_proxy_context->pending = FALSE;
+
+        /* the parameters are released as no more operations are
+        going to be performed in the connection */
+        FREE(custom_parameters);
+        connection->parameters = NULL;
     }
 
     /* raises no error as the processing of the close opearion
@@ -978,6 +1022,7 @@ ERROR_CODE headers_complete_callback_backend(struct http_parser_t *http_parser)
     disables the read operations in the backend connection (avoids flooding) */
     handler_proxy_context->pending_write += handler_proxy_context->out_buffer_size;
     handler_proxy_context->out_buffer_size = 0;
+    if(http_parser->status_code / 100 != 1) { handler_proxy_context->flushed = TRUE; }
     if(connection_c != NULL && connection_c->read_registered == TRUE &&\
         handler_proxy_context->pending_write >= VIRIATUM_MAX_READ) {
         connection_c->unregister_read(connection_c);
diff --git a/src/viriatum/handlers/handler_proxy.h b/src/viriatum/handlers/handler_proxy.h
index 5e32a5c..dca6988 100644
--- a/src/viriatum/handlers/handler_proxy.h
+++ b/src/viriatum/handlers/handler_proxy.h
@@ -189,6 +189,13 @@ typedef struct handler_proxy_context_t {
      */
     char pending;
 
+    /**
+     * If the headers of the (final) response have already been written to
+     * the proxy client, from then on the only way of telling the client that
+     * the response is not complete is closing the connection.
+     */
+    char flushed;
+
     /**
      * The amount of bytes that are currently pending to be writen in the
      * client proxy from data comming from the backend server. This value
-- 
2.43.0


From d08aa67b3957b5c5acc5a5a6c00536e4a41a1684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:30 +0000
Subject: [PATCH 65/75] fix: a backend connection is only re-used for the
 location it was created for

---
 src/viriatum/handlers/handler_proxy.c | 35 +++++++++++++++++++++++++++
 src/viriatum/handlers/handler_proxy.h |  7 ++++++
 2 files changed, 42 insertions(+)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index 53ff20f..d7782f1 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -54,6 +54,10 @@ ERROR_CODE create_proxy_handler(struct proxy_handler_t **proxy_handler_pointer,
     it's possible to propagate the on close callback call */
     create_hash_map(&proxy_handler->on_close_map, 0);
 
+    /* creates the map that is going to be used to verify if a backend
+    connection may be re-used by another request */
+    create_hash_map(&proxy_handler->passes_map, 0);
+
     /* sets the proxy handler in the proxy handler pointer and returns
     the control flow to the caller function with no error */
     *proxy_handler_pointer = proxy_handler;
@@ -75,6 +79,7 @@ ERROR_CODE delete_proxy_handler(struct proxy_handler_t *proxy_handler) {
     with the proxy with the upper on close handler that has been replaced
     in order to provide the backend connection removal */
     delete_hash_map(proxy_handler->on_close_map);
+    delete_hash_map(proxy_handler->passes_map);
 
     /* releases the proxy handler, avoiding any memory leaks
     that may be raised from this main structure and then returns
@@ -533,6 +538,9 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
     struct custom_parameters_t *parameters;
     struct connection_t *connection_c;
 
+    /* allocates space for the pass of the existing backend connection */
+    char *proxy_pass;
+
     /* allocates space fot the temporary variable that will store the
     on close handler that will be set in the associative map */
     io_connection_callback on_close;
@@ -589,6 +597,23 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
         (void **) &handler_proxy_context->connection_c
     );
 
+    /* in case the existing connection has been created for other location with
+    a different backend it may not be used and must be closed (replaced) */
+    if(handler_proxy_context->connection_c != NULL) {
+        get_value_hash_map(
+            proxy_handler->passes_map,
+            (size_t) handler_proxy_context->connection_c,
+            NULL,
+            (void **) &proxy_pass
+        );
+        if(proxy_pass == NULL || handler_proxy_context->proxy_pass == NULL ||\
+            strcmp(proxy_pass, (char *) handler_proxy_context->proxy_pass) != 0) {
+            connection_c = handler_proxy_context->connection_c;
+            connection_c->close_connection(connection_c);
+            handler_proxy_context->connection_c = NULL;
+        }
+    }
+
     /* creates the parameters object that is going to be passed to
     the connection and used on the open operation to guide it's
     creation, this is a custom protocol connection so the proper
@@ -653,6 +678,15 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
             handler_proxy_context->connection_c
         );
 
+        /* associates the backend connection with the pass it has
+        been created for */
+        set_value_hash_map(
+            proxy_handler->passes_map,
+            (size_t) handler_proxy_context->connection_c,
+            NULL,
+            (void *) handler_proxy_context->proxy_pass
+        );
+
         /* sets the reverse connection map, associating the client
         (backend) connection with its own client proxy to be used
         in the backend operation callbacks */
@@ -846,6 +880,7 @@ ERROR_CODE close_backend_handler(struct io_connection_t *io_connection) {
     is the expected behavior because no more backend connections are available */
     set_value_hash_map(proxy_handler->connections_map, (size_t) connection_s, NULL, NULL);
     set_value_hash_map(proxy_handler->reverse_map, (size_t) connection, NULL, NULL);
+    set_value_hash_map(proxy_handler->passes_map, (size_t) connection, NULL, NULL);
     set_value_hash_map(proxy_handler->on_close_map, (size_t) connection_s, NULL, NULL);
 
     /* in case the custom parameters are set the connection is talking
diff --git a/src/viriatum/handlers/handler_proxy.h b/src/viriatum/handlers/handler_proxy.h
index dca6988..249b515 100644
--- a/src/viriatum/handlers/handler_proxy.h
+++ b/src/viriatum/handlers/handler_proxy.h
@@ -94,6 +94,13 @@ typedef struct proxy_handler_t {
      * is able to call the old on close handler.
      */
     struct hash_map_t *on_close_map;
+
+    /**
+     * Map that associates the backend connection with the pass (host) it
+     * has been created for, as a connection may only be re-used by the
+     * requests that are meant for the same pass.
+     */
+    struct hash_map_t *passes_map;
 } proxy_handler;
 
 /**
-- 
2.43.0


From ebf59b454f654744768bcdd0a3f24dce0031d1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:49 +0000
Subject: [PATCH 66/75] fix: the url of a proxied request always starts with a
 slash

---
 src/viriatum/handlers/handler_proxy.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index d7782f1..db80096 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -575,6 +575,7 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
     for writing (the virtual url may have any size) */
     write_proxy_buffer(handler_proxy_context, (char *) method, strlen(method));
     write_proxy_buffer(handler_proxy_context, " ", 1);
+    if(data_size == 0 || data[0] != '/') { write_proxy_buffer(handler_proxy_context, "/", 1); }
     write_proxy_buffer(handler_proxy_context, (char *) data, data_size);
     write_proxy_buffer(handler_proxy_context, " ", 1);
     write_proxy_buffer(handler_proxy_context, (char *) version, strlen(version));
-- 
2.43.0


From 34b435592303a7a01cafc5a12f9a85ac49f2eaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:49 +0000
Subject: [PATCH 67/75] fix: the version of a proxied request is the one of the
 request

---
 src/viriatum/handlers/handler_proxy.c | 24 ++++++++++++++----------
 src/viriatum/handlers/handler_proxy.h |  6 ++++++
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index db80096..3fb7995 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -101,6 +101,7 @@ ERROR_CODE create_handler_proxy_context(struct handler_proxy_context_t **handler
     handler_proxy_context->buffer = MALLOC(1024);
     handler_proxy_context->buffer_size = 0;
     handler_proxy_context->buffer_max_size = 1024;
+    handler_proxy_context->version_offset = 0;
     handler_proxy_context->out_buffer = MALLOC(1024);
     handler_proxy_context->out_buffer_size = 0;
     handler_proxy_context->out_buffer_max_size = 1024;
@@ -407,8 +408,18 @@ ERROR_CODE header_value_callback_handler_proxy(struct http_parser_t *http_parser
 }
 
 ERROR_CODE headers_complete_callback_handler_proxy(struct http_parser_t *http_parser) {
+    /* retrieves the string representation of the version of the request
+    as it's only known after the complete parsing of its first line */
+    const char *version = get_http_version_string(
+        get_http_version(http_parser->http_major, http_parser->http_minor)
+    );
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
+    memcpy(
+        &handler_proxy_context->buffer[handler_proxy_context->version_offset],
+        version,
+        strlen(version)
+    );
     write_proxy_buffer(handler_proxy_context, "\r\n", 2);
     RAISE_NO_ERROR;
 }
@@ -545,14 +556,7 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
     on close handler that will be set in the associative map */
     io_connection_callback on_close;
 
-    /* retrieves the enumeration representation of the version and then
-    uses it to retrieve the string value out of it, then retrieves the
-    proper HTTP method used in the current call */
-    enum http_version_e version_e = get_http_version(
-        http_parser->http_major,
-        http_parser->http_minor
-    );
-    const char *version = get_http_version_string(version_e);
+    /* retrieves the proper HTTP method used in the current call */
     const char *method = http_method_strings[http_parser->method - 1];
 
     /* retrieves the connection from the parser parameters and then uses
@@ -578,8 +582,8 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
     if(data_size == 0 || data[0] != '/') { write_proxy_buffer(handler_proxy_context, "/", 1); }
     write_proxy_buffer(handler_proxy_context, (char *) data, data_size);
     write_proxy_buffer(handler_proxy_context, " ", 1);
-    write_proxy_buffer(handler_proxy_context, (char *) version, strlen(version));
-    write_proxy_buffer(handler_proxy_context, "\r\n", 2);
+    handler_proxy_context->version_offset = handler_proxy_context->buffer_size;
+    write_proxy_buffer(handler_proxy_context, "HTTP/1.1\r\n", 10);
 
     /*@todo: can put here the extra headers to be sent to the backend */
     write_proxy_buffer(handler_proxy_context, "X-Viriatum-Proxy:1\r\n", 20);
diff --git a/src/viriatum/handlers/handler_proxy.h b/src/viriatum/handlers/handler_proxy.h
index 249b515..12616f8 100644
--- a/src/viriatum/handlers/handler_proxy.h
+++ b/src/viriatum/handlers/handler_proxy.h
@@ -142,6 +142,12 @@ typedef struct handler_proxy_context_t {
      */
     size_t buffer_max_size;
 
+    /**
+     * The position of the HTTP version in the buffer, the value of it is only
+     * known when the headers are complete.
+     */
+    size_t version_offset;
+
     /**
      * The buffer to be used to store the data that will be considered the
      * output and will be sent back to the client of the proxy.
-- 
2.43.0


From 4bafb2b7e8ec23eebd403657cbbb197cedaf5a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:00 +0000
Subject: [PATCH 68/75] fix: outstanding operations are not left waiting for
 the next event

---
 src/viriatum/polling/polling_epoll.c  | 10 ++++++++--
 src/viriatum/polling/polling_select.c |  8 ++++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/polling/polling_epoll.c b/src/viriatum/polling/polling_epoll.c
index 274c639..a5c2521 100644
--- a/src/viriatum/polling/polling_epoll.c
+++ b/src/viriatum/polling/polling_epoll.c
@@ -448,6 +448,12 @@ ERROR_CODE _poll_polling_epoll(
     int index;
     int event_count;
 
+    /* the wait must not block in case there are operations that
+    have been made outstanding by the outstanding ones, as no event
+    is going to be raised for them */
+    int outstanding = polling_epoll->read_outstanding_size > 0 ||\
+        polling_epoll->write_outstanding_size > 0;
+
     /* allocates space for the sets of signals that are going
     to be blocked outside the wait call and for the ones that
     were already blocked before it */
@@ -481,7 +487,7 @@ ERROR_CODE _poll_polling_epoll(
         polling_epoll->epoll_fd,
         events,
         VIRIATUM_MAX_EVENTS,
-        VIRIATUM_SELECT_TIMEOUT * 1000
+        outstanding ? 0 : VIRIATUM_SELECT_TIMEOUT * 1000
     );
 #else
     /* blocks the termination signals while the status of the service
@@ -497,7 +503,7 @@ ERROR_CODE _poll_polling_epoll(
         polling_epoll->epoll_fd,
         events,
         VIRIATUM_MAX_EVENTS,
-        -1,
+        outstanding ? 0 : -1,
         &previous
     ) : 0;
     sigprocmask(SIG_SETMASK, &previous, NULL);
diff --git a/src/viriatum/polling/polling_select.c b/src/viriatum/polling/polling_select.c
index 7d4f1d5..b32d34c 100644
--- a/src/viriatum/polling/polling_select.c
+++ b/src/viriatum/polling/polling_select.c
@@ -420,6 +420,14 @@ ERROR_CODE _poll_polling_select(
     /* copies the select timeout to the select timeout temporary */
     polling_select->select_timeout_temporary = polling_select->select_timeout;
 
+    /* the select must not block in case there are operations that
+    have been made outstanding by the outstanding ones */
+    if(polling_select->read_outstanding_size > 0 ||
+        polling_select->write_outstanding_size > 0) {
+        polling_select->select_timeout_temporary.tv_sec = 0;
+        polling_select->select_timeout_temporary.tv_usec = 0;
+    }
+
     /* prints a debug message */
     V_DEBUG("Entering select statement\n");
 
-- 
2.43.0


From 212c611c7fb5ecd2f1d622c73684ac7bc010b9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:41 +0000
Subject: [PATCH 69/75] fix: errors left by one encrypted connection no longer
 close the others

---
 src/viriatum/system/service.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/system/service.h b/src/viriatum/system/service.h
index cb8d0b2..9dbd546 100644
--- a/src/viriatum/system/service.h
+++ b/src/viriatum/system/service.h
@@ -42,10 +42,10 @@ struct http_handler_t;
 #ifdef VIRIATUM_SSL
 #define CONNECTION_SEND(connection, buffer, length, flags) connection->ssl_handle == NULL ? \
     SOCKET_SEND(connection->socket_handle, buffer, length, flags) :\
-    SSL_write(connection->ssl_handle, buffer, length)
+    (ERR_clear_error(), SSL_write(connection->ssl_handle, buffer, length))
 #define CONNECTION_RECEIVE(connection, buffer, length, flags) connection->ssl_handle == NULL ? \
     SOCKET_RECEIVE(connection->socket_handle, buffer, length, flags) :\
-    SSL_read(connection->ssl_handle, buffer, length)
+    (ERR_clear_error(), SSL_read(connection->ssl_handle, buffer, length))
 #define CONNECTION_GET_ERROR_CODE(connection, error_code) connection->ssl_handle == NULL ? \
     SOCKET_GET_ERROR_CODE(error_code) :\
     SSL_get_error(connection->ssl_handle, error_code)
-- 
2.43.0


From c42e94b4a65eda786de4802d803bf4990f59fa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:02 +0000
Subject: [PATCH 70/75] fix: more workers than the buffer of pids can hold are
 not created

---
 src/viriatum/system/service.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index e214bdd..482f741 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -373,6 +373,13 @@ ERROR_CODE create_workers(struct service_t *service) {
     unsigned char worker_count = service_options->workers;
     if(worker_count == 0) { RAISE_NO_ERROR; }
 
+    /* limits the number of workers to the size of the buffer that
+    holds their pids (the limit must also be used in the joining) */
+    if(worker_count > VIRIATUM_MAX_WORKERS) {
+        worker_count = VIRIATUM_MAX_WORKERS;
+        service_options->workers = worker_count;
+    }
+
     /* iterates continuously for the forking of the
     current process (worker creation) */
     while(TRUE) {
-- 
2.43.0


From 1f859e9c6dac7d473307f2d5d36305f852a7f01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:16 +0000
Subject: [PATCH 71/75] fix: the buffers of connections to be removed and
 outstanding grow with the connections

---
 src/viriatum/polling/polling_epoll.c | 78 ++++++++++++++++++++--------
 src/viriatum/polling/polling_epoll.h | 30 ++++++-----
 2 files changed, 75 insertions(+), 33 deletions(-)

diff --git a/src/viriatum/polling/polling_epoll.c b/src/viriatum/polling/polling_epoll.c
index a5c2521..18acce7 100644
--- a/src/viriatum/polling/polling_epoll.c
+++ b/src/viriatum/polling/polling_epoll.c
@@ -31,6 +31,23 @@
 
 #include "polling_epoll.h"
 
+static void _reserve_polling_epoll(
+    struct connection_t ***connections,
+    size_t *capacity,
+    size_t size
+) {
+    /* in case there's still space in the buffer for one more
+    connection there's nothing to be done */
+    if(size < *capacity) { return; }
+
+    /* doubles the space of the buffer (or creates it in case
+    it does not exist yet) */
+    *capacity = *capacity == 0 ? 64 : *capacity * 2;
+    *connections = (struct connection_t **) (*connections == NULL ?\
+        MALLOC(*capacity * sizeof(struct connection_t *)) :\
+        REALLOC(*connections, *capacity * sizeof(struct connection_t *)));
+}
+
 void create_polling_epoll(struct polling_epoll_t **polling_epoll_pointer, struct polling_t *polling) {
     /* retrieves the polling epoll size */
     size_t polling_epoll_size = sizeof(struct polling_epoll_t);
@@ -47,6 +64,12 @@ void create_polling_epoll(struct polling_epoll_t **polling_epoll_pointer, struct
     polling_epoll->remove_connections_size = 0;
     polling_epoll->read_outstanding_size = 0;
     polling_epoll->write_outstanding_size = 0;
+    polling_epoll->remove_connections = NULL;
+    polling_epoll->read_outstanding = NULL;
+    polling_epoll->write_outstanding = NULL;
+    polling_epoll->remove_connections_capacity = 0;
+    polling_epoll->read_outstanding_capacity = 0;
+    polling_epoll->write_outstanding_capacity = 0;
 
     /* resets the polling in the polling epoll */
     polling_epoll->polling = polling;
@@ -64,6 +87,11 @@ void delete_polling_epoll(struct polling_epoll_t *polling_epoll) {
     in order to avoid any memory leak problem */
     if(polling_epoll->epoll_fd) { close(polling_epoll->epoll_fd); }
 
+    /* releases the buffers of connections that have been created */
+    if(polling_epoll->remove_connections != NULL) { FREE(polling_epoll->remove_connections); }
+    if(polling_epoll->read_outstanding != NULL) { FREE(polling_epoll->read_outstanding); }
+    if(polling_epoll->write_outstanding != NULL) { FREE(polling_epoll->write_outstanding); }
+
     /* releases the polling epoll */
     FREE(polling_epoll);
 }
@@ -198,6 +226,11 @@ ERROR_CODE unregister_connection_polling_epoll(
     after the io driven logic part is processed (at the end
     of the logic loop) */
     if(remove_c == TRUE) {
+        _reserve_polling_epoll(
+            &polling_epoll->remove_connections,
+            &polling_epoll->remove_connections_capacity,
+            polling_epoll->remove_connections_size
+        );
         remove_connection(
             polling_epoll->remove_connections,
             &polling_epoll->remove_connections_size,
@@ -338,6 +371,11 @@ ERROR_CODE register_write_polling_epoll(struct polling_t *polling, struct connec
 
     /* sets the connection for the current outstanding position and
     then increments the size of the outstanding connection pending */
+    _reserve_polling_epoll(
+        &polling_epoll->write_outstanding,
+        &polling_epoll->write_outstanding_capacity,
+        polling_epoll->write_outstanding_size
+    );
     polling_epoll->write_outstanding[polling_epoll->write_outstanding_size] = connection;
     polling_epoll->write_outstanding_size++;
 
@@ -362,6 +400,11 @@ ERROR_CODE add_outstanding_polling_epoll(struct polling_t *polling, struct conne
 
     /* sets the connection for the current outstanding position and
     then increments the size of the outstanding connection pending */
+    _reserve_polling_epoll(
+        &polling_epoll->read_outstanding,
+        &polling_epoll->read_outstanding_capacity,
+        polling_epoll->read_outstanding_size
+    );
     polling_epoll->read_outstanding[polling_epoll->read_outstanding_size] = connection;
     polling_epoll->read_outstanding_size++;
 
@@ -386,8 +429,6 @@ ERROR_CODE poll_polling_epoll(struct polling_t *polling) {
         polling_epoll,
         polling_epoll->read_outstanding,
         polling_epoll->write_outstanding,
-        polling_epoll->_read_outstanding,
-        polling_epoll->_write_outstanding,
         polling_epoll->read_outstanding_size,
         polling_epoll->write_outstanding_size
     );
@@ -724,8 +765,6 @@ ERROR_CODE _outstanding_polling_epoll(
     struct polling_epoll_t *polling_epoll,
     struct connection_t **read_outstanding,
     struct connection_t **write_outstanding,
-    struct connection_t **_read_outstanding,
-    struct connection_t **_write_outstanding,
     size_t read_outstanding_size,
     size_t write_outstanding_size
 ) {
@@ -737,27 +776,20 @@ ERROR_CODE _outstanding_polling_epoll(
     that will hold the unpacked connection on iteration */
     struct connection_t *current_connection;
 
-    /* resets the current sizes associated with the outstanding
+    /* resets the current buffers associated with the outstanding
     events any new values coming from the event triggering will
     be set in a "fresh" set of outstanding buffers */
+    polling_epoll->read_outstanding = NULL;
+    polling_epoll->write_outstanding = NULL;
+    polling_epoll->read_outstanding_capacity = 0;
+    polling_epoll->write_outstanding_capacity = 0;
     polling_epoll->read_outstanding_size = 0;
     polling_epoll->write_outstanding_size = 0;
 
-    /* runs the initial backup operation of the read outstanding
-    operations to the extra buffer so that the outstanding operations
-    may themselves change the read outstanding buffers */
+    /* the connections with outstanding read operations may be made
+    outstanding again by the operations themselves */
     for(index = 0; index < read_outstanding_size; index++) {
-        current_connection = read_outstanding[index];
-        current_connection->is_outstanding = FALSE;
-        _read_outstanding[index] = current_connection;
-    }
-
-    /* runs the initial backup operation of the write outstanding
-    operations to the extra buffer so that the outstanding operation
-    may themselves change the write outstanding buffers */
-    for(index = 0; index < write_outstanding_size; index++) {
-        current_connection = write_outstanding[index];
-        _write_outstanding[index] = current_connection;
+        read_outstanding[index]->is_outstanding = FALSE;
     }
 
     /* prints a debug message */
@@ -772,7 +804,7 @@ ERROR_CODE _outstanding_polling_epoll(
     for(index = 0; index < read_outstanding_size; index++) {
         /* retrieves the current connection and then prints
         a debug message with the socket handle of the connection */
-        current_connection = _read_outstanding[index];
+        current_connection = read_outstanding[index];
         V_DEBUG_F(
             "Processing outstanding read connection: %d\n",
             current_connection->socket_handle
@@ -802,7 +834,7 @@ ERROR_CODE _outstanding_polling_epoll(
     for(index = 0; index < write_outstanding_size; index++) {
         /* retrieves the current connection and then prints
         a debug message with the socket handle of the connection */
-        current_connection = _write_outstanding[index];
+        current_connection = write_outstanding[index];
         V_DEBUG_F(
             "Processing outstanding write connection: %d\n",
             current_connection->socket_handle
@@ -820,6 +852,10 @@ ERROR_CODE _outstanding_polling_epoll(
         }
     }
 
+    /* releases the buffers that have been processed */
+    if(read_outstanding != NULL) { FREE(read_outstanding); }
+    if(write_outstanding != NULL) { FREE(write_outstanding); }
+
     /* raises no error as the process of the outstanding
     connection operations has been successfull */
     RAISE_NO_ERROR;
diff --git a/src/viriatum/polling/polling_epoll.h b/src/viriatum/polling/polling_epoll.h
index fc51160..8f1f45a 100644
--- a/src/viriatum/polling/polling_epoll.h
+++ b/src/viriatum/polling/polling_epoll.h
@@ -75,9 +75,11 @@ typedef struct polling_epoll_t {
     /**
      * The buffer thatn holds the connections
      * to be house-kept (removed) at the end
-     * of the polling cycle.
+     * of the polling cycle, it's not bounded by
+     * the events as all of the connections may
+     * be removed at once.
      */
-    struct connection_t *remove_connections[VIRIATUM_MAX_EVENTS];
+    struct connection_t **remove_connections;
 
     /**
      * The buffer that contains the various
@@ -85,7 +87,7 @@ typedef struct polling_epoll_t {
      * be read from the socket at the begining
      * of the next poll operation.
      */
-    struct connection_t *read_outstanding[VIRIATUM_MAX_EVENTS];
+    struct connection_t **read_outstanding;
 
     /**
      * The buffer that contains the various
@@ -93,19 +95,25 @@ typedef struct polling_epoll_t {
      * be writen to the socket at the begining
      * of the next poll operation.
      */
-    struct connection_t *write_outstanding[VIRIATUM_MAX_EVENTS];
+    struct connection_t **write_outstanding;
 
     /**
-     * Auxiliary buffer to be used in the performing
-     * of the outstaind read operations.
+     * The number of items for which there's space
+     * in the remove connections buffer.
      */
-    struct connection_t *_read_outstanding[VIRIATUM_MAX_EVENTS];
+    size_t remove_connections_capacity;
 
     /**
-     * Auxiliary buffer to be used in the performing
-     * of the outstaind write operations.
+     * The number of items for which there's space
+     * in the read outstanding buffer.
      */
-    struct connection_t *_write_outstanding[VIRIATUM_MAX_EVENTS];
+    size_t read_outstanding_capacity;
+
+    /**
+     * The number of items for which there's space
+     * in the write outstanding buffer.
+     */
+    size_t write_outstanding_capacity;
 
     /**
      * The size of the read connections
@@ -185,8 +193,6 @@ ERROR_CODE _outstanding_polling_epoll(
     struct polling_epoll_t *polling_epoll,
     struct connection_t **read_outstanding,
     struct connection_t **write_outstanding,
-    struct connection_t **_read_outstanding,
-    struct connection_t **_write_outstanding,
     size_t read_outstanding_size,
     size_t write_outstanding_size
 );
-- 
2.43.0


From afd99ac7329aba31baf007e8325010d7b7fd71a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:46 +0000
Subject: [PATCH 72/75] fix: connections that wait for descriptors are accepted
 when a connection is closed

---
 src/viriatum/stream/stream_io.c | 15 +++++++++++++++
 src/viriatum/system/service.c   | 29 +++++++++++++++++++++++++++++
 src/viriatum/system/service.h   | 19 +++++++++++++++++++
 3 files changed, 63 insertions(+)

diff --git a/src/viriatum/stream/stream_io.c b/src/viriatum/stream/stream_io.c
index 5c24df0..561bc52 100644
--- a/src/viriatum/stream/stream_io.c
+++ b/src/viriatum/stream/stream_io.c
@@ -97,6 +97,21 @@ ERROR_CODE accept_handler_stream_io(struct connection_t *connection) {
 
         /* in case there was an error accepting the socket */
         if(SOCKET_TEST_ERROR(socket_handle)) {
+            /* retrieves the (accepting) error code */
+            SOCKET_ERROR_CODE error_code = SOCKET_GET_ERROR_CODE(socket_handle);
+
+            /* in case it's only the connection that was waiting that is
+            already gone the ones behind it are still to be accepted */
+            if(error_code == ECONNABORTED || error_code == EINTR) { continue; }
+
+            /* in case there are no resources for one more connection the
+            ones that are waiting must be accepted as soon as one of the
+            current is closed, no other event will be raised for them */
+            if(error_code == EMFILE || error_code == ENFILE ||\
+                error_code == ENOBUFS || error_code == ENOMEM) {
+                delay_connection_service(connection->service, connection);
+            }
+
             /* breaks the loop, nothing to be handled not possible
             to accept the connection for now */
             break;
diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index 482f741..0e4c144 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -70,6 +70,7 @@ void create_service(struct service_t **service_pointer, unsigned char *name, uns
     be used for the internal working of the service */
     create_polling(&service->polling);
     create_linked_list(&service->connections_list);
+    create_linked_list(&service->delayed_list);
     create_linked_list(&service->modules_list);
     create_hash_map(&service->http_handlers_map, 0);
 
@@ -95,6 +96,7 @@ void delete_service(struct service_t *service) {
     delete_hash_map(service->http_handlers_map);
     delete_linked_list(service->modules_list);
     delete_linked_list(service->connections_list);
+    delete_linked_list(service->delayed_list);
     delete_polling(service->polling);
     delete_service_options(service->options);
 
@@ -1437,6 +1439,17 @@ ERROR_CODE remove_connection_service(struct service_t *service, struct connectio
     note that the connection will be removed at the loop end */
     polling->unregister_connection(polling, connection, TRUE);
     remove_value_linked_list(service->connections_list, connection, TRUE);
+    remove_value_linked_list(service->delayed_list, connection, TRUE);
+
+    /* raises no error */
+    RAISE_NO_ERROR;
+}
+
+ERROR_CODE delay_connection_service(struct service_t *service, struct connection_t *connection) {
+    /* adds the connection to the list of the delayed ones (once), it's
+    made outstanding again in the closing of a connection */
+    remove_value_linked_list(service->delayed_list, connection, TRUE);
+    append_value_linked_list(service->delayed_list, connection);
 
     /* raises no error */
     RAISE_NO_ERROR;
@@ -1729,6 +1742,10 @@ ERROR_CODE open_connection(struct connection_t *connection) {
 }
 
 ERROR_CODE close_connection(struct connection_t *connection) {
+    /* allocates space for the connections that are waiting for
+    resources to become available */
+    struct connection_t *delayed_connection;
+
     /* in case the connection is (already) closed, must return
     immediately with no error (duplicated operation) */
     if(connection->status == STATUS_CLOSED) { RAISE_NO_ERROR; }
@@ -1779,6 +1796,18 @@ ERROR_CODE close_connection(struct connection_t *connection) {
     SOCKET_CLOSE(connection->socket_handle);
     connection->status = STATUS_CLOSED;
 
+    /* there are resources now for the connections that have been
+    waiting for them to be accepted */
+    while(TRUE) {
+        pop_value_linked_list(
+            connection->service->delayed_list,
+            (void **) &delayed_connection,
+            TRUE
+        );
+        if(delayed_connection == NULL) { break; }
+        add_outstanding_connection(delayed_connection);
+    }
+
     /* raises no error */
     RAISE_NO_ERROR;
 }
diff --git a/src/viriatum/system/service.h b/src/viriatum/system/service.h
index 9dbd546..56f1114 100644
--- a/src/viriatum/system/service.h
+++ b/src/viriatum/system/service.h
@@ -455,6 +455,14 @@ typedef struct service_t {
      */
     struct linked_list_t *connections_list;
 
+    /**
+     * The list of (service) connections that had
+     * no resources to accept what is waiting in them,
+     * the accept is retried on the closing of a
+     * connection.
+     */
+    struct linked_list_t *delayed_list;
+
     /**
      * The list of modules available for the
      * service.
@@ -1280,6 +1288,17 @@ ERROR_CODE create_modules_label(struct service_t *service);
  */
 ERROR_CODE add_connection_service(struct service_t *service, struct connection_t *connection);
 
+/**
+ * Delays the accept operation of the given (service) connection
+ * until one of the current connections of the service is closed.
+ *
+ * @param service The service that owns the connection.
+ * @param connection The connection to have the accept operation
+ * delayed.
+ * @return The resulting error code.
+ */
+ERROR_CODE delay_connection_service(struct service_t *service, struct connection_t *connection);
+
 /**
  * Removes a connection from the given service.
  * Removing a connection implies the changing
-- 
2.43.0


From 3a39f2d281e244f2e032f549cb1911192c416519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:06 +0000
Subject: [PATCH 73/75] fix: the buffer of removed connections is released with
 them

---
 src/viriatum/polling/polling_epoll.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/polling/polling_epoll.c b/src/viriatum/polling/polling_epoll.c
index 18acce7..18d6b11 100644
--- a/src/viriatum/polling/polling_epoll.c
+++ b/src/viriatum/polling/polling_epoll.c
@@ -753,8 +753,11 @@ ERROR_CODE _call_polling_epoll(
         delete_connection(current_connection);
     }
 
-    /* resets the remove connections size to the default
-    zero value, no connections are removed by default */
+    /* resets the remove connections to the default empty
+    value, no connections are removed by default */
+    if(polling_epoll->remove_connections != NULL) { FREE(polling_epoll->remove_connections); }
+    polling_epoll->remove_connections = NULL;
+    polling_epoll->remove_connections_capacity = 0;
     polling_epoll->remove_connections_size = 0;
 
     /* raises no error */
-- 
2.43.0


From 95b54f18d4f03e7ba78b353e83443eaf4e6bf8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:00:11 +0000
Subject: [PATCH 74/75] fix: the message of a script error is not kept in the
 Lua stack

---
 modules/mod_lua/src/viriatum_mod_lua/module/handler.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/mod_lua/src/viriatum_mod_lua/module/handler.c b/modules/mod_lua/src/viriatum_mod_lua/module/handler.c
index e4a8f4d..0adb42b 100644
--- a/modules/mod_lua/src/viriatum_mod_lua/module/handler.c
+++ b/modules/mod_lua/src/viriatum_mod_lua/module/handler.c
@@ -248,6 +248,10 @@ ERROR_CODE _send_response_handler_lua(struct http_parser_t *http_parser) {
         char *error_message = (char *) lua_tostring(mod_lua_http_handler->lua_state, -1);
         _write_error_connection_lua(http_parser, error_message);
 
+        /* removes the error message from the stack, otherwise it would
+        be kept there (and never collected) as the state is not closed */
+        lua_pop(mod_lua_http_handler->lua_state, 1);
+
         /* sets the file reference as dirty, this will force the script file
         to be reload on next request */
         mod_lua_http_handler->file_dirty = 1;
-- 
2.43.0


From f4e0de8a9a25b3a1a806f9743fcc112058266158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:00:18 +0000
Subject: [PATCH 75/75] fix: scripts are answered with one complete response,
 whatever they write

---
 .../src/viriatum_mod_lua/module/handler.c     | 87 +++++++++++++++----
 .../src/viriatum_mod_lua/module/handler.h     | 11 +++
 2 files changed, 80 insertions(+), 18 deletions(-)

diff --git a/modules/mod_lua/src/viriatum_mod_lua/module/handler.c b/modules/mod_lua/src/viriatum_mod_lua/module/handler.c
index 0adb42b..fc5662d 100644
--- a/modules/mod_lua/src/viriatum_mod_lua/module/handler.c
+++ b/modules/mod_lua/src/viriatum_mod_lua/module/handler.c
@@ -41,6 +41,8 @@ ERROR_CODE create_mod_lua_http_handler(struct mod_lua_http_handler_t **mod_lua_h
     mod_lua_http_handler->lua_state = NULL;
     mod_lua_http_handler->file_path = NULL;
     mod_lua_http_handler->file_dirty = 0;
+    mod_lua_http_handler->data = NULL;
+    mod_lua_http_handler->data_size = 0;
 
     /* sets the mod Lua HTTP handler in the upper HTTP handler substrate */
     http_handler->lower = (void *) mod_lua_http_handler;
@@ -53,7 +55,9 @@ ERROR_CODE create_mod_lua_http_handler(struct mod_lua_http_handler_t **mod_lua_h
 }
 
 ERROR_CODE delete_mod_lua_http_handler(struct mod_lua_http_handler_t *mod_lua_http_handler) {
-    /* releases the mod Lua HTTP handler */
+    /* releases the data pending in the handler and then
+    the mod Lua HTTP handler */
+    if(mod_lua_http_handler->data != NULL) { FREE(mod_lua_http_handler->data); }
     FREE(mod_lua_http_handler);
 
     /* raises no error */
@@ -190,8 +194,10 @@ ERROR_CODE _send_response_handler_lua(struct http_parser_t *http_parser) {
     struct http_connection_t *http_connection = (struct http_connection_t *) ((struct io_connection_t *) connection->lower)->lower;
     struct mod_lua_http_handler_t *mod_lua_http_handler = (struct mod_lua_http_handler_t *) http_connection->http_handler->lower;
 
-    /* allocates space for the result code */
+    /* allocates space for the result code and for the reference
+    to the data written by the script */
     ERROR_CODE result_code;
+    unsigned char *data;
 
     /* acquires the lock on the HTTP connection, this will avoids further
     messages to be processed, no parallel request handling problems */
@@ -206,6 +212,12 @@ ERROR_CODE _send_response_handler_lua(struct http_parser_t *http_parser) {
         RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Problem accessing Lua state");
     }
 
+    /* discards the data that may have been written by a script that
+    has failed, only the data for the current request is sent */
+    if(mod_lua_http_handler->data != NULL) { FREE(mod_lua_http_handler->data); }
+    mod_lua_http_handler->data = NULL;
+    mod_lua_http_handler->data_size = 0;
+
     /* registers the current connection in Lua */
     lua_pushlightuserdata(mod_lua_http_handler->lua_state, (void *) http_parser);
     lua_setglobal(mod_lua_http_handler->lua_state, "connection");
@@ -262,6 +274,25 @@ ERROR_CODE _send_response_handler_lua(struct http_parser_t *http_parser) {
         RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Problem calling the handle method");
     }
 
+    /* in case the script has written no data there's no response to be
+    sent and so the request must be answered with an error */
+    if(mod_lua_http_handler->data_size == 0) {
+        _write_error_connection_lua(http_parser, "no response written by the script");
+        RAISE_NO_ERROR;
+    }
+
+    /* writes the complete response of the script to the connection, the
+    ownership of the data is passed to the connection */
+    data = mod_lua_http_handler->data;
+    mod_lua_http_handler->data = NULL;
+    connection->write_connection(
+        connection,
+        data,
+        (unsigned int) mod_lua_http_handler->data_size,
+        _send_response_callback_handler_lua,
+        (void *) (size_t) http_parser->flags
+    );
+
     /* raise no error */
     RAISE_NO_ERROR;
 }
@@ -338,14 +369,17 @@ int _lua_write_connection(lua_State *lua_state) {
     /* allocates the (final) buffer to send the message */
     unsigned char *buffer;
 
-    /* allocates the data size */
-    unsigned int data_size;
+    /* allocates the data size and the size of the string */
+    lua_Integer data_size;
+    size_t length;
 
     /* allocates the HTTP parser */
     struct http_parser_t *http_parser;
 
-    /* allocates the connection */
+    /* allocates the connection and the handler */
     struct connection_t *connection;
+    struct http_connection_t *http_connection;
+    struct mod_lua_http_handler_t *mod_lua_http_handler;
 
     /* retrieves the number of (received) arguments */
     unsigned int number_arguments = lua_gettop(lua_state);
@@ -391,7 +425,17 @@ int _lua_write_connection(lua_State *lua_state) {
     data_size = lua_tointeger(lua_state, -1);
 
     /* converts the second argument into a string */
-    data = lua_tostring(lua_state, -2);
+    data = lua_tolstring(lua_state, -2, &length);
+
+    /* verifies that the size does not go beyond the string */
+    if(data_size < 0 || (size_t) data_size > length) {
+        /* prints a warning message */
+        V_WARNING("Incorrect argument 'size out of range'\n");
+
+        /* pushes an error message to Lua */
+        lua_pushstring(lua_state, "Incorrect argument 'size out of range'");
+        lua_error(lua_state);
+    }
 
     /* converts the first argument into HTTP parser structure */
     http_parser = (struct http_parser_t *) lua_touserdata(lua_state, -3);
@@ -399,19 +443,26 @@ int _lua_write_connection(lua_State *lua_state) {
     /* retrieves the connection from the HTTP parser parameters */
     connection = (struct connection_t *) http_parser->parameters;
 
-    /* allocates the data buffer (in a safe maner) then
-    copies the data (from Lua) into the buffer */
-    connection->alloc_data(connection, data_size * sizeof(unsigned char), (void **) &buffer);
-    memcpy(buffer, data, data_size);
+    /* retrieves the handler for the request being processed, the data
+    is kept in it until the script ends */
+    http_connection = (struct http_connection_t *) ((struct io_connection_t *) connection->lower)->lower;
+    mod_lua_http_handler = (struct mod_lua_http_handler_t *) http_connection->http_handler->lower;
 
-    /* writes the response to the connection */
-    connection->write_connection(
-        connection,
-        buffer,
-        data_size,
-        _send_response_callback_handler_lua,
-        (void *) (size_t) http_parser->flags
-    );
+    /* in case there's no data to be written returns immediately */
+    if(data_size == 0) { return 0; }
+
+    /* allocates the data buffer (in a safe maner) then copies the data
+    already written and the new one (from Lua) into the buffer */
+    connection->alloc_data(connection, mod_lua_http_handler->data_size + (size_t) data_size, (void **) &buffer);
+    if(mod_lua_http_handler->data != NULL) {
+        memcpy(buffer, mod_lua_http_handler->data, mod_lua_http_handler->data_size);
+        FREE(mod_lua_http_handler->data);
+    }
+    memcpy(buffer + mod_lua_http_handler->data_size, data, (size_t) data_size);
+
+    /* updates the data pending in the handler */
+    mod_lua_http_handler->data = buffer;
+    mod_lua_http_handler->data_size += (size_t) data_size;
 
     /* return the number of results */
     return 0;
diff --git a/modules/mod_lua/src/viriatum_mod_lua/module/handler.h b/modules/mod_lua/src/viriatum_mod_lua/module/handler.h
index e9b22d6..5728f8c 100644
--- a/modules/mod_lua/src/viriatum_mod_lua/module/handler.h
+++ b/modules/mod_lua/src/viriatum_mod_lua/module/handler.h
@@ -54,6 +54,17 @@ typedef struct mod_lua_http_handler_t {
      * to be executed is currently dirty.
      */
     unsigned int file_dirty;
+
+    /**
+     * The data written so far by the script for
+     * the request currently being handled.
+     */
+    unsigned char *data;
+
+    /**
+     * The size of the data written so far.
+     */
+    size_t data_size;
 } mod_lua_http_handler;
 
 ERROR_CODE create_mod_lua_http_handler(struct mod_lua_http_handler_t **mod_lua_http_handler_pointer, struct http_handler_t *http_handler_pointer);
-- 
2.43.0

