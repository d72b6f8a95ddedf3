From b1e4e941e4d29f912ba2e8999cf05563c15f9d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:49 +0000
Subject: [PATCH 01/86] fix: md5sum wrote 129 bytes into its caller's buffer
 instead of the 33 of a digest

---
 string_utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/string_utils.c b/string_utils.c
index 1c220d7..897d1a7 100644
--- a/string_utils.c
+++ b/string_utils.c
@@ -125,8 +125,8 @@ void md5sum(char *out, char *data, int len)
   for (i = 0; i < EVP_MD_size(md); ++i)
     snprintf(&(md5[i * 2]), EVP_MAX_MD_SIZE * 2 + 1, "%02x", (unsigned int)digest[i]);
   
-  memcpy(out, md5, EVP_MAX_MD_SIZE * 2);
-  out[EVP_MAX_MD_SIZE * 2] = 0;
+  memcpy(out, md5, EVP_MD_size(md) * 2);
+  out[EVP_MD_size(md) * 2] = 0;
   free(md5);
 }
 
-- 
2.43.0


From 5ac1c4ef09a9e8a1c0e77f5dd964c1ee02e835d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:08 +0000
Subject: [PATCH 02/86] fix: split() used strtok's global state, so requests
 parsed at the same time corrupted each other

---
 string_utils.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/string_utils.c b/string_utils.c
index 897d1a7..8516a2a 100644
--- a/string_utils.c
+++ b/string_utils.c
@@ -173,14 +173,15 @@ str_list_t *split(char *str, char *delim)
   char *str_copy = strdup(str);
   int n_tokens = 0;
   str_list_t *result = malloc(sizeof(result) + (MAX_SPLIT_STR + 1) * MAX_SPLIT_STR_LEN);
-  char *token = strtok(str_copy, delim);
+  char *saveptr = NULL;
+  char *token = strtok_r(str_copy, delim, &saveptr);
 
   while (token != NULL)
   {
     result->strings[n_tokens] = malloc(MAX_SPLIT_STR_LEN);
     strncpy(result->strings[n_tokens], token, MAX_SPLIT_STR_LEN - 1);
 
-    token = strtok(NULL, delim);
+    token = strtok_r(NULL, delim, &saveptr);
     n_tokens++;
   }
 
-- 
2.43.0


From f80ee4246bf0ab13e4b8a5d0a39d6d51f61ea488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:09 +0000
Subject: [PATCH 03/86] fix: split() wrote past the list beyond 50 parts and
 left long parts unterminated

---
 string_utils.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/string_utils.c b/string_utils.c
index 8516a2a..7f1f227 100644
--- a/string_utils.c
+++ b/string_utils.c
@@ -176,9 +176,9 @@ str_list_t *split(char *str, char *delim)
   char *saveptr = NULL;
   char *token = strtok_r(str_copy, delim, &saveptr);
 
-  while (token != NULL)
+  while (token != NULL && n_tokens < MAX_SPLIT_STR)
   {
-    result->strings[n_tokens] = malloc(MAX_SPLIT_STR_LEN);
+    result->strings[n_tokens] = calloc(MAX_SPLIT_STR_LEN, 1);
     strncpy(result->strings[n_tokens], token, MAX_SPLIT_STR_LEN - 1);
 
     token = strtok_r(NULL, delim, &saveptr);
@@ -186,7 +186,6 @@ str_list_t *split(char *str, char *delim)
   }
 
   result->n_str = n_tokens;
-  free(token);
   free(str_copy);
   return result;
 }
-- 
2.43.0


From 4103ab0374dd34d2b53e3a85c101009dc2dcc9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:09 +0000
Subject: [PATCH 04/86] fix: split_once() ignored its delimiter and left long
 parts unterminated

---
 string_utils.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/string_utils.c b/string_utils.c
index 7f1f227..ed0c3ce 100644
--- a/string_utils.c
+++ b/string_utils.c
@@ -194,15 +194,15 @@ str_list_t *split_once(char *str, char *delim)
 {
 
   str_list_t *result = malloc(sizeof(result) + (2 + 1) * MAX_SPLIT_STR_LEN);
-  result->strings[0] = malloc(MAX_SPLIT_STR_LEN);
-  char *first = rtrim(str, ':');
+  result->strings[0] = calloc(MAX_SPLIT_STR_LEN, 1);
+  char *first = rtrim(str, delim[0]);
   trim(first);
   strncpy(result->strings[0], first, MAX_SPLIT_STR_LEN - 1);
-  char *second = ltrim(str, ':');
+  char *second = ltrim(str, delim[0]);
   if (strlen(second) < strlen(str))
   {
     trim(second);
-    result->strings[1] = malloc(MAX_SPLIT_STR_LEN);
+    result->strings[1] = calloc(MAX_SPLIT_STR_LEN, 1);
     strncpy(result->strings[1], second, MAX_SPLIT_STR_LEN - 1);
     result->n_str = 2;
   }
-- 
2.43.0


From 6afe651fd247866498ff04aa33b1f68521d5794c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:10 +0000
Subject: [PATCH 05/86] fix: join() crashed on a missing last entry and
 returned a constant its callers free

---
 json_utils.c   |  3 +--
 string_utils.c | 11 +++++------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/json_utils.c b/json_utils.c
index ac3bed7..c2b4475 100644
--- a/json_utils.c
+++ b/json_utils.c
@@ -74,8 +74,7 @@ char *json_array_of_entities(json_list_t list)
   strcat(json, joined_str);
   strcat(json, JSON_ARRAY_END);
   
-  if (joined_str && *joined_str!='\0')
-    free(joined_str);
+  free(joined_str);
  
   for (int i = 0; i < list.size; i++)
   {
diff --git a/string_utils.c b/string_utils.c
index ed0c3ce..e9dfd7a 100644
--- a/string_utils.c
+++ b/string_utils.c
@@ -137,7 +137,7 @@ char *join(char **array, int size, char *delim)
 {
   if (array == NULL || size <= 0 || array[0] == NULL)
   {
-    return "";
+    return strdup("");
   }
   if (size == 1)
   {
@@ -152,19 +152,18 @@ char *join(char **array, int size, char *delim)
   str_len += size * strlen(delim) + 1;
   char *joined_str = calloc(str_len, sizeof(char));
   char *tmp;
-  for (int i = 0; i < size - 1; i++)
+  for (int i = 0; i < size; i++)
   {
     if (array[i] != NULL)
     {
+      // array[0] is never NULL here, so it needs no delimiter before it.
+      if (i > 0)
+        strcat(joined_str, delim);
       tmp = strdup(array[i]);
       strcat(joined_str, tmp);
       free(tmp);
-      strcat(joined_str, delim);
     }
   }
-  tmp = strdup(array[size - 1]);
-  strcat(joined_str, tmp);
-  free(tmp);
   return joined_str;
 }
 
-- 
2.43.0


From 4ad8696d272201ddaae35fa9f7cef3ba1297ff80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:37 +0000
Subject: [PATCH 06/86] fix: text_find_after() read past the end of the
 searched bytes

---
 string_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string_utils.c b/string_utils.c
index e9dfd7a..44e164f 100644
--- a/string_utils.c
+++ b/string_utils.c
@@ -262,7 +262,7 @@ long text_find_after(char *haystack, char *needle, long start, long bytes)
 {
 
   int l = strlen(needle);
-  for (long i = start; i < bytes; i++)
+  for (long i = start; i < bytes && i + l <= bytes; i++)
   {
     bool found = true;
     for (int b = 0; b < l; b++)
-- 
2.43.0


From c2cb87dc6693816a4ae86a961301c4c093859004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:38 +0000
Subject: [PATCH 07/86] fix: chop_string() cut names at any non-ASCII character

---
 string_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string_utils.c b/string_utils.c
index 44e164f..2a03600 100644
--- a/string_utils.c
+++ b/string_utils.c
@@ -30,7 +30,7 @@ void chop_string(char *data)
   int len = strlen(data);
   for (int i = 0; i < len; i++)
   {
-    if (data[i] <= 34)
+    if ((unsigned char)data[i] <= 34)
     {
       data[i] = 0;
       break;
-- 
2.43.0


From 5fa285e57be8381a58e86372ae92e352c45e5d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:39 +0000
Subject: [PATCH 08/86] fix: URLs without a path crashed the server and query
 strings were cut at a second question mark

---
 http_utils.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index f848dd7..2894d2d 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -452,20 +452,20 @@ path_and_query_t *get_path_and_query_string(char *url)
 
 	path_and_query_t *result = malloc(sizeof(path_and_query_t));
 
-	str_list_t *list = split(url, "?");
+	char *mark = strchr(url, '?');
 
-	result->path = strdup(list->strings[0]);
-
-	if (list->n_str > 1)
+	if (mark)
 	{
-		result->query = strdup(list->strings[1]);
+		result->path = strndup(url, mark - url);
+		// free_path_and_query_t does not free an empty query
+		result->query = mark[1] ? strdup(mark + 1) : "";
 	}
 	else
 	{
+		result->path = strdup(url);
 		result->query = "";
 	}
 
-	free_str_list_t(list);
 	return result;
 }
 
-- 
2.43.0


From 969167ebe4a9e0432014139b541b0e7449be2fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:40 +0000
Subject: [PATCH 09/86] fix: static responses repeated their status line and
 server header

---
 http_utils.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index 2894d2d..b1b34d1 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -89,8 +89,6 @@ int return_headers(api_request *req, char *filename)
 	int len = 0;
 	char buf[1024];
 	sprintf(buf, "%s%s", HTTP_OK_START, WAYUU_HTTP_SERVER_STRING);
-	len += strlen(buf);
-	http_print(req, buf, len);
 	char *content_type = get_content_type(filename);
 	strcat(buf, content_type);
 	free(content_type);
-- 
2.43.0


From b8a151ce921e768be557eaf6e117d887849294bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:40 +0000
Subject: [PATCH 10/86] fix: CSV, YAML and unknown files got each other's
 content types

---
 http_utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index b1b34d1..98be65a 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -129,7 +129,7 @@ char *get_content_type(char *filename)
 		sprintf(buf, CONTENT_TYPE_ICON);
 	else if (strcmp(ext, ".txt") == 0)
 		sprintf(buf, CONTENT_TYPE_TEXT_PLAIN);
-	else if (strcmp(ext, ".csv"))
+	else if (strcmp(ext, ".csv") == 0)
 		sprintf(buf, CONTENT_TYPE_TEXT_CSV);
 	else if (strcmp(ext, ".yaml") == 0)
 	{
@@ -157,7 +157,7 @@ char *get_content_type_for_mime(char *mime)
 		sprintf(buf, CONTENT_TYPE_CSS);
 	else if (strcmp(mime, "text/plain") == 0)
 		sprintf(buf, CONTENT_TYPE_TEXT_PLAIN);
-	else if (strcmp(mime, "text/csv"))
+	else if (strcmp(mime, "text/csv") == 0)
 		sprintf(buf, CONTENT_TYPE_TEXT_CSV);
 	else if (strcmp(mime, "text/yaml") == 0)
 	{
-- 
2.43.0


From ece82561b8ff3d2f40a1ae0aa47204877ffab8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:41 +0000
Subject: [PATCH 11/86] fix: return_headers_with_mime() leaked the content type

---
 http_utils.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/http_utils.c b/http_utils.c
index 98be65a..b043133 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -311,7 +311,9 @@ int return_headers_with_mime(api_request *req, int status, char *mime)
 	}
 	char buf[1024];
 
-	sprintf(buf, "%s%s%s%s", HTTP_ERROR_STARTS[error_index], WAYUU_HTTP_SERVER_STRING, HTTP_ACCESS_CONTROL, get_content_type_for_mime(mime));
+	char *content_type = get_content_type_for_mime(mime);
+	sprintf(buf, "%s%s%s%s", HTTP_ERROR_STARTS[error_index], WAYUU_HTTP_SERVER_STRING, HTTP_ACCESS_CONTROL, content_type);
+	free(content_type);
 	http_print(req, buf, strlen(buf));
 	return strlen(buf);
 }
-- 
2.43.0


From 59665e66c0d41b215eeecee7e99e0c44139a3dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:42 +0000
Subject: [PATCH 12/86] fix: send_http_status() overflowed its buffer with a
 long message

---
 http_utils.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/http_utils.c b/http_utils.c
index b043133..aa781f6 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -429,7 +429,6 @@ void send_http_status(api_request *req, int status, char *message)
 		char contentLength[100];
 		sprintf(contentLength, "Content-Length: %zu%s%s", strlen(message) + 2, CRLF, CRLF);
 		strcat(buf, contentLength);
-		strcat(buf, message);
 	}
 	else
 	{
@@ -437,6 +436,11 @@ void send_http_status(api_request *req, int status, char *message)
 	}
 	http_print_str(req, buf);
 	req->response_length += strlen(buf);
+	if (strcmp("", message))
+	{
+		http_print_str(req, message);
+		req->response_length += strlen(message);
+	}
 	strcpy(buf, "\r\n");
 	http_print_str(req, buf);
 	req->response_length += strlen(buf);
-- 
2.43.0


From 8d27865a732da4abbb53d3bc12bc41dd0e4898d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:43 +0000
Subject: [PATCH 13/86] fix: new_error_with_values() overflowed its fields with
 a long code or message

---
 http_utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index aa781f6..de38a35 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -504,8 +504,8 @@ char *wayuu_error_t_json_serializer(wayuu_error_t *error)
 wayuu_error_t *new_error_with_values(char *code, char *message)
 {
 	wayuu_error_t *error = malloc(sizeof(wayuu_error_t));
-	strcpy(error->code, code);
-	strcpy(error->message, message);
+	snprintf(error->code, sizeof(error->code), "%s", code);
+	snprintf(error->message, sizeof(error->message), "%s", message);
 	return error;
 }
 
-- 
2.43.0


From 5055cd4a2ae332d4acfc8ba2f2af63b6c9f3b59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:43 +0000
Subject: [PATCH 14/86] fix: return_response() used and freed uninitialised
 pointers

---
 http_utils.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index de38a35..288abfa 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -536,10 +536,10 @@ char *http_get_header(api_request *req, char *name)
 char *return_response(call_response_t rsp)
 {
 	char *aux;
-	char *aux_err;
-	char *aux_txt;
-	char *aux_additional_info;
-	char *aux_description;
+	char *aux_err = NULL;
+	char *aux_txt = NULL;
+	char *aux_additional_info = NULL;
+	char *aux_description = NULL;
 
 	if (rsp.status == -1)
 		asprintf(&aux_err, "\"RSP\":\"FAIL\"");
-- 
2.43.0


From 107faa26223c7a31afabd8e3706b5876f0fc1d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:14 +0000
Subject: [PATCH 15/86] fix: JSON strings were emitted unescaped, and missing
 values crashed

---
 http_utils.c | 12 +++++++--
 json_utils.c | 73 +++++++++++++++++++++++++++++++++++++++++++---------
 json_utils.h |  5 ++++
 3 files changed, 76 insertions(+), 14 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index 288abfa..b5e4b62 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -550,9 +550,17 @@ char *return_response(call_response_t rsp)
 	if (rsp.status == 2)
 		asprintf(&aux_err, "\"RSP\":\"WARNING\"");
 	if (strlen(rsp.text))
-		asprintf(&aux_txt, ", \"info\":\"%s\"", rsp.text);
+	{
+		char *text_json = json_escape(rsp.text);
+		asprintf(&aux_txt, ", \"info\":\"%s\"", text_json);
+		free(text_json);
+	}
 	if (strlen(rsp.description))
-		asprintf(&aux_description, ", \"description\":\"%s\"", rsp.description);
+	{
+		char *description_json = json_escape(rsp.description);
+		asprintf(&aux_description, ", \"description\":\"%s\"", description_json);
+		free(description_json);
+	}
 
 	if (rsp.additional_info != NULL)
 		asprintf(&aux_additional_info, ",\"data\":%s", rsp.additional_info);
diff --git a/json_utils.c b/json_utils.c
index c2b4475..f0526d3 100644
--- a/json_utils.c
+++ b/json_utils.c
@@ -30,26 +30,65 @@
 #define MAX_SINGLE_JSON_ENTITY_STR_LEN 512
 #define MAX_INT_STRING_LEN 32
 
+char *json_escape(const char *str)
+{
+  // The longest escape sequence of a character is \u00XX
+  char *out = malloc(strlen(str) * 6 + 1);
+  char *ptr = out;
+  for (; *str; str++)
+  {
+    unsigned char c = *str;
+    if (c == '"' || c == '\\')
+    {
+      *ptr++ = '\\';
+      *ptr++ = c;
+    }
+    else if (c < 32)
+      ptr += sprintf(ptr, "\\u%04x", c);
+    else
+      *ptr++ = c;
+  }
+  *ptr = 0;
+  return out;
+}
+
 char *json_array_of_strings(char **array, int size)
 {
   if (array == NULL || size < 1)
   {
     return strdup("[]");
   }
-  // calculate size of string
-  int string_size = strlen(JSON_ARRAY_STR_BEGIN) + strlen(JSON_ARRAY_STR_END) + size * strlen(JSON_ARRAY_STR_SEP) + 2;
+  // escape the strings, leaving out the missing ones
+  char **escaped = calloc(size, sizeof(char *));
+  int n_strings = 0;
   for (int i = 0; i < size; i++)
   {
     if (array[i] != NULL)
-      string_size += strlen(array[i]);
+      escaped[n_strings++] = json_escape(array[i]);
+  }
+  if (n_strings == 0)
+  {
+    free(escaped);
+    return strdup("[]");
+  }
+  // calculate size of string
+  int string_size = strlen(JSON_ARRAY_STR_BEGIN) + strlen(JSON_ARRAY_STR_END) + n_strings * strlen(JSON_ARRAY_STR_SEP) + 2;
+  for (int i = 0; i < n_strings; i++)
+  {
+    string_size += strlen(escaped[i]);
   }
 
   char *json = calloc(string_size, sizeof(char));
   strcpy(json, JSON_ARRAY_STR_BEGIN);
-  char *joined_str = join(array, size, JSON_ARRAY_STR_SEP);
+  char *joined_str = join(escaped, n_strings, JSON_ARRAY_STR_SEP);
   strcat(json, joined_str);
   strcat(json, JSON_ARRAY_STR_END);
   free(joined_str);
+  for (int i = 0; i < n_strings; i++)
+  {
+    free(escaped[i]);
+  }
+  free(escaped);
   return json;
 }
 
@@ -86,29 +125,39 @@ char *json_array_of_entities(json_list_t list)
 
 char *json_key_value(char *key, char *value)
 {
-  char *json = calloc(1, strlen(key) + strlen(value) + 15);
-  sprintf(json, "\"%s\":\"%s\"", key, value? value : "");
+  char *key_json = json_escape(key);
+  char *value_json = json_escape(value ? value : "");
+  char *json = calloc(1, strlen(key_json) + strlen(value_json) + 15);
+  sprintf(json, "\"%s\":\"%s\"", key_json, value_json);
+  free(key_json);
+  free(value_json);
   return json;
 }
 
 char *json_key_value_int(char *key, int value)
 {
-  char *json = calloc(1, strlen(key) + MAX_INT_STR + 15);
-  sprintf(json, "\"%s\":%d", key, value);
+  char *key_json = json_escape(key);
+  char *json = calloc(1, strlen(key_json) + MAX_INT_STR + 15);
+  sprintf(json, "\"%s\":%d", key_json, value);
+  free(key_json);
   return json;
 }
 
 char *json_key_value_bool(char *key, bool value)
 {
-  char *json = calloc(1, strlen(key) + MAX_INT_STR + 15);
-  sprintf(json, "\"%s\":%s", key, value ? "true": "false");
+  char *key_json = json_escape(key);
+  char *json = calloc(1, strlen(key_json) + MAX_INT_STR + 15);
+  sprintf(json, "\"%s\":%s", key_json, value ? "true": "false");
+  free(key_json);
   return json;
 }
 
 char *json_key_value_uint32_t(char *key, uint32_t value)
 {
-  char *json = calloc(1, strlen(key) + MAX_INT_STR + 15);
-  sprintf(json, "\"%s\":%u", key, value);
+  char *key_json = json_escape(key);
+  char *json = calloc(1, strlen(key_json) + MAX_INT_STR + 15);
+  sprintf(json, "\"%s\":%u", key_json, value);
+  free(key_json);
   return json;
 }
 
diff --git a/json_utils.h b/json_utils.h
index 04aac8a..e396f01 100644
--- a/json_utils.h
+++ b/json_utils.h
@@ -40,6 +40,11 @@ typedef struct json_list_t
   void **elements;
 } json_list_t;
 
+/**
+ * json_escape: Returns a dynamically allocated copy of str, escaped for use inside a JSON string.
+ */
+char *json_escape(const char *str);
+
 /**
  * json_array_of_strings: Returns a dynamically allocated string containing the JSON representation of an array of strings.
  */
-- 
2.43.0


From 1f2f5e3b2582ab215c6441b7c85e6c04474660bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:30 +0000
Subject: [PATCH 16/86] fix: allow and deny lists matched parts of addresses
 and overflowed beyond 8 KB

---
 file_utils.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/file_utils.c b/file_utils.c
index 69393a7..286bb98 100644
--- a/file_utils.c
+++ b/file_utils.c
@@ -21,6 +21,7 @@
 #include <sys/stat.h>
 #include "log.h"
 #include "file_utils.h"
+#include "string_utils.h"
 
 bool find_in_file(char *path, char *needle)
 {
@@ -32,13 +33,20 @@ bool find_in_file(char *path, char *needle)
 
   bool result = false;
 
-  char *haystack = calloc(8192, 1);
-  read_file(haystack, path, 0);
-
-  if (strstr(haystack, needle))
-    result = true;
-
-  free(haystack);
+  FILE *file = fopen(path, "rb");
+  if (file)
+  {
+    char *line = NULL;
+    size_t len = 0;
+    while (!result && getline(&line, &len, file) != -1)
+    {
+      trim(line);
+      if (!strcmp(line, needle))
+        result = true;
+    }
+    free(line);
+    fclose(file);
+  }
   return result;
 }
 
-- 
2.43.0


From b31606819c6494346092aed11ebd99cf7a43e5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:31 +0000
Subject: [PATCH 17/86] fix: write_file() read past the end of binary data to
 log its length

---
 file_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file_utils.c b/file_utils.c
index 286bb98..8abdd0a 100644
--- a/file_utils.c
+++ b/file_utils.c
@@ -114,7 +114,7 @@ void read_file(char *out, char *path, uint64_t maxlen)
 
 void write_file(char *filename, char *ptr, int size)
 {
-  log_debug("write_file(filename=%s, strlen(ptr)=%d, size=%d)", filename, strlen(ptr), size);
+  log_debug("write_file(filename=%s, size=%d)", filename, size);
   if (is_file(filename))
   {
     remove(filename);
-- 
2.43.0


From 7d8a33bb86218ee7e31222e14e7a027d0bfbd0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:43 +0000
Subject: [PATCH 18/86] fix: parameter routes matched anywhere in the request
 instead of at its start

---
 router.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router.c b/router.c
index 15d5bed..6a94c7b 100644
--- a/router.c
+++ b/router.c
@@ -132,7 +132,7 @@ void router_handle_request(api_request *request)
       filter = routing_table.filters[i];
       break;
     }
-    else if (type == MATCHER_TYPE_PARAM && strstr(matcher, template) != NULL && strcmp(template, matcher) != 0)
+    else if (type == MATCHER_TYPE_PARAM && strncmp(matcher, template, strlen(template)) == 0 && strcmp(template, matcher) != 0)
     {
       char *qs = router_extract_param(matcher, routing_table.matchers[i]);
       if (strlen(request->form) == 0)
-- 
2.43.0


From 6ba980e7a4446599b85632fa514d970148147dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:44 +0000
Subject: [PATCH 19/86] fix: long methods and paths overflowed the router's
 matching buffer

---
 router.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router.c b/router.c
index 6a94c7b..583620d 100644
--- a/router.c
+++ b/router.c
@@ -117,7 +117,7 @@ void router_handle_request(api_request *request)
   request_handler handler = NULL;
   request_filter filter = NULL;
 
-  char matcher[255];
+  char matcher[strlen(request->method) + strlen(request->path) + 2];
 
   // Match method:path
   sprintf(matcher, "%s:%s", request->method, request->path);
-- 
2.43.0


From f512c79fda740ab9713d71fe6cd9be70bc559902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:45 +0000
Subject: [PATCH 20/86] fix: appending a path parameter overflowed the request
 body buffer

---
 router.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/router.c b/router.c
index 583620d..4b2a955 100644
--- a/router.c
+++ b/router.c
@@ -141,10 +141,9 @@ void router_handle_request(api_request *request)
       }
       else
       {
-        char *param;
-        asprintf(&param, "&%s", qs);
-        strcat(request->form, param);
-        free(param);
+        char *form = request->form;
+        asprintf(&request->form, "%s&%s", form, qs);
+        free(form);
       }
       free(qs);
       handler = routing_table.handlers[i];
-- 
2.43.0


From 5bfb9fda34eb8d39d8a301928bce8e35643db3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:46 +0000
Subject: [PATCH 21/86] fix: registering too many or too long routes overflowed
 the routing table

---
 router.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/router.c b/router.c
index 4b2a955..58ab5b8 100644
--- a/router.c
+++ b/router.c
@@ -93,6 +93,17 @@ void router_add_route(char *template, request_handler handler, request_filter fi
 {
 
   log_debug("ADD ROUTE - %s", template);
+  if (routing_table.n_routes >= MAX_ROUTES)
+  {
+    log_error("Route ignored, MAX_ROUTES reached: %s", template);
+    return;
+  }
+  char *param = strchr(template, '{');
+  if (strlen(template) >= MAX_ROUTE_PATH || (param && strlen(param) >= MAX_PARAM_LENGTH + 2))
+  {
+    log_error("Route ignored, too long: %s", template);
+    return;
+  }
   route_matcher *matcher = calloc(1, sizeof(route_matcher));
   if (strchr(template, '{') != NULL)
   {
-- 
2.43.0


From 38a04cddf52015dee60efe73edd5b63ddd3b18d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:05 +0000
Subject: [PATCH 22/86] fix: extracting a parameter with a long name overflowed
 the result

---
 router.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router.c b/router.c
index 58ab5b8..ff4e45f 100644
--- a/router.c
+++ b/router.c
@@ -83,7 +83,7 @@ char *router_extract_param(const char *path, route_matcher *matcher)
   log_debug("router_extract_param(path=%s,prefix=%s,param=%s)", path, matcher->prefix, matcher->param);
   char *tmp = strdup(path);
   int prefix_len = strlen(matcher->prefix);
-  char *qs = calloc(1, strlen(tmp) + prefix_len + 10);
+  char *qs = calloc(1, strlen(tmp) + strlen(matcher->param) + 10);
   sprintf(qs, "%s=%s", matcher->param, tmp + prefix_len);
   free(tmp);
   return qs;
-- 
2.43.0


From f10545bfffd802913d1b43c15f00acc008711bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:06 +0000
Subject: [PATCH 23/86] fix: route templates were cut at a non-ASCII character

---
 router.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router.c b/router.c
index ff4e45f..74cfe96 100644
--- a/router.c
+++ b/router.c
@@ -66,7 +66,7 @@ void router_resolve_route(const char *template, route_matcher *matcher)
   tmp[strlen(template) - 1] = 0;
   char *prefix = tmp;
   int index = 0;
-  while (*tmp > 0 && *tmp != '{')
+  while (*tmp != 0 && *tmp != '{')
   {
     tmp++;
     index++;
-- 
2.43.0


From 6cfae778a36c9a64742f886bc50200583bcd1b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:07 +0000
Subject: [PATCH 24/86] fix: log timestamps shared libc's static buffer between
 threads

---
 log.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/log.c b/log.c
index 5a8bbdc..4d6d8b8 100644
--- a/log.c
+++ b/log.c
@@ -42,8 +42,9 @@ char *format_timestamp()
   // Always use UTC time
   char *out = malloc(64);
   time_t t = time(NULL);
-  struct tm *utc = gmtime(&t);
-  strftime(out, 64, "%d-%m-%y %H:%M:%S", utc);
+  struct tm utc;
+  gmtime_r(&t, &utc);
+  strftime(out, 64, "%d-%m-%y %H:%M:%S", &utc);
   return out;
 }
 
@@ -55,8 +56,9 @@ char *format_ts_common_log()
   //%d/%b/%Y:%H:%M:%S %z
   char *out = malloc(64);
   time_t t = time(NULL);
-  struct tm *utc = gmtime(&t);
-  strftime(out, 64, "%d/%b/%Y:%H:%M:%S %z", utc);
+  struct tm utc;
+  gmtime_r(&t, &utc);
+  strftime(out, 64, "%d/%b/%Y:%H:%M:%S %z", &utc);
   return out;
 }
 
-- 
2.43.0


From dbeaa59f999031537558a943e4c5b000f01c0600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:07 +0000
Subject: [PATCH 25/86] fix: concurrent log records were interleaved, and
 threads raced to set the default log file

---
 log.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/log.c b/log.c
index 4d6d8b8..f6c4dde 100644
--- a/log.c
+++ b/log.c
@@ -69,21 +69,20 @@ void __logger(int level, const char *file, int line, const char *func, const cha
     return;
   }
 
-  if (LOG_FILE == NULL)
-  {
-    LOG_FILE = stderr;
-  }
+  FILE *log_file = LOG_FILE == NULL ? stderr : LOG_FILE;
 
   char *buf = format_timestamp();
   va_list args;
 
   // II. Format log
-  fprintf(LOG_FILE, "%s %lu %-5s %s:%s:%d: ", buf, pthread_self(), level_names[level], file, func, line);
+  flockfile(log_file);
+  fprintf(log_file, "%s %lu %-5s %s:%s:%d: ", buf, pthread_self(), level_names[level], file, func, line);
   va_start(args, format);
-  vfprintf(LOG_FILE, format, args);
+  vfprintf(log_file, format, args);
   va_end(args);
-  fprintf(LOG_FILE, "\n");
-  fflush(LOG_FILE);
+  fprintf(log_file, "\n");
+  fflush(log_file);
+  funlockfile(log_file);
   free(buf);
 
   // Exit with error if log level is FATAL
-- 
2.43.0


From 955a9e428b1d176468369412b05c542390fde8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:34 +0000
Subject: [PATCH 26/86] fix: configuration values lost everything from a second
 equals sign, and a line without a key crashed

---
 conf_parser.c | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/conf_parser.c b/conf_parser.c
index 6279474..2a2c953 100644
--- a/conf_parser.c
+++ b/conf_parser.c
@@ -68,7 +68,7 @@ void conf_parse_multi(conf_item *item)
 
 conf_item *conf_parse_first_pass(char *line)
 {
-  if (!strstr(line, "="))
+  if (!strstr(line, DELIM))
   {
     return NULL;
   }
@@ -77,26 +77,21 @@ conf_item *conf_parse_first_pass(char *line)
   // make copy of line to prevent affecting the original line.
   char *line_copy = strdup(line);
   trim(line_copy);
+  // The first delimiter ends the key, everything after it is the value.
+  char *value = strstr(line_copy, DELIM);
+  *value = 0;
+  value += strlen(DELIM);
   // Get the key
-  char *key = strtok(line_copy, DELIM);
-  result->key = strdup(key);
-  trim(result->key);
-  // store the value
-  char *value = strtok(NULL, DELIM);
-  if (value == NULL)
+  trim(line_copy);
+  if (strcmp(line_copy, ""))
   {
-    value = "";
+    result->key = strdup(line_copy);
   }
-
+  // store the value
+  trim(value);
   if (strcmp(value, ""))
   {
-    trim(value);
     result->value = strdup(value);
-    trim(result->value);
-  }
-  else
-  {
-    result->value = "";
   }
 
   // initialise n_multivalues
-- 
2.43.0


From 465b436cc6f680b98a218e3553ec2aafcc4dea35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:35 +0000
Subject: [PATCH 27/86] fix: splitting multiple configuration values used
 strtok's global state and wrote past 20 elements

---
 conf_parser.c | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/conf_parser.c b/conf_parser.c
index 2a2c953..0546c68 100644
--- a/conf_parser.c
+++ b/conf_parser.c
@@ -39,24 +39,16 @@ void conf_parse_multi(conf_item *item)
   // We store value string in a separate string because strtok modifies it.
   char *value = strdup(item->value);
   // tmp_value is a register that stores the current value obtained from the tokenizer.
-  char *tmp_value = strtok(value, MULTI_DELIM);
-  if (tmp_value && strcmp("", tmp_value))
+  char *saveptr = NULL;
+  char *tmp_value = strtok_r(value, MULTI_DELIM, &saveptr);
+  while (tmp_value != NULL && i < _CONF_MAX_MULTI_ELEMENTS)
   {
-    item->multivalue[0] = strdup(tmp_value);
-    trim(item->multivalue[0]);
-    while (tmp_value != NULL && i < _CONF_MAX_MULTI_ELEMENTS)
-    {
-      i++;
-      tmp_value = strtok(NULL, MULTI_DELIM);
-      if (tmp_value != NULL)
-      {
-        item->multivalue[i] = strdup(tmp_value);
-        trim(item->multivalue[i]);
-      }
-    }
+    item->multivalue[i] = strdup(tmp_value);
+    trim(item->multivalue[i]);
+    i++;
+    tmp_value = strtok_r(NULL, MULTI_DELIM, &saveptr);
   }
   item->n_multivalues = i;
-  free(tmp_value);
   free(value);
 }
 
-- 
2.43.0


From 5cb6761b6d5d7de9c82693e8cd3941f75d31ac7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:35 +0000
Subject: [PATCH 28/86] fix: conf_parse_line() crashed on a multi-value line
 without an equals sign

---
 conf_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conf_parser.c b/conf_parser.c
index 0546c68..48e145d 100644
--- a/conf_parser.c
+++ b/conf_parser.c
@@ -96,7 +96,7 @@ conf_item *conf_parse_first_pass(char *line)
 conf_item *conf_parse_line(char *line, bool is_multi)
 {
   conf_item *result = conf_parse_first_pass(line);
-  if (is_multi)
+  if (result != NULL && is_multi)
   {
     conf_parse_multi(result);
   }
-- 
2.43.0


From 6fddb9f4a3c8b9d192782b765c704eb170191521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:36 +0000
Subject: [PATCH 29/86] fix: error messages about configuration files
 overflowed with a long path

---
 conf_parser.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/conf_parser.c b/conf_parser.c
index 48e145d..5171a6e 100644
--- a/conf_parser.c
+++ b/conf_parser.c
@@ -109,7 +109,7 @@ int parse(char *path, conf_handler handler, void *output, key_flags flags)
   if (file == NULL)
   {
     char errorString[120];
-    sprintf(errorString, "Unable to open path: %s", path);
+    snprintf(errorString, sizeof(errorString), "Unable to open path: %s", path);
     perror(errorString);
     return -1;
   }
@@ -120,7 +120,7 @@ int parse(char *path, conf_handler handler, void *output, key_flags flags)
     if (item == NULL)
     {
       char errorString[120];
-      sprintf(errorString, "Entity in invalid format, path: %s\n", path);
+      snprintf(errorString, sizeof(errorString), "Entity in invalid format, path: %s\n", path);
       perror(errorString);
       fclose(file);
       return -1;
@@ -241,8 +241,9 @@ int write_conf(void *input, conf_serializer serializer)
   if (file == NULL)
   {
     char errorString[120];
-    sprintf(errorString, "Unable to open file %s for writing", s->path);
+    snprintf(errorString, sizeof(errorString), "Unable to open file %s for writing", s->path);
     perror(errorString);
+    free_serializable(s);
     return -1;
   }
   for (int i = 0; i < s->n_items; i++)
-- 
2.43.0


From b3559a386a613455bd0c65a875369ca82a4fb711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:37 +0000
Subject: [PATCH 30/86] fix: serializable_to_string() overflowed its buffer and
 leaked

---
 conf_parser.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/conf_parser.c b/conf_parser.c
index 5171a6e..c2bfb53 100644
--- a/conf_parser.c
+++ b/conf_parser.c
@@ -273,12 +273,16 @@ serializable *new_serializable(char *path, conf_item *items[], int n_items)
 
 char *serializable_to_string(serializable *s)
 {
-  char *result = malloc(1024 * sizeof(char));
+  char *result = malloc(strlen(s->path) + MAX_INT_STR + 20);
   sprintf(result, "[path=%s,n_items=%d", s->path, s->n_items);
   for (int i = 0; i < s->n_items; i++)
   {
+    char *item = conf_item_to_string(s->items[i]);
+    // room for the item, the comma before it and the final bracket
+    result = realloc(result, strlen(result) + strlen(item) + 3);
     strcat(result, ",");
-    strcat(result, conf_item_to_string(s->items[i]));
+    strcat(result, item);
+    free(item);
   }
   strcat(result, "]");
   return result;
-- 
2.43.0


From ad2b2c4eac8bc265a210f90864ce934d18122f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:58 +0000
Subject: [PATCH 31/86] fix: a connection without a complete request line
 corrupted the heap

---
 ws.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index a142e34..d67fcca 100644
--- a/ws.c
+++ b/ws.c
@@ -496,8 +496,8 @@ void accept_request(int socket)
 	log_trace("IP: %s, Request: %s", req->IP, buf);
 
 	req->request_line = strdup(buf);
-	// The request line ends in the two characters \r\n
-	req->request_line[strlen(req->request_line) - 2] = 0;
+	// The request line ends in the two characters \r\n, if it is complete
+	req->request_line[strcspn(req->request_line, "\r\n")] = 0;
 
 	// HTTP METHOD
 	i = 0;
-- 
2.43.0


From c9cac834ac3c141eb75b7e118945c9f6a42a3be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:58 +0000
Subject: [PATCH 32/86] fix: long header names and values were left
 unterminated

---
 ws.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index d67fcca..cb86929 100644
--- a/ws.c
+++ b/ws.c
@@ -566,9 +566,9 @@ void accept_request(int socket)
 			if (nameval->n_str > 1)
 			{
 				log_trace("Found header: %s, %s", nameval->strings[0], nameval->strings[1]);
-				strncpy(req->headers[headers_idx].name, nameval->strings[0], HTTP_MAX_HEADER_NAME);
+				strncpy(req->headers[headers_idx].name, nameval->strings[0], HTTP_MAX_HEADER_NAME - 1);
 				trim(nameval->strings[1]);
-				strncpy(req->headers[headers_idx].value, nameval->strings[1], HTTP_MAX_HEADER_VALUE);
+				strncpy(req->headers[headers_idx].value, nameval->strings[1], HTTP_MAX_HEADER_VALUE - 1);
 				headers_idx++;
 			}
 			free_str_list_t(nameval);
-- 
2.43.0


From ae8b097ae5e748853800974b8f2c060d4bb5bd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:59 +0000
Subject: [PATCH 33/86] fix: a long multipart boundary overflowed its buffer

---
 ws.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index cb86929..94485b5 100644
--- a/ws.c
+++ b/ws.c
@@ -583,7 +583,7 @@ void accept_request(int socket)
 			char *boundary = strcasestr(buf, "boundary=");
 			if (boundary)
 			{
-				sprintf(multipart_boundary, "--%s", boundary + strlen("boundary=")); // TODO: Validate size
+				snprintf(multipart_boundary, sizeof(multipart_boundary), "--%s", boundary + strlen("boundary="));
 				trim(multipart_boundary);
 			}
 		}
-- 
2.43.0


From 3a552cfb8c972bf982ef2a165b1dee4731474bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:00 +0000
Subject: [PATCH 34/86] fix: sessions overflowed when long, and took wrong or
 stale bytes from Authorization and Cookie headers

---
 ws.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/ws.c b/ws.c
index 94485b5..bf65ed2 100644
--- a/ws.c
+++ b/ws.c
@@ -606,14 +606,24 @@ void accept_request(int socket)
 		/* Get Session */
 		if (startswithany(buf, COOKIE_HEADERS))
 		{
-			strncpy(req->session, buf + 10, MAX_SESSION);
+			char *session = strchr(buf, ':') + 1;
+			trim(session);
+			memset(req->session, 0, MAX_SESSION);
+			strncpy(req->session, session, MAX_SESSION - 1);
 			trim(req->session);
 		}
 
 		if (startswith(buf, "Cookie:") && req->session[0] == 0)
 		{
-			if (strlen(buf + 18) < MAX_SESSION)
-				strcpy(req->session, buf + 18);
+			char *session = strstr(buf, "WSSESSION=");
+			if (session)
+			{
+				session += strlen("WSSESSION=");
+				session[strcspn(session, ";")] = 0;
+				trim(session);
+				if (strlen(session) < MAX_SESSION)
+					strcpy(req->session, session);
+			}
 		}
 
 		numchars = get_line(req, buf, sizeof(buf));
-- 
2.43.0


From 6941944143ee27b453312a16487e656980990281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:21 +0000
Subject: [PATCH 35/86] fix: content headers without a space after the colon
 were misread, and content types kept their line end

---
 ws.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ws.c b/ws.c
index bf65ed2..bd164f2 100644
--- a/ws.c
+++ b/ws.c
@@ -575,10 +575,12 @@ void accept_request(int socket)
 		}
 		if (startswith(buf, "Content-Type:"))
 		{
-			req->content_type = rtrim(&(buf[14]), ';');
+			free(req->content_type);
+			req->content_type = rtrim(buf + strlen("Content-Type:"), ';');
+			trim(req->content_type);
 		}
 		/* Get multipart boundary */
-		if (startswith(buf, "Content-Type: multipart/form-data"))
+		if (startswith(buf, "Content-Type:") && startswith(req->content_type, "multipart/form-data"))
 		{
 			char *boundary = strcasestr(buf, "boundary=");
 			if (boundary)
@@ -591,7 +593,7 @@ void accept_request(int socket)
 		/* Get content length */
 		if (startswith(buf, "Content-Length:"))
 		{
-			content_length = atoi(&(buf[16]));
+			content_length = atoi(buf + strlen("Content-Length:"));
 		}
 
 		// Get original IP if behind proxy
-- 
2.43.0


From 239f6d97957ad6f15e614b4d9cdc76582ab7d8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:22 +0000
Subject: [PATCH 36/86] fix: quoted multipart boundaries and parameters after
 them were taken as part of the boundary

---
 ws.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index bd164f2..a15d880 100644
--- a/ws.c
+++ b/ws.c
@@ -585,7 +585,15 @@ void accept_request(int socket)
 			char *boundary = strcasestr(buf, "boundary=");
 			if (boundary)
 			{
-				snprintf(multipart_boundary, sizeof(multipart_boundary), "--%s", boundary + strlen("boundary="));
+				boundary += strlen("boundary=");
+				if (*boundary == '"')
+				{
+					boundary++;
+					boundary[strcspn(boundary, "\"")] = 0;
+				}
+				else
+					boundary[strcspn(boundary, ";")] = 0;
+				snprintf(multipart_boundary, sizeof(multipart_boundary), "--%s", boundary);
 				trim(multipart_boundary);
 			}
 		}
-- 
2.43.0


From 46227d3cb25e5b969f19fc420568230eba85bc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:23 +0000
Subject: [PATCH 37/86] fix: an empty X-Real-IP header took stale bytes as the
 client address

---
 ws.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ws.c b/ws.c
index a15d880..9b2b8a1 100644
--- a/ws.c
+++ b/ws.c
@@ -607,10 +607,14 @@ void accept_request(int socket)
 		// Get original IP if behind proxy
 		if (startswith(buf, "X-Real-IP:"))
 		{
-			free(req->IP);
-			req->IP = calloc(26, 1);
-			trim(buf);
-			strncpy(req->IP, buf + 11, 24);
+			char *real_ip = buf + strlen("X-Real-IP:");
+			trim(real_ip);
+			if (*real_ip)
+			{
+				free(req->IP);
+				req->IP = calloc(26, 1);
+				strncpy(req->IP, real_ip, 24);
+			}
 		}
 
 		/* Get Session */
-- 
2.43.0


From 28b93b38dd3d9263edf4b3dbd8f5078e77afeee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:24 +0000
Subject: [PATCH 38/86] fix: header names were compared case-sensitively, so
 lower-case headers were not found

---
 http_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http_utils.c b/http_utils.c
index b5e4b62..4c9e04e 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -525,7 +525,7 @@ char *http_get_header(api_request *req, char *name)
 {
 	for (int i = 0; i < req->n_headers; i++)
 	{
-		if (!strcmp(req->headers[i].name, name))
+		if (!strcasecmp(req->headers[i].name, name))
 		{
 			return strdup(req->headers[i].value);
 		}
-- 
2.43.0


From 153dbb17f7deedd13c70d8f33e0e4cba4bdabdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:25 +0000
Subject: [PATCH 39/86] fix: a body cut short was padded with repeated bytes
 and given to the handler

---
 ws.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 9b2b8a1..07c8090 100644
--- a/ws.c
+++ b/ws.c
@@ -293,10 +293,15 @@ void handle_api_request(api_request *req, long content_length, char *multipart_b
 	{
 		char c = '\0';
 		req->form = malloc(content_length + 1);
+		req->form[0] = 0;
 		long formptr = 0;
 		for (int i = 0; i < content_length; i++)
 		{
-			http_read_char(req, &c);
+			if (http_read_char(req, &c) <= 0)
+			{
+				bad_request(req);
+				return;
+			}
 			req->form[formptr++] = c;
 			req->form[formptr] = 0;
 		}
-- 
2.43.0


From 1e4e75aa2040379993fbfcf284376aed65f5eefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:44 +0000
Subject: [PATCH 40/86] fix: folder URLs were decided on uninitialised memory
 instead of the path

---
 ws.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index 07c8090..ae39daa 100644
--- a/ws.c
+++ b/ws.c
@@ -319,7 +319,7 @@ void handle_static_routes(api_request *req)
 {
 	log_debug("Handle static route: %s", req->path);
 	char path[1024];
-	int pathlen = strlen(path);
+	int pathlen = strlen(req->path);
 	/**
 	 *  Handle default routes. URL Rewritting.
 	 */
@@ -335,7 +335,7 @@ void handle_static_routes(api_request *req)
 		req->path = strdup(FAVICON_URL);
 	}
 	// If static route ends with '/', then redirect to the index.html in the folder.
-	else if (path[pathlen-1] == '/')
+	else if (pathlen > 0 && req->path[pathlen-1] == '/')
 	{
 
 		sprintf(path, "%s%s", req->path, "index.html");
-- 
2.43.0


From 915df9d1ddb43362ef9718e5a11abf81f6edb658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:44 +0000
Subject: [PATCH 41/86] fix: static requests with .. segments served files
 outside the static root

---
 ws.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ws.c b/ws.c
index ae39daa..a6d883d 100644
--- a/ws.c
+++ b/ws.c
@@ -345,6 +345,18 @@ void handle_static_routes(api_request *req)
 
 	sprintf(path, "%s/%s", WAYUU_STATIC_ROOT, req->path);
 
+	// Never leave the static root
+	char *parent = path + strlen(WAYUU_STATIC_ROOT);
+	while ((parent = strstr(parent, "/..")) != NULL)
+	{
+		parent += strlen("/..");
+		if (*parent == '/' || *parent == 0)
+		{
+			bad_request(req);
+			return;
+		}
+	}
+
 	log_debug("IP:%s GET: %s, PATH: %s", req->IP, req->path, path);
 	// If the file is not found return /index.html
 	if (direct_file(req, path) < 0)
-- 
2.43.0


From 68626ff63cd122b5b3eea7d92ed9774017e82541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:45 +0000
Subject: [PATCH 42/86] fix: a request for a missing file got no response at
 all on a site without an index page

---
 ws.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index a6d883d..02e3e81 100644
--- a/ws.c
+++ b/ws.c
@@ -362,7 +362,8 @@ void handle_static_routes(api_request *req)
 	if (direct_file(req, path) < 0)
 	{
 		sprintf(path, "%s/%s", WAYUU_STATIC_ROOT, WWW_INDEX);
-		direct_file(req, path);
+		if (direct_file(req, path) < 0)
+			not_found(req);
 	}
 }
 
-- 
2.43.0


From 7911033b4856b377efcc0f74bc8c7a1875d99ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:18 +0000
Subject: [PATCH 43/86] fix: URLs were silently cut at 254 bytes, and request
 lines at 1023 with the rest read as headers

---
 ws.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ws.c b/ws.c
index 02e3e81..64ec832 100644
--- a/ws.c
+++ b/ws.c
@@ -318,7 +318,7 @@ void handle_api_request(api_request *req, long content_length, char *multipart_b
 void handle_static_routes(api_request *req)
 {
 	log_debug("Handle static route: %s", req->path);
-	char path[1024];
+	char path[4096];
 	int pathlen = strlen(req->path);
 	/**
 	 *  Handle default routes. URL Rewritting.
@@ -463,7 +463,7 @@ bool connection_add(int socket, char *IP, char *path)
 		if (!live_connections[i].socket)
 		{
 			live_connections[i].socket = socket;
-			strcpy(live_connections[i].path, path);
+			strncpy(live_connections[i].path, path, HTTP_MAX_PATH - 1);
 			strcpy(live_connections[i].IP, IP);
 			return true;
 		}
@@ -484,7 +484,7 @@ void accept_request(int socket)
 	char buf[1024] = "\0";
 	int numchars;
 	char method[255];
-	char url[255];
+	char url[sizeof(buf)];
 	size_t i, j;
 	api_request *req = api_request_new(socket);
 
@@ -530,8 +530,8 @@ void accept_request(int socket)
 
 	req->method = method;
 
-	// If the request is not from any of the supported HTTP methods, reject the request.
-	if (!startswithany(method, ALLOWED_HTTP_METHODS))
+	// If the request is not from any of the supported HTTP methods, or its first line doesn't fit, reject the request.
+	if (!startswithany(method, ALLOWED_HTTP_METHODS) || (numchars == sizeof(buf) - 1 && buf[numchars - 1] != '\n'))
 	{
 		bad_request(req);
 		connection_close(req);
-- 
2.43.0


From 6da404b5d61bd82831756481d30263b212dd586c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:19 +0000
Subject: [PATCH 44/86] fix: workers updated the connection table without a
 lock

---
 ws.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ws.c b/ws.c
index 64ec832..628e5ab 100644
--- a/ws.c
+++ b/ws.c
@@ -34,6 +34,7 @@
 
 /* Globals */
 pthread_mutex_t ws_mutex;
+pthread_mutex_t live_connections_mutex = PTHREAD_MUTEX_INITIALIZER;
 pthread_cond_t ws_cond;
 ws_queue *ws_threads_queue;
 SSL_CTX *ctx;
@@ -440,6 +441,7 @@ void connection_close(api_request *req)
 /* Removes socket from live_connections */
 void connection_del(int socket)
 {
+	pthread_mutex_lock(&live_connections_mutex);
 	for (int i = 0; i < WS_MAX_CONNECTIONS; i++)
 	{
 		if (live_connections[i].socket == socket)
@@ -450,13 +452,18 @@ void connection_del(int socket)
 			break;
 		}
 	}
+	pthread_mutex_unlock(&live_connections_mutex);
 }
 
 /* Adds socket to live_connections (if allowed) */
 bool connection_add(int socket, char *IP, char *path)
 {
+	pthread_mutex_lock(&live_connections_mutex);
 	if (!connection_validate(IP, path))
+	{
+		pthread_mutex_unlock(&live_connections_mutex);
 		return false;
+	}
 
 	for (int i = 0; i < WS_MAX_CONNECTIONS; i++)
 	{
@@ -465,9 +472,11 @@ bool connection_add(int socket, char *IP, char *path)
 			live_connections[i].socket = socket;
 			strncpy(live_connections[i].path, path, HTTP_MAX_PATH - 1);
 			strcpy(live_connections[i].IP, IP);
+			pthread_mutex_unlock(&live_connections_mutex);
 			return true;
 		}
 	}
+	pthread_mutex_unlock(&live_connections_mutex);
 
 	log_debug("WS_MAX_CONNECTIONS reached");
 	return false;
-- 
2.43.0


From 81693931408ff929f0e3e62ee8ab8ff0c3bfbd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:20 +0000
Subject: [PATCH 45/86] fix: a finished connection's table entry was removed
 after its descriptor could be reused

---
 ws.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 628e5ab..5f9d304 100644
--- a/ws.c
+++ b/ws.c
@@ -429,13 +429,14 @@ bool connection_validate(char *IP, char *path)
 
 void connection_close(api_request *req)
 {
+	// The descriptor may be reused as soon as it is closed, so forget it first
+	connection_del(req->socket);
 	if (WAYUU_SSL_ON)
 	{
 		SSL_shutdown(req->ssl);
 		SSL_free(req->ssl);
 	}
 	close(req->socket);
-	connection_del(req->socket);
 }
 
 /* Removes socket from live_connections */
-- 
2.43.0


From 790bef43820d6b31ec879d4094a75f8e0248d959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:21 +0000
Subject: [PATCH 46/86] fix: connection limits let one connection more than the
 maximum through

---
 ws.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index 5f9d304..4aac6bd 100644
--- a/ws.c
+++ b/ws.c
@@ -412,12 +412,12 @@ bool connection_validate(char *IP, char *path)
 			int total = 0;
 			int by_ip = 0;
 			get_live_stats(limits[i].path, IP, &total, &by_ip);
-			if (total > limits[i].max_connections)
+			if (total >= limits[i].max_connections)
 			{
 				log_debug("IP:%s denied, max_connections exceeded for %s", IP, limits[i].path);
 				return false;
 			}
-			if (by_ip > limits[i].max_connections_per_ip)
+			if (by_ip >= limits[i].max_connections_per_ip)
 			{
 				log_debug("IP:%s denied, max_connections_per_ip exceeded for %s", IP, limits[i].path);
 				return false;
-- 
2.43.0


From 21f8eeb227d3972a5ec75796ad6b0b3b25760983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:22 +0000
Subject: [PATCH 47/86] fix: connections dropped with a full queue were never
 closed, and each connection leaked its address

---
 ws.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ws.c b/ws.c
index 4aac6bd..c749b76 100644
--- a/ws.c
+++ b/ws.c
@@ -853,10 +853,12 @@ void ws_launch(int port, char *bind_addr, ws_socket_handler handler)
 			else
 			{
 				log_warn("IP:%s Connection dropped. No threads available", IP);
+				close(client_sock);
 			}
 			pthread_mutex_unlock(&ws_mutex);
 			pthread_cond_signal(&ws_cond);
 		}
+		free(IP);
 	}
 
 	log_info("WAYUU WS shutting down");
-- 
2.43.0


From b0632b9d5ab32329c59c0d2bb56a4a52c694b840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:23 +0000
Subject: [PATCH 48/86] fix: a failing accept() terminated the server

---
 ws.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index c749b76..9f4bf75 100644
--- a/ws.c
+++ b/ws.c
@@ -827,7 +827,12 @@ void ws_launch(int port, char *bind_addr, ws_socket_handler handler)
 
 		client_sock = accept(httpd, (struct sockaddr *)&client_name, &client_name_len);
 		if (client_sock == -1)
-			log_fatal("Error while creating client socket");
+		{
+			// For instance an aborted connection, or no descriptors left for the moment
+			log_error("Error while creating client socket");
+			usleep(1000);
+			continue;
+		}
 
 		char *IP = malloc(16);
 		strcpy(IP, inet_ntoa(client_name.sin_addr));
-- 
2.43.0


From d644aeb81a5881ce622cf6fbc8d33113cdbe92c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:42 +0000
Subject: [PATCH 49/86] fix: the address of a client that had already
 disconnected was read uninitialised

---
 ws.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 9f4bf75..703c274 100644
--- a/ws.c
+++ b/ws.c
@@ -500,7 +500,7 @@ void accept_request(int socket)
 
 	// IP
 	req->IP = calloc(24, 1);
-	struct sockaddr_in addr;
+	struct sockaddr_in addr = {0};
 	socklen_t addr_len = sizeof(addr);
 	getpeername(socket, (struct sockaddr *)&addr, &addr_len);
 	strcpy(req->IP, inet_ntoa(addr.sin_addr));
-- 
2.43.0


From 5f72242df1405d5467ac46a01ac72851f48bf61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:43 +0000
Subject: [PATCH 50/86] fix: short multipart parts were parsed together with
 leftovers of longer ones before them

---
 ws.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ws.c b/ws.c
index 703c274..9b41265 100644
--- a/ws.c
+++ b/ws.c
@@ -264,6 +264,7 @@ void multipart_parse(char *form, char *IP, char *multipart_boundary, long conten
 
 		int tmppart_len = part_end - part_start - strlen(multipart_boundary);
 		memcpy(tmppart, form + part_start, tmppart_len);
+		tmppart[tmppart_len] = 0;
 
 		part_parse(IP, tmpfields, tmppart, tmppart_len);
 
-- 
2.43.0


From 4709a09899f8051dd98c5163f3948997c085488a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:44 +0000
Subject: [PATCH 51/86] fix: text resembling part headers inside a multipart
 value was parsed as headers, and empty parts crashed

---
 ws.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ws.c b/ws.c
index 9b41265..19333cd 100644
--- a/ws.c
+++ b/ws.c
@@ -167,7 +167,12 @@ void part_parse(char *IP, char *tmpfields, char *tmpdata, long length)
 {
 
 	long actuallength = length;
-	long start = text_find_after(tmpdata, "form-data; name=\"", 0, strlen(tmpdata));
+	/* The part headers end in an empty line, which is followed by the data and a line end */
+	long data_start = text_find_after(tmpdata, "\r\n\r\n", 0, actuallength);
+	if (data_start > actuallength - 2)
+		data_start = -1;
+	long header_length = data_start > 0 ? data_start : strlen(tmpdata);
+	long start = text_find_after(tmpdata, "form-data; name=\"", 0, header_length);
 	if (start < 1)
 	{
 		log_warn("IP:%s Multipart error: Form-data not found ", IP);
@@ -182,12 +187,11 @@ void part_parse(char *IP, char *tmpfields, char *tmpdata, long length)
 		memcpy(field, tmpdata + start, bytes);
 		field[bytes] = 0;
 		chop_string(field);
-		long data_start = text_find_after(tmpdata, "\r\n\r\n", 0, actuallength);
 		/* If there is already data in tmpfields, start with & */
 		if (strlen(tmpfields) > 0)
 			sprintf(tmpfields + strlen(tmpfields), "&");
 
-		long start_file = text_find_after(tmpdata, "; filename=\"", 0, strlen(tmpdata));
+		long start_file = text_find_after(tmpdata, "; filename=\"", 0, header_length);
 		if (data_start > 0)
 		{
 			/* Save filename */
-- 
2.43.0


From 3ada95f9b1f089137f0758b66d912e1c0386327b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:45 +0000
Subject: [PATCH 52/86] fix: multipart forms with small file parts overflowed
 their buffers

---
 ws.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/ws.c b/ws.c
index 19333cd..b3a3b67 100644
--- a/ws.c
+++ b/ws.c
@@ -246,11 +246,14 @@ void save_tmp_file(char *tmpfields, char *field, long start_file, char *tmpdata,
 	sprintf(tmpfields + strlen(tmpfields), "%s=%s&tmpfile=%s", field, orig_filename, tmpfile);
 }
 
-void multipart_parse(char *form, char *IP, char *multipart_boundary, long content_length)
+/* Returns a new string with the fields of the form */
+char *multipart_parse(char *form, char *IP, char *multipart_boundary, long content_length)
 {
 
 	char *tmppart = calloc(content_length + 1, 1);
-	char *tmpfields = calloc(content_length + 1, 1);
+	/* A file part turns into its name, the original file name and a temporary file name,
+	   and takes more than 33 bytes in the form (headers only): its result is at most 3 times longer. */
+	char *tmpfields = calloc(3 * content_length + 1, 1);
 
 	long ptr = 0;
 	long part_start;
@@ -276,10 +279,8 @@ void multipart_parse(char *form, char *IP, char *multipart_boundary, long conten
 		ptr = part_start + 1;
 	}
 
-	strcpy(form, tmpfields);
-
-	free(tmpfields);
 	free(tmppart);
+	return tmpfields;
 }
 
 void handle_api_request(api_request *req, long content_length, char *multipart_boundary)
@@ -314,8 +315,11 @@ void handle_api_request(api_request *req, long content_length, char *multipart_b
 
 		/* If multipart boundary is at least = "--", then parse multipart */
 		if (strlen(multipart_boundary) >= 2)
-			multipart_parse(req->form, req->IP, multipart_boundary, content_length);
-		
+		{
+			char *fields = multipart_parse(req->form, req->IP, multipart_boundary, content_length);
+			free(req->form);
+			req->form = fields;
+		}
 	}
 	// Delegate request to router
 	router_handle_request(req);
-- 
2.43.0


From 8ed871a7f12b91ca914dae59eb385e880d1b6d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:28 +0000
Subject: [PATCH 53/86] fix: every request leaked its address, request line,
 URL, session, path, query, body and content type

---
 ws.c | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/ws.c b/ws.c
index b3a3b67..7c5c0d3 100644
--- a/ws.c
+++ b/ws.c
@@ -377,21 +377,36 @@ void handle_static_routes(api_request *req)
 	}
 }
 
+// Initial value of the text fields of a request, not to be freed.
+static char NO_TEXT[] = "";
+
 api_request *api_request_new(int socket)
 {
 	api_request *req = calloc(1, sizeof(api_request));
 	req->request_start = epoch_millis();
 	req->response_length = 0;
-	req->query_string = "";
-	req->form = "";
-	req->session = "";
-	req->path = "";
-	req->username = "";
-	req->url = "";
+	req->query_string = NO_TEXT;
+	req->form = NO_TEXT;
+	req->session = NO_TEXT;
+	req->path = NO_TEXT;
+	req->username = NO_TEXT;
+	req->url = NO_TEXT;
 	req->socket = socket;
 	return req;
 }
 
+/* Frees a request and everything accept_request allocated for it */
+void api_request_free(api_request *req)
+{
+	char *fields[] = {req->IP, req->request_line, req->url, req->session, req->query_string, req->path, req->form, req->content_type};
+	for (int i = 0; i < sizeof(fields) / sizeof(fields[0]); i++)
+	{
+		if (fields[i] != NO_TEXT)
+			free(fields[i]);
+	}
+	free(req);
+}
+
 /* Return "total" / "by_ip" ongoing connections "path" and "IP" */
 void get_live_stats(char *path, char *IP, int *total, int *by_ip)
 {
@@ -554,7 +569,7 @@ void accept_request(int socket)
 	{
 		bad_request(req);
 		connection_close(req);
-		free(req);
+		api_request_free(req);
 		return;
 	}
 
@@ -581,7 +596,7 @@ void accept_request(int socket)
 	{
 		too_many_connections(req);
 		connection_close(req);
-		free(req);
+		api_request_free(req);
 		return;
 	}
 
@@ -707,13 +722,13 @@ void accept_request(int socket)
 	/* II. HANDLE API REQUEST */
 	else
 	{
-		req->path = strdup(pq->path) + strlen(API_MOUNT);
+		req->path = strdup(pq->path + strlen(API_MOUNT));
 		// Create an api request object.
 		handle_api_request(req, content_length, multipart_boundary);
 	}
 	free_path_and_query_t(pq);
 	connection_close(req);
-	free(req);
+	api_request_free(req);
 }
 
 ws_queue *ws_create_queue(int maxElements)
-- 
2.43.0


From 3bc992a90304a0063ff110d5bef685ffc8561218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:40 +0000
Subject: [PATCH 54/86] fix: -r left static files in /etc/wayuu/www, and long
 -r and -b arguments overflowed

---
 main.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/main.c b/main.c
index 5a88d42..e50873c 100644
--- a/main.c
+++ b/main.c
@@ -78,13 +78,22 @@ int main(int argc, char *argv[])
       exit(EXIT_SUCCESS);
       break;
     case 'b':
+      if (strlen(optarg) >= sizeof(bind_addr))
+      {
+        log_fatal("Unable to start, wrong IP address: %s", optarg);
+      }
       strcpy(bind_addr, optarg);
       break;
     case 'p':
       ws_port = atoi(optarg);
       break;
     case 'r':
+      if (strlen(optarg) >= sizeof(WAYUU_WS_ROOT))
+      {
+        log_fatal("Unable to start, root directory name too long: %s", optarg);
+      }
       strcpy(WAYUU_WS_ROOT, optarg);
+      sprintf(WAYUU_STATIC_ROOT, "%s/%s", WAYUU_WS_ROOT, DEFAULT_STATIC_ROOT);
       log_info("WAYUU ROOT now: %s", WAYUU_WS_ROOT);
       if (!is_dir(WAYUU_WS_ROOT))
       {
-- 
2.43.0


From e97c91b0e6826b10f761f2bd62049e96a39c75fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:41 +0000
Subject: [PATCH 55/86] fix: the standalone server started on another port when
 its -p value was out of range, or an option lacked its value

---
 main.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/main.c b/main.c
index e50873c..e4aa926 100644
--- a/main.c
+++ b/main.c
@@ -86,6 +86,10 @@ int main(int argc, char *argv[])
       break;
     case 'p':
       ws_port = atoi(optarg);
+      if (ws_port < 1 || ws_port > 65535)
+      {
+        log_fatal("Unable to start, wrong port: %s", optarg);
+      }
       break;
     case 'r':
       if (strlen(optarg) >= sizeof(WAYUU_WS_ROOT))
@@ -102,6 +106,7 @@ int main(int argc, char *argv[])
       break;
     case ':':
       printf("option needs a value\n");
+      exit(EXIT_FAILURE);
       break;
     case '?':
       printf("unknown option: %c\n", optopt);
-- 
2.43.0


From b3d423c3878ad21f2ec317584fd6237bd65ce527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:42 +0000
Subject: [PATCH 56/86] fix: long paths overflowed the limit rules, and an
 incomplete line's numbers were kept for the next one

---
 ws.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 7c5c0d3..bd79881 100644
--- a/ws.c
+++ b/ws.c
@@ -937,6 +937,11 @@ path_limits *load_limits()
 				/* Tokenize line, comma delimited */
 				char *token;
 				token = strtok(line, ",");
+				if (strlen(token) >= HTTP_MAX_PATH)
+				{
+					log_error("Limit ignored, path too long: %s", token);
+					continue;
+				}
 				strcpy(out[path_rules].path, token);
 				int i = 1;
 				while (token != NULL)
@@ -960,7 +965,7 @@ path_limits *load_limits()
 					path_rules++;
 				}
 				else
-					*out[path_rules].path = 0;
+					memset(&out[path_rules], 0, sizeof(path_limits));
 
 				/* Stop here if MAX_LIMIT_RULES is reached */
 				if (path_rules >= MAX_LIMIT_RULES)
-- 
2.43.0


From 910fa9b034c882f52feb1df0d87bb400dd8da775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:43 +0000
Subject: [PATCH 57/86] fix: an empty multipart form or one starting with a
 zero byte leaked when the route has a parameter

---
 ws.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ws.c b/ws.c
index bd79881..d256351 100644
--- a/ws.c
+++ b/ws.c
@@ -283,6 +283,9 @@ char *multipart_parse(char *form, char *IP, char *multipart_boundary, long conte
 	return tmpfields;
 }
 
+// Initial value of the text fields of a request, not to be freed.
+static char NO_TEXT[] = "";
+
 void handle_api_request(api_request *req, long content_length, char *multipart_boundary)
 {
 
@@ -321,8 +324,13 @@ void handle_api_request(api_request *req, long content_length, char *multipart_b
 			req->form = fields;
 		}
 	}
+	char *form = req->form;
+	bool empty_form = form != NO_TEXT && form[0] == 0;
 	// Delegate request to router
 	router_handle_request(req);
+	// The router replaces an empty form with the parameter of the route, and does not free it
+	if (empty_form && req->form != form)
+		free(form);
 }
 
 void handle_static_routes(api_request *req)
@@ -377,9 +385,6 @@ void handle_static_routes(api_request *req)
 	}
 }
 
-// Initial value of the text fields of a request, not to be freed.
-static char NO_TEXT[] = "";
-
 api_request *api_request_new(int socket)
 {
 	api_request *req = calloc(1, sizeof(api_request));
-- 
2.43.0


From 83efaf691ab5ad7344c2166c348a2909fdbbcf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:01 +0000
Subject: [PATCH 58/86] fix: the end of a header line longer than the line
 buffer was read as another header

---
 ws.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index d256351..2e24c86 100644
--- a/ws.c
+++ b/ws.c
@@ -114,6 +114,19 @@ int get_line(api_request *req, char *buf, int size)
 	return (i);
 }
 
+/* Reads a header line, leaving out what doesn't fit in buf */
+int get_header_line(api_request *req, char *buf, int size)
+{
+	int numchars = get_line(req, buf, size);
+	if (numchars == size - 1 && buf[numchars - 1] != '\n')
+	{
+		char rest[2];
+		while (get_line(req, rest, sizeof(rest)) > 0 && *rest != '\n')
+			;
+	}
+	return numchars;
+}
+
 void init_openssl()
 {
 	SSL_load_error_strings();
@@ -611,7 +624,7 @@ void accept_request(int socket)
 	numchars = 1;
 	buf[0] = 'A';
 	buf[1] = '\0';
-	numchars = get_line(req, buf, sizeof(buf));
+	numchars = get_header_line(req, buf, sizeof(buf));
 	req->session = calloc(MAX_SESSION, 1);
 	int headers_idx = 0;
 	while ((numchars > 0) && strcmp("\n", buf) && strcmp("\r\n", buf))
@@ -697,7 +710,7 @@ void accept_request(int socket)
 			}
 		}
 
-		numchars = get_line(req, buf, sizeof(buf));
+		numchars = get_header_line(req, buf, sizeof(buf));
 	}
 
 	req->n_headers = headers_idx;
-- 
2.43.0


From c3d048538964d77237448baec0e1171fac375d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:01 +0000
Subject: [PATCH 59/86] fix: a failed TLS handshake was answered and recorded
 in the access log as a bad request

---
 ws.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 2e24c86..7f5adc1 100644
--- a/ws.c
+++ b/ws.c
@@ -554,11 +554,14 @@ void accept_request(int socket)
 		ssl = SSL_new(ctx);
 		SSL_set_fd(ssl, socket);
 
+		req->ssl = ssl;
 		if (SSL_accept(ssl) <= 0)
 		{
 			log_warn("SSL connection failed from IP: %s\n", req->IP);
+			connection_close(req);
+			api_request_free(req);
+			return;
 		}
-		req->ssl = ssl;
 	}
 
 	/* Read header start */
-- 
2.43.0


From 19f6d8356528256274cdef90e65775cea7bc33e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:02 +0000
Subject: [PATCH 60/86] fix: a body too large for the available memory crashed
 the server

---
 ws.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ws.c b/ws.c
index 7f5adc1..3bf7013 100644
--- a/ws.c
+++ b/ws.c
@@ -316,6 +316,13 @@ void handle_api_request(api_request *req, long content_length, char *multipart_b
 	{
 		char c = '\0';
 		req->form = malloc(content_length + 1);
+		if (!req->form)
+		{
+			log_error("Not enough memory for a body of %ld bytes", content_length);
+			req->form = NO_TEXT;
+			internal_server_error(req);
+			return;
+		}
 		req->form[0] = 0;
 		long formptr = 0;
 		for (int i = 0; i < content_length; i++)
-- 
2.43.0


From 790b826468a1da44a9511cd1f6b87d886a2c601b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:03 +0000
Subject: [PATCH 61/86] fix: a client closing early killed the application with
 SIGPIPE

---
 ws.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ws.c b/ws.c
index 3bf7013..6802660 100644
--- a/ws.c
+++ b/ws.c
@@ -19,6 +19,7 @@
 #include <arpa/inet.h>
 #include <ctype.h>
 #include <pthread.h>
+#include <signal.h>
 #include <unistd.h>
 #include <stdlib.h>
 #include <string.h>
@@ -816,6 +817,9 @@ void ws_launch(int port, char *bind_addr, ws_socket_handler handler)
 	struct sockaddr_in client_name;
 	uint32_t client_name_len = sizeof(client_name);
 
+	// A client that closes its connection early must not end the process
+	signal(SIGPIPE, SIG_IGN);
+
 	// Create TMP dir
 	if (!check_createdir(FILE_DOWNLOAD_TMP_DIR))
 	{
-- 
2.43.0


From 4390712f55eb7154d1ad6f2d6891fafcaec72429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:04 +0000
Subject: [PATCH 62/86] fix: a static file that could not be opened was
 answered as an empty one

---
 http_utils.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/http_utils.c b/http_utils.c
index 4c9e04e..d7cc82d 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -205,6 +205,14 @@ int direct_file(api_request *req, char *filename)
 		log_warn("File not found: %s", filename);
 		return -1;
 	}
+	FILE *file = fopen(filename, "rb");
+	if (!file)
+	{
+		log_error("Unable to open file: %s", filename);
+		internal_server_error(req);
+		return 0;
+	}
+	fclose(file);
 	int length = return_headers(req, filename);
 	length += return_file(req, filename);
 	req->response_length = length;
-- 
2.43.0


From 60219ffd00c2d1dc879ca925213a7bd79a678bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:54 +0000
Subject: [PATCH 63/86] fix: any cookie whose name ends in WSSESSION was taken
 as the session

---
 ws.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 6802660..8e4a9b5 100644
--- a/ws.c
+++ b/ws.c
@@ -710,7 +710,15 @@ void accept_request(int socket)
 
 		if (startswith(buf, "Cookie:") && req->session[0] == 0)
 		{
-			char *session = strstr(buf, "WSSESSION=");
+			char *session = buf + strlen("Cookie:");
+			// Cookies are separated by semicolons
+			while (session)
+			{
+				session += strspn(session, "; \t");
+				if (!strncmp(session, "WSSESSION=", strlen("WSSESSION=")))
+					break;
+				session = strchr(session, ';');
+			}
 			if (session)
 			{
 				session += strlen("WSSESSION=");
-- 
2.43.0


From 4226266867a8e18583c7c0a5c0459bb4b28e9ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:11 +0000
Subject: [PATCH 64/86] fix: don't read past the request line buffer when the
 URL has no end

---
 ws.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index 8e4a9b5..0507651 100644
--- a/ws.c
+++ b/ws.c
@@ -604,12 +604,12 @@ void accept_request(int socket)
 
 // Parse URL
 	i = 0;
-	while (isspace((int)(buf[j])) && (j < sizeof(buf)))
+	while ((j < sizeof(buf)) && isspace((int)(buf[j])))
 	{
 		j++;
 	}
 	// URL
-	while (!isspace((int)(buf[j])) && (i < sizeof(url) - 1) && (j < sizeof(buf)))
+	while ((j < sizeof(buf)) && !isspace((int)(buf[j])) && (i < sizeof(url) - 1))
 	{
 		url[i] = buf[j];
 		i++;
-- 
2.43.0


From 80dd391de49afe760b7376971f8c540768aa531a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:25 +0000
Subject: [PATCH 65/86] fix: a dot in a folder name is not the extension of a
 file

---
 http_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http_utils.c b/http_utils.c
index d7cc82d..846e0f1 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -111,7 +111,7 @@ char *get_content_type(char *filename)
 {
 	char *buf = malloc(1024);
 	char *ext = strrchr(filename, '.');
-	if (!ext || ext == filename)
+	if (!ext || ext == filename || strchr(ext, '/'))
 		sprintf(buf, CONTENT_TYPE_TEXT_HTML);
 	else if (strcmp(ext, ".html") == 0 || strcmp(ext, ".js") == 0)
 		sprintf(buf, CONTENT_TYPE_TEXT_HTML);
-- 
2.43.0


From 5485c7bd95075e2e2740ca5e9b597d1fe8c96d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:02 +0000
Subject: [PATCH 66/86] fix: responses to requests with unread input were cut
 by a connection reset

---
 ws.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ws.c b/ws.c
index 0507651..53f18e3 100644
--- a/ws.c
+++ b/ws.c
@@ -486,6 +486,10 @@ void connection_close(api_request *req)
 		SSL_shutdown(req->ssl);
 		SSL_free(req->ssl);
 	}
+	// Closing with unread input resets the connection, and the client loses the end of the response
+	char rest[4096];
+	for (int i = 0; i < 256 && recv(req->socket, rest, sizeof(rest), MSG_DONTWAIT) > 0; i++)
+		;
 	close(req->socket);
 }
 
-- 
2.43.0


From 06beb2962f197cf517e77162043372de93c5c874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:48 +0000
Subject: [PATCH 67/86] fix: a carriage return in a header value got into
 response headers and logs

---
 ws.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ws.c b/ws.c
index 53f18e3..5af29ea 100644
--- a/ws.c
+++ b/ws.c
@@ -125,6 +125,9 @@ int get_header_line(api_request *req, char *buf, int size)
 		while (get_line(req, rest, sizeof(rest)) > 0 && *rest != '\n')
 			;
 	}
+	/* A carriage return only ends a line before a line feed (RFC 9112, 2.2), anywhere else it is a blank */
+	for (char *cr = strchr(buf, '\r'); cr && strcmp(cr, "\r\n"); cr = strchr(cr, '\r'))
+		*cr = ' ';
 	return numchars;
 }
 
-- 
2.43.0


From 5a12fbbd3674b667ee9e021ed38d47af2cd4c2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:35 +0000
Subject: [PATCH 68/86] fix: a wrong bind address made the server listen on
 255.255.255.255

---
 ws.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ws.c b/ws.c
index 5af29ea..6a70853 100644
--- a/ws.c
+++ b/ws.c
@@ -871,6 +871,10 @@ void ws_launch(int port, char *bind_addr, ws_socket_handler handler)
 	name.sin_family = AF_INET;
 	name.sin_port = htons(port);
 	name.sin_addr.s_addr = inet_addr(bind_addr);
+	if (name.sin_addr.s_addr == INADDR_NONE)
+	{
+		log_fatal("Unable to start, wrong IP address: %s", bind_addr);
+	}
 	log_info("WAYUU binding to address: %s", bind_addr);
 	log_info("WAYUU starting on port %d", port);
 	// Set SO_REUSEADDR to prevent no bind on TIME_WAIT. See for instance
-- 
2.43.0


From 359cb73abf88c416b0749d738308540057c4f6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:59 +0000
Subject: [PATCH 69/86] fix: an empty Referer or User-Agent header leaked its
 value

---
 http_utils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/http_utils.c b/http_utils.c
index 846e0f1..c5d1a3a 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -535,7 +535,8 @@ char *http_get_header(api_request *req, char *name)
 	{
 		if (!strcasecmp(req->headers[i].name, name))
 		{
-			return strdup(req->headers[i].value);
+			// Callers do not free an empty value
+			return *req->headers[i].value ? strdup(req->headers[i].value) : "";
 		}
 	}
 	return "";
-- 
2.43.0


From b89cd1585f3671880982fe46448b8722b200009f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:49 +0000
Subject: [PATCH 70/86] fix: static files of 2 GB and more, or larger than the
 free memory, were not sent

---
 http_utils.c | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index c5d1a3a..cca1efb 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -169,29 +169,24 @@ char *get_content_type_for_mime(char *mime)
 	return buf;
 }
 
-int return_file(api_request *req, char *path)
+long return_file(api_request *req, char *path)
 {
 
-	char *src;
+	char src[65536];
 	long length = 0;
 
 	FILE *file = fopen(path, "rb");
 	if (file)
 	{
 
-		fseek(file, 0, SEEK_END);
-		length = ftell(file);
-		fseek(file, 0, SEEK_SET);
-		src = calloc(length + 5, 1);
-
-		if (src)
+		size_t bytes;
+		while ((bytes = fread(src, 1, sizeof(src), file)) > 0)
 		{
-			fread(src, 1, length, file);
+			http_print(req, src, bytes);
+			length += bytes;
 		}
 
 		fclose(file);
-		http_print(req, src, length);
-		free(src);
 	}
 	return length;
 }
@@ -213,7 +208,7 @@ int direct_file(api_request *req, char *filename)
 		return 0;
 	}
 	fclose(file);
-	int length = return_headers(req, filename);
+	long length = return_headers(req, filename);
 	length += return_file(req, filename);
 	req->response_length = length;
 	log_access(req, 200);
-- 
2.43.0


From 75e9fb01271f4f643ab4ac837dfb5bf8bfbd2ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:08 +0000
Subject: [PATCH 71/86] fix: md5sum told snprintf a size beyond its buffer,
 which ends fortified builds on an upload

---
 string_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string_utils.c b/string_utils.c
index 2a03600..26cb12a 100644
--- a/string_utils.c
+++ b/string_utils.c
@@ -123,7 +123,7 @@ void md5sum(char *out, char *data, int len)
   EVP_MD_CTX_free(mdctx);
   
   for (i = 0; i < EVP_MD_size(md); ++i)
-    snprintf(&(md5[i * 2]), EVP_MAX_MD_SIZE * 2 + 1, "%02x", (unsigned int)digest[i]);
+    snprintf(&(md5[i * 2]), 3, "%02x", (unsigned int)digest[i]);
   
   memcpy(out, md5, EVP_MD_size(md) * 2);
   out[EVP_MD_size(md) * 2] = 0;
-- 
2.43.0


From 64350550c2516ab6239aaf294ba0d714abf7a666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:21 +0000
Subject: [PATCH 72/86] fix: read_file: read only what is asked for, a large
 file took the memory or crashed

---
 file_utils.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/file_utils.c b/file_utils.c
index 8abdd0a..c51786b 100644
--- a/file_utils.c
+++ b/file_utils.c
@@ -97,15 +97,15 @@ void read_file(char *out, char *path, uint64_t maxlen)
     fseek(file, 0, SEEK_END);
     length = ftell(file);
     fseek(file, 0, SEEK_SET);
+    if (maxlen > 0)
+      if (length > maxlen - 1)
+        length = maxlen - 1;
     src = calloc(length, 1);
     if (src)
     {
       fread(src, 1, length, file);
     }
     fclose(file);
-    if (maxlen > 0)
-      if (length > maxlen - 1)
-        length = maxlen - 1;
     memcpy(out, src, length);
     out[length] = 0;
     free(src);
-- 
2.43.0


From 2c47b7e2c094f46839f738d116a227d0ee56d363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:54 +0000
Subject: [PATCH 73/86] fix: an upload of the same content took the file of a
 finished upload away for a moment

---
 ws.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 6a70853..9c23087 100644
--- a/ws.c
+++ b/ws.c
@@ -20,6 +20,7 @@
 #include <ctype.h>
 #include <pthread.h>
 #include <signal.h>
+#include <sys/stat.h>
 #include <unistd.h>
 #include <stdlib.h>
 #include <string.h>
@@ -259,7 +260,16 @@ void save_tmp_file(char *tmpfields, char *field, long start_file, char *tmpdata,
 	sprintf(tmpfile, "%lu-%s", pthread_self(), md5);
 	sprintf(tmpfilepath, "%s/%s", FILE_DOWNLOAD_TMP_DIR, tmpfile);
 
-	write_file(tmpfilepath, tmpdata + data_start, actuallength - data_start - 2);
+	// The same content may be there already, from an earlier upload that is still in use: replace it as a whole
+	char partpath[sizeof(tmpfilepath) + 2];
+	struct stat saved;
+	sprintf(partpath, "%s-0", tmpfilepath);
+	write_file(partpath, tmpdata + data_start, actuallength - data_start - 2);
+	if (stat(partpath, &saved) || saved.st_size != actuallength - data_start - 2 || rename(partpath, tmpfilepath))
+	{
+		log_error("Could not save %s", tmpfilepath);
+		remove(partpath);
+	}
 	sprintf(tmpfields + strlen(tmpfields), "%s=%s&tmpfile=%s", field, orig_filename, tmpfile);
 }
 
-- 
2.43.0


From 317e09be731838e6d206202182230fbfa898392d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:51 +0000
Subject: [PATCH 74/86] fix: a file removed while it was served was answered
 with an empty 200 or a 500

---
 http_utils.c | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index cca1efb..3f5afb6 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -20,6 +20,7 @@
 #define _GNU_SOURCE 1
 #endif
 #include <arpa/inet.h>
+#include <errno.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -169,23 +170,30 @@ char *get_content_type_for_mime(char *mime)
 	return buf;
 }
 
-long return_file(api_request *req, char *path)
+static long send_file(api_request *req, FILE *file)
 {
 
 	char src[65536];
 	long length = 0;
 
-	FILE *file = fopen(path, "rb");
-	if (file)
+	size_t bytes;
+	while ((bytes = fread(src, 1, sizeof(src), file)) > 0)
 	{
+		http_print(req, src, bytes);
+		length += bytes;
+	}
 
-		size_t bytes;
-		while ((bytes = fread(src, 1, sizeof(src), file)) > 0)
-		{
-			http_print(req, src, bytes);
-			length += bytes;
-		}
+	return length;
+}
 
+long return_file(api_request *req, char *path)
+{
+	long length = 0;
+
+	FILE *file = fopen(path, "rb");
+	if (file)
+	{
+		length = send_file(req, file);
 		fclose(file);
 	}
 	return length;
@@ -203,13 +211,16 @@ int direct_file(api_request *req, char *filename)
 	FILE *file = fopen(filename, "rb");
 	if (!file)
 	{
+		// It may have been removed in the meantime
+		if (errno == ENOENT)
+			return -1;
 		log_error("Unable to open file: %s", filename);
 		internal_server_error(req);
 		return 0;
 	}
-	fclose(file);
 	long length = return_headers(req, filename);
-	length += return_file(req, filename);
+	length += send_file(req, file);
+	fclose(file);
 	req->response_length = length;
 	log_access(req, 200);
 	return 0;
-- 
2.43.0


From 33a39d7f6b19f6ed2f50d44270e9a0c70d9eda31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:52 +0000
Subject: [PATCH 75/86] fix: a request took millions of years by the access log
 when the clock was set back meanwhile

---
 wayuu_log.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wayuu_log.c b/wayuu_log.c
index f695502..d847c88 100644
--- a/wayuu_log.c
+++ b/wayuu_log.c
@@ -68,5 +68,9 @@ uint64_t epoch_millis()
 
 double response_time(api_request *req)
 {
-  return (double)(epoch_millis() - req->request_start) / 1000;
+  uint64_t now = epoch_millis();
+  // The clock of the system may have been set back in the meantime
+  if (now < req->request_start)
+    return 0;
+  return (double)(now - req->request_start) / 1000;
 }
-- 
2.43.0


From 2153cb18d2573b9a5de4da8a141a92d8e07ea386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:57 +0000
Subject: [PATCH 76/86] fix: a body announced with 2 GB or more was handled
 without having arrived

---
 ws.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ws.c b/ws.c
index 9c23087..17fb2f5 100644
--- a/ws.c
+++ b/ws.c
@@ -329,7 +329,7 @@ void handle_api_request(api_request *req, long content_length, char *multipart_b
 	if (content_length > 0)
 	{
 		char c = '\0';
-		req->form = malloc(content_length + 1);
+		req->form = malloc((size_t)content_length + 1);
 		if (!req->form)
 		{
 			log_error("Not enough memory for a body of %ld bytes", content_length);
@@ -339,7 +339,7 @@ void handle_api_request(api_request *req, long content_length, char *multipart_b
 		}
 		req->form[0] = 0;
 		long formptr = 0;
-		for (int i = 0; i < content_length; i++)
+		for (long i = 0; i < content_length; i++)
 		{
 			if (http_read_char(req, &c) <= 0)
 			{
@@ -699,7 +699,7 @@ void accept_request(int socket)
 		/* Get content length */
 		if (startswith(buf, "Content-Length:"))
 		{
-			content_length = atoi(buf + strlen("Content-Length:"));
+			content_length = strtol(buf + strlen("Content-Length:"), NULL, 10);
 		}
 
 		// Get original IP if behind proxy
-- 
2.43.0


From 1bc316ed4ecc53718fa7ee2d793aad30fda07bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:16 +0000
Subject: [PATCH 77/86] fix: a signal handled during a read or write cut the
 request or the response

---
 http_utils.c | 44 ++++++++++++++++++++++++++++++--------------
 ws.c         | 15 ++++++++++++++-
 2 files changed, 44 insertions(+), 15 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index 3f5afb6..dd74ba6 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -46,14 +46,19 @@ bool WAYUU_SSL_ON = true;
 int http_read_char(api_request *req, char *c)
 {
 	int n;
-	if (WAYUU_SSL_ON)
+	// A signal that the application handles in the meantime is no reason to give up
+	do
 	{
-		n = SSL_read(req->ssl, c, 1);
-	}
-	else
-	{
-		n = recv(req->socket, c, 1, 0);
-	}
+		errno = 0;
+		if (WAYUU_SSL_ON)
+		{
+			n = SSL_read(req->ssl, c, 1);
+		}
+		else
+		{
+			n = recv(req->socket, c, 1, 0);
+		}
+	} while (n < 0 && errno == EINTR);
 	return n;
 }
 
@@ -262,14 +267,25 @@ void send_empty_line(api_request *req)
  */
 void http_print(api_request *req, void *data, int length)
 {
-	if (WAYUU_SSL_ON)
-	{
-		SSL_write(req->ssl, data, length);
-	}
-	else
+	// A signal that the application handles in the meantime ends a call early
+	int n;
+	do
 	{
-		send(req->socket, data, length, 0);
-	}
+		errno = 0;
+		if (WAYUU_SSL_ON)
+		{
+			n = SSL_write(req->ssl, data, length);
+		}
+		else
+		{
+			n = send(req->socket, data, length, 0);
+		}
+		if (n > 0)
+		{
+			data = (char *)data + n;
+			length -= n;
+		}
+	} while (length > 0 && (n > 0 || errno == EINTR));
 }
 
 /**
diff --git a/ws.c b/ws.c
index 17fb2f5..4c81883 100644
--- a/ws.c
+++ b/ws.c
@@ -18,6 +18,7 @@
 #include "ws.h"
 #include <arpa/inet.h>
 #include <ctype.h>
+#include <errno.h>
 #include <pthread.h>
 #include <signal.h>
 #include <sys/stat.h>
@@ -550,6 +551,18 @@ bool connection_add(int socket, char *IP, char *path)
 	return false;
 }
 
+/* A signal that the application handles in the meantime is no failure */
+static int ssl_handshake(SSL *ssl)
+{
+	int result;
+	do
+	{
+		errno = 0;
+		result = SSL_accept(ssl);
+	} while (result < 0 && errno == EINTR);
+	return result;
+}
+
 /**
  * accept_request: Main request handling routine. It performs initial parsing of structures,
  * generates api_request structure
@@ -580,7 +593,7 @@ void accept_request(int socket)
 		SSL_set_fd(ssl, socket);
 
 		req->ssl = ssl;
-		if (SSL_accept(ssl) <= 0)
+		if (ssl_handshake(ssl) <= 0)
 		{
 			log_warn("SSL connection failed from IP: %s\n", req->IP);
 			connection_close(req);
-- 
2.43.0


From 4c7a06e3d07d55c89648d26aeac264edb087a722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:16 +0000
Subject: [PATCH 78/86] fix: an address on the deny list was served when the
 list could not be opened

---
 file_utils.c | 15 +++++++++++----
 file_utils.h | 10 ++++++++++
 ws.c         |  3 ++-
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/file_utils.c b/file_utils.c
index c51786b..cd0b04f 100644
--- a/file_utils.c
+++ b/file_utils.c
@@ -24,26 +24,33 @@
 #include "string_utils.h"
 
 bool find_in_file(char *path, char *needle)
+{
+  return search_file(path, needle) == FILE_SEARCH_FOUND;
+}
+
+file_search search_file(char *path, char *needle)
 {
 
   if (!is_file(path))
   {
-    return false;
+    return FILE_SEARCH_NOT_FOUND;
   }
 
-  bool result = false;
+  file_search result = FILE_SEARCH_UNREADABLE;
 
   FILE *file = fopen(path, "rb");
   if (file)
   {
     char *line = NULL;
     size_t len = 0;
-    while (!result && getline(&line, &len, file) != -1)
+    while (result != FILE_SEARCH_FOUND && getline(&line, &len, file) != -1)
     {
       trim(line);
       if (!strcmp(line, needle))
-        result = true;
+        result = FILE_SEARCH_FOUND;
     }
+    if (result != FILE_SEARCH_FOUND && feof(file))
+      result = FILE_SEARCH_NOT_FOUND;
     free(line);
     fclose(file);
   }
diff --git a/file_utils.h b/file_utils.h
index d18bd41..d4ece0f 100644
--- a/file_utils.h
+++ b/file_utils.h
@@ -23,6 +23,16 @@
 
 bool check_createdir(char *path);
 bool find_in_file(char *path, char *needle);
+
+typedef enum
+{
+  FILE_SEARCH_NOT_FOUND,
+  FILE_SEARCH_FOUND,
+  // The file exists, but could not be read
+  FILE_SEARCH_UNREADABLE
+} file_search;
+
+file_search search_file(char *path, char *needle);
 bool is_dir(char *path);
 bool is_file(char *path);
 void read_file(char *out, char *path, uint64_t maxlen);
diff --git a/ws.c b/ws.c
index 4c81883..1f1002a 100644
--- a/ws.c
+++ b/ws.c
@@ -79,7 +79,8 @@ bool allowed_address(char *ip)
 		sprintf(WAYUU_WS_DENY, "%s/etc/deny", WAYUU_WS_ROOT);
 	}
 
-	if (find_in_file(WAYUU_WS_DENY, ip))
+	// Nobody is let in by a deny list that cannot be read for the moment
+	if (search_file(WAYUU_WS_DENY, ip) != FILE_SEARCH_NOT_FOUND)
 	{
 		return false;
 	}
-- 
2.43.0


From c9d64056b2e46ac930ba7001507d124fcfb9bf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:54 +0000
Subject: [PATCH 79/86] fix: messages logged after log_close_file() were
 written to the closed file

---
 log.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/log.c b/log.c
index f6c4dde..031e019 100644
--- a/log.c
+++ b/log.c
@@ -114,5 +114,9 @@ void log_set_file(char *filename)
 
 void log_close_file()
 {
-  fclose(LOG_FILE);
+  FILE *file = LOG_FILE;
+  // What is logged from now on goes to STDERR
+  LOG_FILE = NULL;
+  if (file)
+    fclose(file);
 }
-- 
2.43.0


From ff666d0dab80f881a3d73008995bf2147de862da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:23 +0000
Subject: [PATCH 80/86] fix: uploads and parts of more than 2 GB crashed the
 server

Lengths of multipart parts, of the blocks written and digested for them and of
the texts trimmed were counted in an int, and joined with printf() functions,
which are limited to INT_MAX.
---
 file_utils.c   |  4 ++--
 file_utils.h   |  2 +-
 router.c       |  5 ++++-
 string_utils.c | 10 +++++-----
 string_utils.h |  2 +-
 ws.c           |  8 +++++---
 6 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/file_utils.c b/file_utils.c
index cd0b04f..108e431 100644
--- a/file_utils.c
+++ b/file_utils.c
@@ -119,9 +119,9 @@ void read_file(char *out, char *path, uint64_t maxlen)
   }
 }
 
-void write_file(char *filename, char *ptr, int size)
+void write_file(char *filename, char *ptr, long size)
 {
-  log_debug("write_file(filename=%s, size=%d)", filename, size);
+  log_debug("write_file(filename=%s, size=%ld)", filename, size);
   if (is_file(filename))
   {
     remove(filename);
diff --git a/file_utils.h b/file_utils.h
index d4ece0f..f3d04a7 100644
--- a/file_utils.h
+++ b/file_utils.h
@@ -36,5 +36,5 @@ file_search search_file(char *path, char *needle);
 bool is_dir(char *path);
 bool is_file(char *path);
 void read_file(char *out, char *path, uint64_t maxlen);
-void write_file(char *filename, char *ptr, int size);
+void write_file(char *filename, char *ptr, long size);
 #endif
\ No newline at end of file
diff --git a/router.c b/router.c
index 74cfe96..cc99868 100644
--- a/router.c
+++ b/router.c
@@ -153,7 +153,10 @@ void router_handle_request(api_request *request)
       else
       {
         char *form = request->form;
-        asprintf(&request->form, "%s&%s", form, qs);
+        request->form = malloc(strlen(form) + strlen(qs) + 2);
+        strcpy(request->form, form);
+        strcat(request->form, "&");
+        strcat(request->form, qs);
         free(form);
       }
       free(qs);
diff --git a/string_utils.c b/string_utils.c
index 26cb12a..d66c0f4 100644
--- a/string_utils.c
+++ b/string_utils.c
@@ -27,8 +27,8 @@
 
 void chop_string(char *data)
 {
-  int len = strlen(data);
-  for (int i = 0; i < len; i++)
+  long len = strlen(data);
+  for (long i = 0; i < len; i++)
   {
     if ((unsigned char)data[i] <= 34)
     {
@@ -40,10 +40,10 @@ void chop_string(char *data)
 
 void trim(char *str)
 {
-  int i = 0;
+  long i = 0;
 
   /* Left trim */
-  int len = strlen(str);
+  long len = strlen(str);
   for (i = 0; i < len; i++)
     if (!isspace(str[i]))
       break;
@@ -91,7 +91,7 @@ char *ltrim(const char *str, char sep)
   return strdup(str);
 }
 
-void md5sum(char *out, char *data, int len)
+void md5sum(char *out, char *data, long len)
 {
   int i;
   EVP_MD_CTX *mdctx;
diff --git a/string_utils.h b/string_utils.h
index 43d7872..582028a 100644
--- a/string_utils.h
+++ b/string_utils.h
@@ -38,7 +38,7 @@ typedef struct str_list_t
 /**
  * md5sum: Returns a hex representation of the MD5 of the input 'data' string.
  */
-void md5sum(char *out, char *data, int len);
+void md5sum(char *out, char *data, long len);
 void trim(char *str);
 /**
  * rtrim: Returns a subtring of the original string until the first occurrence of the character 'sep'.
diff --git a/ws.c b/ws.c
index 1f1002a..48c027b 100644
--- a/ws.c
+++ b/ws.c
@@ -225,7 +225,9 @@ void part_parse(char *IP, char *tmpfields, char *tmpdata, long length)
 			{
 				char *value = calloc(actuallength + 1, 1);
 				memcpy(value, tmpdata + data_start, actuallength - data_start - 2);
-				sprintf(tmpfields + strlen(tmpfields), "%s=%s", field, value);
+				tmpfields += strlen(tmpfields);
+				sprintf(tmpfields, "%s=", field);
+				strcat(tmpfields, value);
 				free(value);
 			}
 		}
@@ -240,7 +242,7 @@ void part_parse(char *IP, char *tmpfields, char *tmpdata, long length)
  */
 void save_tmp_file(char *tmpfields, char *field, long start_file, char *tmpdata, long data_start, long actuallength)
 {
-	log_debug("save_tmp_file, start_file: %d, data_start: %d, actuallength: %d", start_file, data_start, actuallength);
+	log_debug("save_tmp_file, start_file: %ld, data_start: %ld, actuallength: %ld", start_file, data_start, actuallength);
 	char orig_filename[MAX_ORIG_FILENAME];
 	strncpy(orig_filename, tmpdata + start_file, MAX_ORIG_FILENAME);
 	// Add string termination to last character to prevent strlen errors.
@@ -298,7 +300,7 @@ char *multipart_parse(char *form, char *IP, char *multipart_boundary, long conte
 		if (part_end < 0)
 			break;
 
-		int tmppart_len = part_end - part_start - strlen(multipart_boundary);
+		long tmppart_len = part_end - part_start - strlen(multipart_boundary);
 		memcpy(tmppart, form + part_start, tmppart_len);
 		tmppart[tmppart_len] = 0;
 
-- 
2.43.0


From 602801c98cbc1187ce49045686b4eb8daa347dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:10 +0000
Subject: [PATCH 81/86] fix: texts of 4 GB and more (2 GB over TLS) were cut,
 and responses of 4 GB recorded with a wrong length

Lengths were counted in an int or uint32_t between the helpers, http_print()
and the access log.
---
 http_utils.c | 15 ++++++++-------
 http_utils.h |  6 +++---
 wayuu_log.c  |  3 ++-
 3 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index dd74ba6..2fa1145 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -21,6 +21,7 @@
 #endif
 #include <arpa/inet.h>
 #include <errno.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -234,10 +235,10 @@ int direct_file(api_request *req, char *filename)
 /**
  * send_stream: Read from file until end and streams response until end. It doesn't send any HTTP headers.
  */
-int send_stream(api_request *req, FILE *fp)
+long send_stream(api_request *req, FILE *fp)
 {
 	char buf[1024];
-	int len = 0;
+	long len = 0;
 	while (fgets(buf, sizeof(buf) - 1, fp) != NULL)
 	{
 		int s = strlen(buf);
@@ -265,16 +266,16 @@ void send_empty_line(api_request *req)
  * - data: void buffer, not necesarily char pointer
  * - length: length of the data sent. Required because this function should work with binary data as well as strings.
  */
-void http_print(api_request *req, void *data, int length)
+void http_print(api_request *req, void *data, long length)
 {
 	// A signal that the application handles in the meantime ends a call early
-	int n;
+	long n;
 	do
 	{
 		errno = 0;
 		if (WAYUU_SSL_ON)
 		{
-			n = SSL_write(req->ssl, data, length);
+			n = SSL_write(req->ssl, data, length > INT_MAX ? INT_MAX : length);
 		}
 		else
 		{
@@ -350,7 +351,7 @@ int return_headers_with_mime(api_request *req, int status, char *mime)
 
 void return_json_stream(api_request *req, int status, FILE *fp)
 {
-	int len = return_json_headers(req, status);
+	long len = return_json_headers(req, status);
 	char buf[1024];
 	strcpy(buf, "\r\n");
 	http_print(req, buf, strlen(buf));
@@ -361,7 +362,7 @@ void return_json_stream(api_request *req, int status, FILE *fp)
 
 void return_json_with_status(api_request *req, int status, char *data)
 {
-	int len = return_json_headers(req, status);
+	long len = return_json_headers(req, status);
 
 	char buf[1024];
 	sprintf(buf, "Content-Length: %zu\r\n\r\n", strlen(data) + 2);
diff --git a/http_utils.h b/http_utils.h
index 33e4df0..cb283eb 100644
--- a/http_utils.h
+++ b/http_utils.h
@@ -124,7 +124,7 @@ typedef struct api_request
   char *session;
   char *request_line;       // The full request line (e.g. GET /index.html HTTP/1.1)
   uint64_t request_start;   // Start time in epoch milliseconds
-  uint32_t response_length; // Length in bytes of the response
+  uint64_t response_length; // Length in bytes of the response
 } api_request;
 
 
@@ -168,10 +168,10 @@ void return_json(api_request *req, char *data);
 void return_json_list(api_request *req, json_list_t list);
 void return_json_with_status(api_request *req, int status, char *data);
 void return_json_stream(api_request *req, int status, FILE *fp);
-void http_print(api_request *req, void *data, int length);
+void http_print(api_request *req, void *data, long length);
 void http_print_str(api_request *req, char *data);
 int direct_file(api_request *req, char *filename);
-int send_stream(api_request *req, FILE *fp);
+long send_stream(api_request *req, FILE *fp);
 void send_empty_line(api_request *req);
 
 // Helper methods for returning HTTP Status
diff --git a/wayuu_log.c b/wayuu_log.c
index d847c88..0f7ee44 100644
--- a/wayuu_log.c
+++ b/wayuu_log.c
@@ -24,6 +24,7 @@
 #include <string.h>
 #include <sys/time.h>
 #include <time.h>
+#include <inttypes.h>
 #include <stdint.h>
 
 #include "router.h"
@@ -46,7 +47,7 @@ void log_access(api_request *req, int status)
   FILE *fp = fopen(WAYUU_ANALYTICS_LOG, "a");
   if (fp != NULL)
   {
-    fprintf(fp, "%s - - [%s] \"%s\" %d %u \"%s\" \"%s\" %.3f\n", req->IP, ts, req->request_line, status, req->response_length, referer, ua, response_time(req));
+    fprintf(fp, "%s - - [%s] \"%s\" %d %" PRIu64 " \"%s\" \"%s\" %.3f\n", req->IP, ts, req->request_line, status, req->response_length, referer, ua, response_time(req));
     fclose(fp);
   }
   free(ts);
-- 
2.43.0


From f62a793424b9d20035b7fac34dc8d33a79e5cc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:10 +0000
Subject: [PATCH 82/86] fix: lists and values of 2 GB and more crashed the JSON
 builders

The size of a list was counted in an int, also when joining its texts, and a
key and value were joined by one sprintf(), which is limited to INT_MAX.
---
 json_utils.c   | 7 +++++--
 string_utils.c | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/json_utils.c b/json_utils.c
index f0526d3..09e9edc 100644
--- a/json_utils.c
+++ b/json_utils.c
@@ -72,7 +72,7 @@ char *json_array_of_strings(char **array, int size)
     return strdup("[]");
   }
   // calculate size of string
-  int string_size = strlen(JSON_ARRAY_STR_BEGIN) + strlen(JSON_ARRAY_STR_END) + n_strings * strlen(JSON_ARRAY_STR_SEP) + 2;
+  size_t string_size = strlen(JSON_ARRAY_STR_BEGIN) + strlen(JSON_ARRAY_STR_END) + n_strings * strlen(JSON_ARRAY_STR_SEP) + 2;
   for (int i = 0; i < n_strings; i++)
   {
     string_size += strlen(escaped[i]);
@@ -128,7 +128,10 @@ char *json_key_value(char *key, char *value)
   char *key_json = json_escape(key);
   char *value_json = json_escape(value ? value : "");
   char *json = calloc(1, strlen(key_json) + strlen(value_json) + 15);
-  sprintf(json, "\"%s\":\"%s\"", key_json, value_json);
+  // Not in one sprintf(), which is limited to INT_MAX
+  char *end = json + sprintf(json, "\"%s\":\"", key_json);
+  strcpy(end, value_json);
+  strcat(end, "\"");
   free(key_json);
   free(value_json);
   return json;
diff --git a/string_utils.c b/string_utils.c
index d66c0f4..a698591 100644
--- a/string_utils.c
+++ b/string_utils.c
@@ -143,7 +143,7 @@ char *join(char **array, int size, char *delim)
   {
     return strdup(array[0]);
   }
-  int str_len = 0;
+  size_t str_len = 0;
   for (int i = 0; i < size; i++)
   {
     if (array[i] != NULL)
-- 
2.43.0


From 83b19b5aa500fc7d6b0de685ec539e4aa34d7e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:10 +0000
Subject: [PATCH 83/86] fix: write_conf() reported success when the file could
 not be written whole

---
 conf_parser.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/conf_parser.c b/conf_parser.c
index c2bfb53..0915adf 100644
--- a/conf_parser.c
+++ b/conf_parser.c
@@ -252,8 +252,17 @@ int write_conf(void *input, conf_serializer serializer)
     fprintf(file, "%s\n", itemString);
     free(itemString);
   }
+  bool failed = ferror(file);
+  // What is left in the buffer is written here
+  if (fclose(file) != 0 || failed)
+  {
+    char errorString[120];
+    snprintf(errorString, sizeof(errorString), "Unable to write file %s", s->path);
+    perror(errorString);
+    free_serializable(s);
+    return -1;
+  }
   free_serializable(s);
-  fclose(file);
   return 0;
 }
 
-- 
2.43.0


From f4e578116e420f4e67dcebf970fe15414deea3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:10 +0000
Subject: [PATCH 84/86] fix: write_file() did not log that a file could not be
 written whole

---
 file_utils.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/file_utils.c b/file_utils.c
index 108e431..9921599 100644
--- a/file_utils.c
+++ b/file_utils.c
@@ -132,10 +132,10 @@ void write_file(char *filename, char *ptr, long size)
     log_error("There was an error opening file: %s", filename);
     return;
   }
-  size_t written = fwrite(ptr, 1, size, f);
-  if (written < 0)
+  bool failed = fwrite(ptr, 1, size, f) != size;
+  // What is left in the buffer is written here
+  if (fclose(f) != 0 || failed)
   {
     log_error("There was an error writing file: %s", filename);
   }
-  fclose(f);
 }
-- 
2.43.0


From 52427dd53bfd63198e650749cbf573b1b1b09547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:46 +0000
Subject: [PATCH 85/86] fix: return_response() failed with data of 2 GB and
 more

---
 http_utils.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index 2fa1145..6836d84 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -570,7 +570,6 @@ char *return_response(call_response_t rsp)
 	char *aux;
 	char *aux_err = NULL;
 	char *aux_txt = NULL;
-	char *aux_additional_info = NULL;
 	char *aux_description = NULL;
 
 	if (rsp.status == -1)
@@ -594,19 +593,19 @@ char *return_response(call_response_t rsp)
 		free(description_json);
 	}
 
-	if (rsp.additional_info != NULL)
-		asprintf(&aux_additional_info, ",\"data\":%s", rsp.additional_info);
-	else
-		asprintf(&aux_additional_info, ",\"data\":%s", "\"\"");
-
-	asprintf(&aux, "{%s%s%s%s}", aux_err, (aux_txt ? aux_txt : ""), (aux_description ? aux_description : ""), (aux_additional_info ? aux_additional_info : ""));
+	char *head;
+	asprintf(&head, "{%s%s%s,\"data\":", aux_err, (aux_txt ? aux_txt : ""), (aux_description ? aux_description : ""));
+	// The data is not limited to INT_MAX as asprintf() is
+	char *data = rsp.additional_info != NULL ? rsp.additional_info : "\"\"";
+	aux = malloc(strlen(head) + strlen(data) + 2);
+	strcpy(aux, head);
+	strcat(aux, data);
+	strcat(aux, "}");
+	free(head);
 
 	if (aux_err)
 		free(aux_err);
 
-	if (aux_additional_info)
-		free(aux_additional_info);
-
 	if (aux_description)
 		free(aux_description);
 
-- 
2.43.0


From 5e1098fa05511f4116081b7df3b6249f3cdaa2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:11 +0000
Subject: [PATCH 86/86] fix: a form or route parameter too large for the
 available memory crashed the server

---
 router.c |  8 ++++++++
 ws.c     | 33 +++++++++++++++++++++++----------
 ws.h     |  2 +-
 3 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/router.c b/router.c
index cc99868..8d80847 100644
--- a/router.c
+++ b/router.c
@@ -154,6 +154,14 @@ void router_handle_request(api_request *request)
       {
         char *form = request->form;
         request->form = malloc(strlen(form) + strlen(qs) + 2);
+        if (!request->form)
+        {
+          log_error("Not enough memory for a form of %zu bytes", strlen(form));
+          request->form = form;
+          free(qs);
+          internal_server_error(request);
+          return;
+        }
         strcpy(request->form, form);
         strcat(request->form, "&");
         strcat(request->form, qs);
diff --git a/ws.c b/ws.c
index 48c027b..71f9014 100644
--- a/ws.c
+++ b/ws.c
@@ -183,7 +183,8 @@ void configure_context(SSL_CTX *ctx)
 	}
 }
 
-void part_parse(char *IP, char *tmpfields, char *tmpdata, long length)
+/* Returns false if there is not enough memory for it */
+bool part_parse(char *IP, char *tmpfields, char *tmpdata, long length)
 {
 
 	long actuallength = length;
@@ -196,12 +197,14 @@ void part_parse(char *IP, char *tmpfields, char *tmpdata, long length)
 	if (start < 1)
 	{
 		log_warn("IP:%s Multipart error: Form-data not found ", IP);
-		return;
+		return true;
 	}
 
 	if (strlen(tmpdata + start) > 0)
 	{
 		char *field = calloc(actuallength + 1, 1);
+		if (!field)
+			return false;
 		long bytes = actuallength - start;
 
 		memcpy(field, tmpdata + start, bytes);
@@ -223,17 +226,15 @@ void part_parse(char *IP, char *tmpfields, char *tmpdata, long length)
 			/* It is a form field: Save field value */
 			else
 			{
-				char *value = calloc(actuallength + 1, 1);
-				memcpy(value, tmpdata + data_start, actuallength - data_start - 2);
 				tmpfields += strlen(tmpfields);
 				sprintf(tmpfields, "%s=", field);
-				strcat(tmpfields, value);
-				free(value);
+				strncat(tmpfields, tmpdata + data_start, actuallength - data_start - 2);
 			}
 		}
 
 		free(field);
 	}
+	return true;
 }
 
 // TODO: Make this work for multiple file downloads
@@ -277,7 +278,7 @@ void save_tmp_file(char *tmpfields, char *field, long start_file, char *tmpdata,
 	sprintf(tmpfields + strlen(tmpfields), "%s=%s&tmpfile=%s", field, orig_filename, tmpfile);
 }
 
-/* Returns a new string with the fields of the form */
+/* Returns a new string with the fields of the form, NULL if there is not enough memory for it */
 char *multipart_parse(char *form, char *IP, char *multipart_boundary, long content_length)
 {
 
@@ -285,12 +286,13 @@ char *multipart_parse(char *form, char *IP, char *multipart_boundary, long conte
 	/* A file part turns into its name, the original file name and a temporary file name,
 	   and takes more than 33 bytes in the form (headers only): its result is at most 3 times longer. */
 	char *tmpfields = calloc(3 * content_length + 1, 1);
+	bool failed = !tmppart || !tmpfields;
 
 	long ptr = 0;
 	long part_start;
 	long part_end;
 
-	while (ptr < content_length)
+	while (!failed && ptr < content_length)
 	{
 
 		part_start = text_find_after(form, multipart_boundary, ptr, content_length);
@@ -304,13 +306,18 @@ char *multipart_parse(char *form, char *IP, char *multipart_boundary, long conte
 		memcpy(tmppart, form + part_start, tmppart_len);
 		tmppart[tmppart_len] = 0;
 
-		part_parse(IP, tmpfields, tmppart, tmppart_len);
+		failed = !part_parse(IP, tmpfields, tmppart, tmppart_len);
 
 		trim(tmppart);
 		ptr = part_start + 1;
 	}
 
 	free(tmppart);
+	if (failed)
+	{
+		free(tmpfields);
+		return NULL;
+	}
 	return tmpfields;
 }
 
@@ -359,7 +366,13 @@ void handle_api_request(api_request *req, long content_length, char *multipart_b
 		{
 			char *fields = multipart_parse(req->form, req->IP, multipart_boundary, content_length);
 			free(req->form);
-			req->form = fields;
+			req->form = fields ? fields : NO_TEXT;
+			if (!fields)
+			{
+				log_error("Not enough memory for a form of %ld bytes", content_length);
+				internal_server_error(req);
+				return;
+			}
 		}
 	}
 	char *form = req->form;
diff --git a/ws.h b/ws.h
index f3c0cdb..6f24c41 100644
--- a/ws.h
+++ b/ws.h
@@ -98,7 +98,7 @@ void handle_static_routes(api_request *req);
 /**
  * part_parse: Handles parsing each of the parts of a multipart POST
  */
-void part_parse(char *IP, char *tmpfields, char *tmpdata, long length);
+bool part_parse(char *IP, char *tmpfields, char *tmpdata, long length);
 
 /**
  * save_tmp_file: Saves a file into SCAN_TMP_DIR, and stores the file name in tmpfields as well as the original filename
-- 
2.43.0

