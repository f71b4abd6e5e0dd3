From 7cf480c4347186ddfdcbf2b73b5274e32df33fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:27 +0000
Subject: [PATCH 01/61] fix: decode reply codes without an extended code and
 multi-line replies

A reply such as "450 try later" was decoded as extended code "try", which
is refused later, so that the SMTP command was never answered.
---
 milter/core/milter-reply-decoder.c | 107 ++++++++++++++++++++++-------
 1 file changed, 83 insertions(+), 24 deletions(-)

diff --git a/milter/core/milter-reply-decoder.c b/milter/core/milter-reply-decoder.c
index bceca6b..7a42729 100644
--- a/milter/core/milter-reply-decoder.c
+++ b/milter/core/milter-reply-decoder.c
@@ -144,29 +144,96 @@ decode_reply_continue (MilterDecoder *decoder, GError **error)
     return TRUE;
 }
 
-static gint
-find_space_character (const gchar *buffer, gint length)
+static gsize
+extended_code_length (const gchar *buffer, gchar klass)
+{
+    gsize i, n_digits, n_parts = 0;
+
+    if (buffer[0] != klass || buffer[1] != '.')
+        return 0;
+
+    for (i = 2, n_digits = 0; TRUE; i++) {
+        if (g_ascii_isdigit(buffer[i])) {
+            n_digits++;
+            if (n_digits > 3)
+                return 0;
+        } else {
+            if (n_digits == 0)
+                return 0;
+            n_parts++;
+            if (n_parts == 2)
+                break;
+            if (buffer[i] != '.')
+                return 0;
+            n_digits = 0;
+        }
+    }
+
+    if (buffer[i] != '\0' && buffer[i] != ' ' &&
+        buffer[i] != '\r' && buffer[i] != '\n')
+        return 0;
+    return i;
+}
+
+/*
+ * Takes the text of each line. All lines have the same "CODE" and
+ * "EXTENDED-CODE" prefix:
+ *   CODE(-| )[EXTENDED-CODE ]TEXT\r\nCODE(-| )[EXTENDED-CODE ]TEXT...
+ */
+static gchar *
+decode_reply_code_message (const gchar *buffer, const gchar *extended_code)
 {
+    gchar **lines, *message;
+    gsize extended_code_size = 0;
     gint i;
 
-    for (i = 0; i < length; i++) {
-        if (buffer[i] == ' ')
-            return i;
+    if (extended_code)
+        extended_code_size = strlen(extended_code);
+
+    lines = g_strsplit(buffer, "\n", -1);
+    for (i = 0; lines[i]; i++) {
+        gchar *text = lines[i];
+        gsize size;
+
+        if (strncmp(text, buffer, 3) == 0) {
+            text += 3;
+            if (text[0] == ' ' || text[0] == '-')
+                text++;
+            if (extended_code &&
+                strncmp(text, extended_code, extended_code_size) == 0) {
+                text += extended_code_size;
+                if (text[0] == ' ')
+                    text++;
+            }
+        }
+        size = strlen(text);
+        if (size > 0 && text[size - 1] == '\r')
+            text[size - 1] = '\0';
+        text = g_strdup(text);
+        g_free(lines[i]);
+        lines[i] = text;
     }
+    message = g_strjoinv("\n", lines);
+    g_strfreev(lines);
 
-    return -1;
+    if (message[0] == '\0') {
+        g_free(message);
+        return NULL;
+    }
+    return message;
 }
 
 static gboolean
 decode_reply_reply_code (MilterDecoder *decoder, GError **error)
 {
     gint null_character_point;
-    gint space_character_point;
     const gchar *buffer;
     gint32 command_length;
     gchar *reply_code_str;
-    gchar *extended_code;
-    gchar *message = NULL;
+    gchar *extended_code = NULL;
+    gsize extended_code_size;
+    const gchar *rest;
+    gchar *message;
     guint reply_code;
 
     command_length = milter_decoder_get_command_length(decoder);
@@ -205,21 +272,13 @@ decode_reply_reply_code (MilterDecoder *decoder, GError **error)
     if (null_character_point <= 0)
         return FALSE;
 
-    buffer += 3;
-    command_length -= 3;
-    if (buffer[0] == ' ') {
-        buffer++;
-        command_length--;
-    }
-
-    space_character_point = find_space_character(buffer, command_length);
-
-    if (space_character_point <0) {
-        extended_code = g_strdup(buffer);
-    } else {
-        extended_code = g_strndup(buffer, space_character_point);
-        message = g_strdup(buffer + space_character_point + 1);
-    }
+    rest = buffer + 3;
+    if (rest[0] == ' ' || rest[0] == '-')
+        rest++;
+    extended_code_size = extended_code_length(rest, buffer[0]);
+    if (extended_code_size > 0)
+        extended_code = g_strndup(rest, extended_code_size);
+    message = decode_reply_code_message(buffer, extended_code);
 
     milter_debug("[%u] [reply-decoder][reply-code] <%u %s %s>",
                  milter_decoder_get_tag(decoder),
-- 
2.43.0


From ea5af080d81acd18968203ebf351f204e6414ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:27 +0000
Subject: [PATCH 02/61] fix: a reply code without message is one line

---
 milter/core/milter-utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/milter/core/milter-utils.c b/milter/core/milter-utils.c
index 2cfd56e..0221343 100644
--- a/milter/core/milter-utils.c
+++ b/milter/core/milter-utils.c
@@ -385,7 +385,7 @@ milter_utils_format_reply_code (guint reply_code,
         return NULL;
 
     if (!reply_message)
-        reply_message = "\n";
+        reply_message = "";
     messages = g_strsplit(reply_message, "\n", -1);
 
     original_messages = messages;
-- 
2.43.0


From 41ee1c3f9a186c9357e169b0f3077f759ef99cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:27 +0000
Subject: [PATCH 03/61] fix: use the reply set by set_reply only for its own
 response and class

---
 milter/client/milter-client-context.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/milter/client/milter-client-context.c b/milter/client/milter-client-context.c
index a1f824c..8ba6cb8 100644
--- a/milter/client/milter-client-context.c
+++ b/milter/client/milter-client-context.c
@@ -3288,13 +3288,29 @@ milter_client_context_reset_message_related_data (MilterClientContext *context)
     dispose_message_result(priv);
 }
 
+static void
+clear_reply (MilterClientContextPrivate *priv)
+{
+    priv->reply_code = 0;
+    if (priv->extended_reply_code) {
+        g_free(priv->extended_reply_code);
+        priv->extended_reply_code = NULL;
+    }
+    if (priv->reply_message) {
+        g_free(priv->reply_message);
+        priv->reply_message = NULL;
+    }
+}
+
 static void
 create_reply_packet (MilterClientContext *context, MilterStatus status,
                      const gchar **packet, gsize *packet_size)
 {
+    MilterClientContextPrivate *priv;
     MilterEncoder *encoder;
     MilterReplyEncoder *reply_encoder;
 
+    priv = MILTER_CLIENT_CONTEXT_GET_PRIVATE(context);
     encoder = milter_agent_get_encoder(MILTER_AGENT(context));
     reply_encoder = MILTER_REPLY_ENCODER(encoder);
 
@@ -3306,9 +3322,12 @@ create_reply_packet (MilterClientContext *context, MilterStatus status,
     case MILTER_STATUS_TEMPORARY_FAILURE:
     case MILTER_STATUS_REJECT:
     {
-        gchar *code;
+        gchar *code = NULL;
+        guint reply_code_class;
 
-        code = milter_client_context_format_reply(context);
+        reply_code_class = status == MILTER_STATUS_TEMPORARY_FAILURE ? 4 : 5;
+        if (priv->reply_code / 100 == reply_code_class)
+            code = milter_client_context_format_reply(context);
         if (code) {
             milter_reply_encoder_encode_reply_code(reply_encoder,
                                                    packet, packet_size,
@@ -3338,6 +3357,10 @@ create_reply_packet (MilterClientContext *context, MilterStatus status,
     default:
         break;
     }
+
+    /* The reply set by milter_client_context_set_reply() is only for
+     * this response. */
+    clear_reply(priv);
 }
 
 static gboolean
-- 
2.43.0


From 20b0eabfd5e3217445139ddde3520aa1a95d7438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:51 +0000
Subject: [PATCH 04/61] fix: reply a command only once when no milter can
 process it

---
 milter/manager/milter-manager-leader.c | 83 +++++++++++++++-----------
 1 file changed, 48 insertions(+), 35 deletions(-)

diff --git a/milter/manager/milter-manager-leader.c b/milter/manager/milter-manager-leader.c
index c59cf48..a1ab16c 100644
--- a/milter/manager/milter-manager-leader.c
+++ b/milter/manager/milter-manager-leader.c
@@ -416,7 +416,6 @@ state_to_response_signal_name (MilterManagerLeaderState state)
         signal_name = "end-of-header-response";
         break;
       case MILTER_MANAGER_LEADER_STATE_BODY:
-      case MILTER_MANAGER_LEADER_STATE_BODY_REPLIED:
         signal_name = "body-response";
         break;
       case MILTER_MANAGER_LEADER_STATE_END_OF_MESSAGE:
@@ -522,6 +521,43 @@ cb_negotiate_reply (MilterServerContext *context, MilterOption *option,
                           option, macros_requests, MILTER_STATUS_CONTINUE);
 }
 
+static gboolean
+is_replied_state (MilterManagerLeaderState state)
+{
+    switch (state) {
+      case MILTER_MANAGER_LEADER_STATE_NEGOTIATE:
+      case MILTER_MANAGER_LEADER_STATE_CONNECT:
+      case MILTER_MANAGER_LEADER_STATE_HELO:
+      case MILTER_MANAGER_LEADER_STATE_ENVELOPE_FROM:
+      case MILTER_MANAGER_LEADER_STATE_ENVELOPE_RECIPIENT:
+      case MILTER_MANAGER_LEADER_STATE_DATA:
+      case MILTER_MANAGER_LEADER_STATE_UNKNOWN:
+      case MILTER_MANAGER_LEADER_STATE_HEADER:
+      case MILTER_MANAGER_LEADER_STATE_END_OF_HEADER:
+      case MILTER_MANAGER_LEADER_STATE_BODY:
+      case MILTER_MANAGER_LEADER_STATE_END_OF_MESSAGE:
+      case MILTER_MANAGER_LEADER_STATE_QUIT:
+      case MILTER_MANAGER_LEADER_STATE_ABORT:
+        return FALSE;
+      default:
+        return TRUE;
+        break;
+    }
+}
+static MilterStatus
+fallback (MilterManagerLeader *leader)
+{
+    MilterManagerLeaderPrivate *priv;
+
+    priv = MILTER_MANAGER_LEADER_GET_PRIVATE(leader);
+    /* The command may have been replied by a signal of children. */
+    if (is_replied_state(priv->state))
+        return MILTER_STATUS_PROGRESS;
+
+    priv->state = next_state(leader, priv->state);
+    return milter_manager_configuration_get_fallback_status(priv->configuration);
+}
+
 static void
 reply (MilterManagerLeader *leader, MilterStatus status)
 {
@@ -1018,7 +1054,7 @@ milter_manager_leader_negotiate (MilterManagerLeader *leader,
                                           macros_requests)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback(leader);
     }
 }
 
@@ -1043,7 +1079,7 @@ milter_manager_leader_connect (MilterManagerLeader *leader,
                                         address, address_length)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback(leader);
     }
 }
 
@@ -1064,7 +1100,7 @@ milter_manager_leader_helo (MilterManagerLeader *leader, const gchar *fqdn)
     if (milter_manager_children_helo(priv->children, fqdn)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback(leader);
     }
 }
 
@@ -1086,7 +1122,7 @@ milter_manager_leader_envelope_from (MilterManagerLeader *leader,
     if (milter_manager_children_envelope_from(priv->children, from)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback(leader);
     }
 }
 
@@ -1108,7 +1144,7 @@ milter_manager_leader_envelope_recipient (MilterManagerLeader *leader,
     if (milter_manager_children_envelope_recipient(priv->children, recipient)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback(leader);
     }
 }
 
@@ -1129,7 +1165,7 @@ milter_manager_leader_data (MilterManagerLeader *leader)
     if (milter_manager_children_data(priv->children)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback(leader);
     }
 }
 
@@ -1151,7 +1187,7 @@ milter_manager_leader_unknown (MilterManagerLeader *leader,
     if (milter_manager_children_unknown(priv->children, command)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback(leader);
     }
 }
 
@@ -1173,7 +1209,7 @@ milter_manager_leader_header (MilterManagerLeader *leader,
     if (milter_manager_children_header(priv->children, name, value)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback(leader);
     }
 }
 
@@ -1194,7 +1230,7 @@ milter_manager_leader_end_of_header (MilterManagerLeader *leader)
     if (milter_manager_children_end_of_header(priv->children)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback(leader);
     }
 }
 
@@ -1216,33 +1252,10 @@ milter_manager_leader_body (MilterManagerLeader *leader,
     if (milter_manager_children_body(priv->children, chunk, size)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback(leader);
     }
 }
 
-static gboolean
-is_replied_state (MilterManagerLeaderState state)
-{
-    switch (state) {
-      case MILTER_MANAGER_LEADER_STATE_NEGOTIATE:
-      case MILTER_MANAGER_LEADER_STATE_CONNECT:
-      case MILTER_MANAGER_LEADER_STATE_HELO:
-      case MILTER_MANAGER_LEADER_STATE_ENVELOPE_FROM:
-      case MILTER_MANAGER_LEADER_STATE_ENVELOPE_RECIPIENT:
-      case MILTER_MANAGER_LEADER_STATE_DATA:
-      case MILTER_MANAGER_LEADER_STATE_UNKNOWN:
-      case MILTER_MANAGER_LEADER_STATE_HEADER:
-      case MILTER_MANAGER_LEADER_STATE_END_OF_HEADER:
-      case MILTER_MANAGER_LEADER_STATE_BODY:
-      case MILTER_MANAGER_LEADER_STATE_END_OF_MESSAGE:
-      case MILTER_MANAGER_LEADER_STATE_QUIT:
-      case MILTER_MANAGER_LEADER_STATE_ABORT:
-        return FALSE;
-      default:
-        return TRUE;
-        break;
-    }
-}
 
 MilterStatus
 milter_manager_leader_end_of_message (MilterManagerLeader *leader,
@@ -1267,7 +1280,7 @@ milter_manager_leader_end_of_message (MilterManagerLeader *leader,
     if (milter_manager_children_end_of_message(priv->children, chunk, size)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback(leader);
     }
 }
 
-- 
2.43.0


From 3eecebce2f016b7b0fdaa8368775117d14255af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:51 +0000
Subject: [PATCH 05/61] fix: reply a command even if the milter's reply code is
 unusable

---
 milter/manager/milter-manager-leader.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/milter/manager/milter-manager-leader.c b/milter/manager/milter-manager-leader.c
index a1ab16c..5b245a5 100644
--- a/milter/manager/milter-manager-leader.c
+++ b/milter/manager/milter-manager-leader.c
@@ -626,7 +626,6 @@ cb_reply_code (MilterReplySignals *_reply,
         milter_error_emittable_emit(MILTER_ERROR_EMITTABLE(leader),
                                     error);
         g_error_free(error);
-        return;
     }
 
     if ((code / 100) == 4) {
-- 
2.43.0


From 4acccb52eadf13ec30a84c405936b6ca0911ab57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:37 +0000
Subject: [PATCH 06/61] fix: don't reply to commands whose reply is waived by
 negotiation

---
 milter/manager/milter-manager-leader.c | 55 +++++++++++++++++++++++++-
 1 file changed, 54 insertions(+), 1 deletion(-)

diff --git a/milter/manager/milter-manager-leader.c b/milter/manager/milter-manager-leader.c
index 5b245a5..643458d 100644
--- a/milter/manager/milter-manager-leader.c
+++ b/milter/manager/milter-manager-leader.c
@@ -544,18 +544,69 @@ is_replied_state (MilterManagerLeaderState state)
         break;
     }
 }
+static gboolean
+is_reply_needed (MilterManagerLeader *leader)
+{
+    MilterManagerLeaderPrivate *priv;
+    MilterOption *option = NULL;
+    MilterStepFlags no_reply_step;
+
+    priv = MILTER_MANAGER_LEADER_GET_PRIVATE(leader);
+    switch (priv->state) {
+    case MILTER_MANAGER_LEADER_STATE_CONNECT:
+        no_reply_step = MILTER_STEP_NO_REPLY_CONNECT;
+        break;
+    case MILTER_MANAGER_LEADER_STATE_HELO:
+        no_reply_step = MILTER_STEP_NO_REPLY_HELO;
+        break;
+    case MILTER_MANAGER_LEADER_STATE_ENVELOPE_FROM:
+        no_reply_step = MILTER_STEP_NO_REPLY_ENVELOPE_FROM;
+        break;
+    case MILTER_MANAGER_LEADER_STATE_ENVELOPE_RECIPIENT:
+        no_reply_step = MILTER_STEP_NO_REPLY_ENVELOPE_RECIPIENT;
+        break;
+    case MILTER_MANAGER_LEADER_STATE_DATA:
+        no_reply_step = MILTER_STEP_NO_REPLY_DATA;
+        break;
+    case MILTER_MANAGER_LEADER_STATE_UNKNOWN:
+        no_reply_step = MILTER_STEP_NO_REPLY_UNKNOWN;
+        break;
+    case MILTER_MANAGER_LEADER_STATE_HEADER:
+        no_reply_step = MILTER_STEP_NO_REPLY_HEADER;
+        break;
+    case MILTER_MANAGER_LEADER_STATE_END_OF_HEADER:
+        no_reply_step = MILTER_STEP_NO_REPLY_END_OF_HEADER;
+        break;
+    case MILTER_MANAGER_LEADER_STATE_BODY:
+        no_reply_step = MILTER_STEP_NO_REPLY_BODY;
+        break;
+    default:
+        return TRUE;
+    }
+
+    if (priv->children)
+        option = milter_manager_children_get_option(priv->children);
+    if (!option)
+        return TRUE;
+    return !(milter_option_get_step(option) & no_reply_step);
+}
+
 static MilterStatus
 fallback (MilterManagerLeader *leader)
 {
     MilterManagerLeaderPrivate *priv;
+    MilterStatus status = MILTER_STATUS_NO_REPLY;
 
     priv = MILTER_MANAGER_LEADER_GET_PRIVATE(leader);
     /* The command may have been replied by a signal of children. */
     if (is_replied_state(priv->state))
         return MILTER_STATUS_PROGRESS;
 
+    if (is_reply_needed(leader))
+        status =
+            milter_manager_configuration_get_fallback_status(priv->configuration);
     priv->state = next_state(leader, priv->state);
-    return milter_manager_configuration_get_fallback_status(priv->configuration);
+    return status;
 }
 
 static void
@@ -573,6 +624,8 @@ reply (MilterManagerLeader *leader, MilterStatus status)
 
         signal_name = state_to_response_signal_name(priv->state);
         if (signal_name) {
+            if (!is_reply_needed(leader))
+                status = MILTER_STATUS_NO_REPLY;
             g_signal_emit_by_name(priv->client_context, signal_name, status);
         } else {
             GError *error;
-- 
2.43.0


From ca963f2f8bc7c9d042ec859776844b7c029499ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:12 +0000
Subject: [PATCH 07/61] fix: announce only what is offered by MTA and shared by
 milters

---
 milter/manager/milter-manager-children.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index a5871bf..2484d8c 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -837,6 +837,8 @@ cb_negotiate_reply (MilterServerContext *context, MilterOption *option,
         milter_macros_requests_merge(priv->macros_requests, macros_requests);
 
     if (priv->option) {
+        /* Don't use requests that aren't offered by MTA. */
+        option = milter_server_context_get_option(context);
         milter_option_merge(priv->option, option);
         priv->requested_yes_steps |= milter_option_get_step_yes(option);
         priv->negotiated = TRUE;
@@ -2695,6 +2697,8 @@ reply_negotiate (MilterManagerChildren *children)
         milter_error("[%u] [children][error][negotiate][no-response]",
                      priv->tag);
     }
+    if (!priv->negotiated || !priv->milters)
+        milter_option_remove_step(priv->option, MILTER_STEP_NO_REPLY_MASK);
 
     milter_option_remove_step(priv->option,
                               MILTER_STEP_NO_EVENT_MASK |
@@ -3110,14 +3114,15 @@ milter_manager_children_negotiate (MilterManagerChildren *children,
 
     if (priv->option)
         g_object_unref(priv->option);
-    priv->option = option;
-    if (priv->option) {
-        g_object_ref(priv->option);
-        if (milter_option_get_version(priv->option) >
+    priv->option = NULL;
+    if (option) {
+        if (milter_option_get_version(option) >
             MAX_SUPPORTED_MILTER_PROTOCOL_VERSION) {
-            milter_option_set_version(priv->option,
+            milter_option_set_version(option,
                                       MAX_SUPPORTED_MILTER_PROTOCOL_VERSION);
         }
+        /* option is offered to all children as is. */
+        priv->option = milter_option_copy(option);
         priv->initial_yes_steps = milter_option_get_step_yes(priv->option);
     }
 
-- 
2.43.0


From 4cc5237d6670e2a3370a655d43daf4c6a156f651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:12 +0000
Subject: [PATCH 08/61] fix: a milter that doesn't answer a body chunk times
 out

---
 milter/server/milter-server-context.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index a8a46ed..71fddcd 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -1274,11 +1274,11 @@ process_next_state_body (MilterServerContext *context)
     milter_debug("[%u] [server][flushed][next][body] [%s] <%" G_GSIZE_FORMAT ">",
                  tag, NULL_SAFE_NAME(name), priv->body->len);
 
-    if (priv->body->len == 0)
-        return TRUE;
-
-    if (!milter_server_context_need_reply(context, state))
+    if (!milter_server_context_need_reply(context, state)) {
+        if (priv->body->len == 0)
+            return TRUE;
         return flush_body(context);
+    }
 
     disable_timeout(context);
     loop = milter_agent_get_event_loop(MILTER_AGENT(context));
-- 
2.43.0


From 991c0ad85b271ccc9a5acc4863a93c3ebf9a6c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:40 +0000
Subject: [PATCH 09/61] fix: treat an answer that isn't waited for as a
 milter's error

---
 milter/server/milter-server-context.c | 73 +++++++++++++++++++++++++++
 1 file changed, 73 insertions(+)

diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index 71fddcd..305e27b 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -2389,6 +2389,19 @@ invalid_state (MilterServerContext *context,
     g_free(state_name);
 }
 
+static gboolean
+check_reply_waited (MilterServerContext *context, const gchar *action)
+{
+    MilterServerContextPrivate *priv;
+
+    priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
+    if (priv->quitted || milter_server_context_is_processing(context))
+        return TRUE;
+
+    invalid_state(context, priv->state, action, "waiting reply");
+    return FALSE;
+}
+
 static void
 cb_decoder_negotiate_reply (MilterDecoder *decoder,
                             MilterOption *option,
@@ -2405,6 +2418,9 @@ cb_decoder_negotiate_reply (MilterDecoder *decoder,
     priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
     state = priv->state;
 
+    if (!check_reply_waited(context, "negotiate-reply"))
+        return;
+
     disable_timeout(context);
 
     if (milter_need_log(MILTER_LOG_LEVEL_ERROR |
@@ -2529,6 +2545,9 @@ cb_decoder_continue (MilterReplyDecoder *decoder, gpointer user_data)
     context = MILTER_SERVER_CONTEXT(user_data);
     priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
 
+    if (!check_reply_waited(context, "continue"))
+        return;
+
     disable_timeout(context);
 
     if (milter_need_debug_log()) {
@@ -2600,6 +2619,9 @@ cb_decoder_reply_code (MilterReplyDecoder *decoder,
 
     priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
 
+    if (!check_reply_waited(context, "reply-code"))
+        return;
+
     if (milter_need_debug_log()) {
         tag = milter_agent_get_tag(MILTER_AGENT(context));
         name = milter_server_context_get_name(context);
@@ -2680,6 +2702,9 @@ cb_decoder_temporary_failure (MilterReplyDecoder *decoder, gpointer user_data)
 
     priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
 
+    if (!check_reply_waited(context, "temporary-failure"))
+        return;
+
     if (priv->state == MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT) {
         priv->envelope_recipient_status = MILTER_STATUS_TEMPORARY_FAILURE;
         ensure_message_result(priv);
@@ -2742,6 +2767,9 @@ cb_decoder_reject (MilterReplyDecoder *decoder, gpointer user_data)
 
     priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
 
+    if (!check_reply_waited(context, "reject"))
+        return;
+
     if (priv->state == MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT) {
         priv->envelope_recipient_status = MILTER_STATUS_REJECT;
         ensure_message_result(priv);
@@ -2803,6 +2831,9 @@ cb_decoder_accept (MilterReplyDecoder *decoder, gpointer user_data)
     MilterServerContextPrivate *priv;
 
     priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
+
+    if (!check_reply_waited(context, "accept"))
+        return;
     priv->status = MILTER_STATUS_ACCEPT;
 
     disable_timeout(context);
@@ -2852,6 +2883,9 @@ cb_decoder_discard (MilterReplyDecoder *decoder, gpointer user_data)
     MilterServerContextPrivate *priv;
 
     priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(user_data);
+
+    if (!check_reply_waited(context, "discard"))
+        return;
     priv->status = MILTER_STATUS_DISCARD;
 
     disable_timeout(context);
@@ -2903,6 +2937,9 @@ cb_decoder_add_header (MilterReplyDecoder *decoder,
 
     priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
 
+    if (!check_reply_waited(context, "add-header"))
+        return;
+
     milter_debug("[%u] [server][receive][add-header] [%s] <%s>=<%s>",
                  milter_agent_get_tag(MILTER_AGENT(context)),
                  milter_server_context_get_name(context),
@@ -2937,6 +2974,9 @@ cb_decoder_insert_header (MilterReplyDecoder *decoder,
 
     priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
 
+    if (!check_reply_waited(context, "insert-header"))
+        return;
+
     milter_debug("[%u] [server][receive][insert-header] [%s] [%u]<%s>=<%s>",
                  milter_agent_get_tag(MILTER_AGENT(context)),
                  milter_server_context_get_name(context),
@@ -2972,6 +3012,9 @@ cb_decoder_change_header (MilterReplyDecoder *decoder,
 
     priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
 
+    if (!check_reply_waited(context, "change-header"))
+        return;
+
     milter_debug("[%u] [server][receive][change-header] [%s] <%s>[%u]=<%s>",
                  milter_agent_get_tag(MILTER_AGENT(context)),
                  milter_server_context_get_name(context),
@@ -3006,6 +3049,9 @@ cb_decoder_delete_header (MilterReplyDecoder *decoder,
 
     priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
 
+    if (!check_reply_waited(context, "delete-header"))
+        return;
+
     milter_debug("[%u] [server][receive][delete-header] [%s] <%s>[%u]",
                  milter_agent_get_tag(MILTER_AGENT(context)),
                  milter_server_context_get_name(context),
@@ -3039,6 +3085,9 @@ cb_decoder_change_from (MilterReplyDecoder *decoder,
 
     priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
 
+    if (!check_reply_waited(context, "change-from"))
+        return;
+
     milter_debug("[%u] [server][receive][change-from] [%s] <%s>:<%s>",
                  milter_agent_get_tag(MILTER_AGENT(context)),
                  milter_server_context_get_name(context),
@@ -3065,6 +3114,9 @@ cb_decoder_add_recipient (MilterReplyDecoder *decoder,
 
     priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
 
+    if (!check_reply_waited(context, "add-recipient"))
+        return;
+
     milter_debug("[%u] [server][receive][add-recipient] [%s] <%s>:<%s>",
                  milter_agent_get_tag(MILTER_AGENT(context)),
                  milter_server_context_get_name(context),
@@ -3090,6 +3142,9 @@ cb_decoder_delete_recipient (MilterReplyDecoder *decoder,
 
     priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(user_data);
 
+    if (!check_reply_waited(context, "delete-recipient"))
+        return;
+
     milter_debug("[%u] [server][receive][delete-recipient] [%s] <%s>",
                  milter_agent_get_tag(MILTER_AGENT(context)),
                  milter_server_context_get_name(context),
@@ -3116,6 +3171,9 @@ cb_decoder_replace_body (MilterReplyDecoder *decoder,
 
     priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
 
+    if (!check_reply_waited(context, "replace-body"))
+        return;
+
     milter_debug("[%u] [server][receive][replace-body] [%s] "
                  "body_size=%" G_GSIZE_FORMAT,
                  milter_agent_get_tag(MILTER_AGENT(context)),
@@ -3139,6 +3197,9 @@ cb_decoder_progress (MilterReplyDecoder *decoder, gpointer user_data)
 
     priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(user_data);
 
+    if (!check_reply_waited(context, "progress"))
+        return;
+
     milter_debug("[%u] [server][receive][progress] [%s]",
                  milter_agent_get_tag(MILTER_AGENT(context)),
                  milter_server_context_get_name(context));
@@ -3163,6 +3224,9 @@ cb_decoder_quarantine (MilterReplyDecoder *decoder,
 
     priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(user_data);
 
+    if (!check_reply_waited(context, "quarantine"))
+        return;
+
     priv->status = MILTER_STATUS_QUARANTINE;
     milter_debug("[%u] [server][receive][quarantine] [%s] <%s>",
                  milter_agent_get_tag(MILTER_AGENT(context)),
@@ -3190,6 +3254,9 @@ cb_decoder_connection_failure (MilterReplyDecoder *decoder, gpointer user_data)
 
     priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(user_data);
 
+    if (!check_reply_waited(context, "connection-failure"))
+        return;
+
     disable_timeout(context);
     g_timer_stop(priv->elapsed);
 
@@ -3221,6 +3288,9 @@ cb_decoder_shutdown (MilterReplyDecoder *decoder, gpointer user_data)
 
     priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(user_data);
 
+    if (!check_reply_waited(context, "shutdown"))
+        return;
+
     disable_timeout(context);
     g_timer_stop(priv->elapsed);
 
@@ -3251,6 +3321,9 @@ cb_decoder_skip (MilterReplyDecoder *decoder, gpointer user_data)
 
     priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
 
+    if (!check_reply_waited(context, "skip"))
+        return;
+
     if (milter_need_debug_log()) {
         tag = milter_agent_get_tag(MILTER_AGENT(context));
         name = milter_server_context_get_name(context);
-- 
2.43.0


From 0c61bc255407d6ea32d937ff8e65e1b64dfd3fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:49 +0000
Subject: [PATCH 10/61] fix: commands whose reply is waived can be sent one
 after another

---
 milter/server/milter-server-context.c | 30 ++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index 305e27b..db7dd00 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -1113,6 +1113,8 @@ milter_server_context_need_reply (MilterServerContext *context,
     MilterStepFlags step;
 
     priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
+    if (!priv->option)
+        return TRUE;
     step = milter_option_get_step(priv->option);
 
     switch (state) {
@@ -1362,7 +1364,8 @@ process_next_state (MilterServerContext *context,
         reset_end_of_message_timeout(context);
         break;
     case MILTER_SERVER_CONTEXT_STATE_BODY:
-        milter_server_context_set_state(context, next_state);
+        if (milter_server_context_need_reply(context, next_state))
+            milter_server_context_set_state(context, next_state);
         process_next_state_body(context);
         break;
     case MILTER_SERVER_CONTEXT_STATE_QUIT:
@@ -1388,10 +1391,10 @@ process_next_state (MilterServerContext *context,
         priv->processing_message = TRUE;
         /* FALLTHROUGH */
     default:
-        milter_server_context_set_state(context, next_state);
         if (milter_server_context_need_reply(context, next_state)) {
             MilterEventLoop *loop;
 
+            milter_server_context_set_state(context, next_state);
             loop = milter_agent_get_event_loop(agent);
             priv->timeout_id =
                 milter_event_loop_add_timeout(loop,
@@ -1474,6 +1477,24 @@ flushed (MilterAgent *agent)
                  tag, NULL_SAFE_NAME(name));
 }
 
+static gboolean
+is_busy (MilterServerContext *context)
+{
+    MilterServerContextPrivate *priv;
+    GList *last;
+
+    if (!milter_server_context_is_processing(context))
+        return FALSE;
+
+    priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
+    last = g_list_last(priv->next_states);
+    if (!last)
+        return TRUE;
+    /* A not flushed command that has no reply can be followed. */
+    return milter_server_context_need_reply(context,
+                                            GPOINTER_TO_UINT(last->data));
+}
+
 static gboolean
 write_packet (MilterServerContext *context,
               const gchar *packet, gsize packet_size,
@@ -1503,7 +1524,7 @@ write_packet (MilterServerContext *context,
     case MILTER_SERVER_CONTEXT_STATE_QUIT:
         break;
     default:
-        if (milter_server_context_is_processing(context)) {
+        if (is_busy(context)) {
             gchar *inspected_current_state;
             gchar *inspected_next_state;
             GError *error = NULL;
@@ -1618,6 +1639,9 @@ write_packet (MilterServerContext *context,
 
     priv->next_states = g_list_append(priv->next_states,
                                       GUINT_TO_POINTER(next_state));
+    /* The next command may be sent before this command is flushed. */
+    if (!milter_server_context_need_reply(context, next_state))
+        milter_server_context_set_state(context, next_state);
     return TRUE;
 }
 
-- 
2.43.0


From c58f1e792fb6e768f3dec8b5753a2938e49a9acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:03 +0000
Subject: [PATCH 11/61] fix: decide the reply of each command and its text from
 its own answers only

---
 milter/manager/milter-manager-children.c | 61 ++++++++++++++++++------
 1 file changed, 47 insertions(+), 14 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 2484d8c..0665da3 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -800,6 +800,7 @@ compile_reply_status (MilterManagerChildren *children,
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
 
     if (milter_manager_children_is_important_status(children, state, status)) {
+        dispose_reply_related_data(priv);
         g_hash_table_insert(priv->reply_statuses,
                             GINT_TO_POINTER(state),
                             GINT_TO_POINTER(status));
@@ -944,13 +945,13 @@ emit_reply_status_of_state (MilterManagerChildren *children,
         g_signal_emit_by_name(children, "reply-code",
                               priv->reply_code, priv->reply_extended_code,
                               priv->reply_message);
-        dispose_reply_related_data(priv);
     } else {
         if (status != MILTER_STATUS_NOT_CHANGE) {
             g_signal_emit_by_name(children,
                                   status_to_signal_name(status));
         }
     }
+    dispose_reply_related_data(priv);
 
     if (state == MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE) {
         MilterManagerChildrenPrivate *priv;
@@ -1581,15 +1582,25 @@ cb_reply_code (MilterServerContext *context,
 {
     MilterManagerChildren *children = user_data;
     MilterManagerChildrenPrivate *priv;
+    MilterServerContextState state;
+    MilterStatus status;
 
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
 
-    dispose_reply_related_data(priv);
-    priv->reply_code = code;
-    priv->reply_extended_code = g_strdup(extended_code);
-    priv->reply_message = g_strdup(message);
+    state = milter_server_context_get_state(context);
+    status = (code / 100) == 4 ?
+        MILTER_STATUS_TEMPORARY_FAILURE : MILTER_STATUS_REJECT;
+    if (!milter_manager_child_is_evaluation_mode(MILTER_MANAGER_CHILD(context))) {
+        compile_reply_status(children, state, status);
+        if (get_reply_status_for_state(children, state) == status) {
+            dispose_reply_related_data(priv);
+            priv->reply_code = code;
+            priv->reply_extended_code = g_strdup(extended_code);
+            priv->reply_message = g_strdup(message);
+        }
+    }
 
-    if ((priv->reply_code / 100) == 4) {
+    if (status == MILTER_STATUS_TEMPORARY_FAILURE) {
         cb_temporary_failure(context, user_data);
     } else {
         cb_reject(context, user_data);
@@ -3086,11 +3097,34 @@ init_reply_queue (MilterManagerChildren *children,
 
     set_state(children, state);
     queue_clear(priv->reply_queue);
+    dispose_reply_related_data(priv);
     g_hash_table_insert(priv->reply_statuses,
                         GINT_TO_POINTER(state),
                         GINT_TO_POINTER(MILTER_STATUS_NOT_CHANGE));
 }
 
+static void
+start_message_oriented_command (MilterManagerChildren *children,
+                                MilterServerContextState state)
+{
+    MilterManagerChildrenPrivate *priv;
+
+    priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
+
+    set_state(children, state);
+    dispose_reply_related_data(priv);
+    /* A command may involve any message oriented state because a
+     * child receives all past commands. */
+    g_hash_table_remove(priv->reply_statuses,
+                        GINT_TO_POINTER(MILTER_SERVER_CONTEXT_STATE_HEADER));
+    g_hash_table_remove(priv->reply_statuses,
+                        GINT_TO_POINTER(MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER));
+    g_hash_table_remove(priv->reply_statuses,
+                        GINT_TO_POINTER(MILTER_SERVER_CONTEXT_STATE_BODY));
+    g_hash_table_remove(priv->reply_statuses,
+                        GINT_TO_POINTER(MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE));
+}
+
 static gboolean
 cb_idle_reply_negotiate_on_no_child (gpointer user_data)
 {
@@ -3634,8 +3668,8 @@ milter_manager_children_header (MilterManagerChildren *children,
         return success;
     }
 
-    priv->state = MILTER_SERVER_CONTEXT_STATE_HEADER;
-    priv->processing_state = priv->state;
+    start_message_oriented_command(children,
+                                   MILTER_SERVER_CONTEXT_STATE_HEADER);
     if (!priv->headers)
         priv->headers = milter_headers_new();
     milter_headers_append_header(priv->headers, name, value);
@@ -3671,8 +3705,8 @@ milter_manager_children_end_of_header (MilterManagerChildren *children)
         return success;
     }
 
-    priv->state = MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER;
-    priv->processing_state = priv->state;
+    start_message_oriented_command(children,
+                                   MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER);
     init_command_waiting_child_queue(children, MILTER_COMMAND_END_OF_HEADER);
 
     return MILTER_STATUS_PROGRESS ==
@@ -3832,8 +3866,7 @@ milter_manager_children_body (MilterManagerChildren *children,
     if (!write_body(children, chunk, size))
         return FALSE;
 
-    priv->state = state;
-    priv->processing_state = state;
+    start_message_oriented_command(children, state);
     priv->replaced_body_for_each_child = FALSE;
     priv->sending_body = FALSE;
 
@@ -4080,8 +4113,8 @@ milter_manager_children_end_of_message (MilterManagerChildren *children,
     if (priv->body_file)
         g_io_channel_seek_position(priv->body_file, 0, G_SEEK_SET, NULL);
 
-    priv->state = MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE;
-    priv->processing_state = priv->state;
+    start_message_oriented_command(children,
+                                   MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE);
     return MILTER_STATUS_PROGRESS ==
         send_command_to_first_waiting_child(children,
                                             MILTER_COMMAND_END_OF_MESSAGE);
-- 
2.43.0


From 6774e0ffc43fdde5a408ddd2b61e9c40707831e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:03 +0000
Subject: [PATCH 12/61] fix: a milter in evaluation mode doesn't decide about
 the message

---
 milter/manager/milter-manager-children.c | 33 +++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 0665da3..8929b8e 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -1432,6 +1432,19 @@ cb_continue (MilterServerContext *context, gpointer user_data)
     handle_status(children, status);
 }
 
+/*
+ * The status used instead of a negative status of a child in
+ * evaluation mode.
+ */
+static MilterStatus
+evaluated_status (MilterServerContextState state)
+{
+    /* The child still processes the message for other recipients. */
+    if (state == MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT)
+        return MILTER_STATUS_CONTINUE;
+    return MILTER_STATUS_ACCEPT;
+}
+
 static void
 cb_temporary_failure (MilterServerContext *context, gpointer user_data)
 {
@@ -1447,7 +1460,7 @@ cb_temporary_failure (MilterServerContext *context, gpointer user_data)
     evaluation_mode =
         milter_manager_child_is_evaluation_mode(MILTER_MANAGER_CHILD(context));
     if (evaluation_mode) {
-        status = MILTER_STATUS_ACCEPT;
+        status = evaluated_status(state);
         if (milter_need_debug_log()) {
             gchar *state_name;
             state_name = milter_utils_get_enum_nick_name(
@@ -1482,6 +1495,10 @@ cb_temporary_failure (MilterServerContext *context, gpointer user_data)
     case MILTER_SERVER_CONTEXT_STATE_BODY:
     case MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE:
         milter_server_context_set_processing_message(context, FALSE);
+        if (evaluation_mode) {
+            send_first_command_to_next_child(children, context);
+            break;
+        }
         emit_reply_for_message_oriented_command(children, state);
         milter_manager_children_abort(children);
         break;
@@ -1518,7 +1535,7 @@ cb_reject (MilterServerContext *context, gpointer user_data)
     evaluation_mode =
         milter_manager_child_is_evaluation_mode(MILTER_MANAGER_CHILD(context));
     if (evaluation_mode) {
-        status = MILTER_STATUS_ACCEPT;
+        status = evaluated_status(state);
         if (milter_need_debug_log()) {
             gchar *state_name;
             state_name = milter_utils_get_enum_nick_name(
@@ -1552,6 +1569,10 @@ cb_reject (MilterServerContext *context, gpointer user_data)
     case MILTER_SERVER_CONTEXT_STATE_BODY:
     case MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE:
         milter_server_context_set_processing_message(context, FALSE);
+        if (evaluation_mode) {
+            send_first_command_to_next_child(children, context);
+            break;
+        }
         emit_reply_for_message_oriented_command(children, state);
         milter_manager_children_abort(children);
         break;
@@ -1672,7 +1693,7 @@ cb_discard (MilterServerContext *context, gpointer user_data)
     evaluation_mode =
         milter_manager_child_is_evaluation_mode(MILTER_MANAGER_CHILD(context));
     if (evaluation_mode) {
-        status = MILTER_STATUS_ACCEPT;
+        status = evaluated_status(state);
         if (milter_need_debug_log()) {
             gchar *state_name;
             state_name =
@@ -1702,6 +1723,10 @@ cb_discard (MilterServerContext *context, gpointer user_data)
     case MILTER_SERVER_CONTEXT_STATE_BODY:
     case MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE:
         milter_server_context_set_processing_message(context, FALSE);
+        if (evaluation_mode) {
+            send_first_command_to_next_child(children, context);
+            break;
+        }
         emit_reply_for_message_oriented_command(children, state);
         milter_manager_children_abort(children);
         break;
@@ -2643,6 +2668,8 @@ check_fallback_status_on_negotiate (MilterManagerChildren *children)
         context = MILTER_SERVER_CONTEXT(child);
         if (milter_server_context_is_negotiated(context))
             continue;
+        if (milter_manager_child_is_evaluation_mode(child))
+            continue;
 
         fallback_status = milter_manager_child_get_fallback_status(child);
         if (milter_status_compare(status, fallback_status) < 0) {
-- 
2.43.0


From b1e8dc5470a1c6cadfed2e648db049ffff745d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:55 +0000
Subject: [PATCH 13/61] fix: treat a failed milter as it replied its fallback
 status only when its reply is waited for

A milter that failed while the message is being processed left the MTA
without a reply or replied for a command that isn't the current one.
---
 milter/manager/milter-manager-children.c | 266 ++++++++++++++++-------
 1 file changed, 184 insertions(+), 82 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 8929b8e..25d2dae 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -103,6 +103,7 @@ struct _MilterManagerChildrenPrivate
 
     gboolean finished;
     gboolean emitted_reply_for_message_oriented_command;
+    gboolean need_replay;
 
     guint tag;
 
@@ -201,6 +202,18 @@ static MilterStatus send_next_command
 static MilterStatus send_first_command_to_next_child
                            (MilterManagerChildren *children,
                             MilterServerContext *context);
+static MilterStatus send_first_command_to_first_waiting_child
+                           (MilterManagerChildren *children);
+
+static void         child_failed
+                           (MilterManagerChildren *children,
+                            MilterServerContext *context);
+static MilterStatus child_command_failed
+                           (MilterManagerChildren *children,
+                            MilterServerContext *context);
+static void         remove_child_from_command_waiting_child_queue
+                           (MilterManagerChildren *children,
+                            MilterServerContext *context);
 
 static NegotiateData *negotiate_data_new  (MilterManagerChildren *children,
                                            MilterManagerChild *child,
@@ -306,6 +319,7 @@ milter_manager_children_init (MilterManagerChildren *milter)
 
     priv->finished = FALSE;
     priv->emitted_reply_for_message_oriented_command = FALSE;
+    priv->need_replay = FALSE;
 
     priv->tag = 0;
 
@@ -414,8 +428,6 @@ dispose_pending_message_request (MilterManagerChildrenPrivate *priv)
 static void
 dispose_body_related_data (MilterManagerChildrenPrivate *priv)
 {
-    priv->emitted_reply_for_message_oriented_command = FALSE;
-
     if (priv->body) {
         g_string_free(priv->body, TRUE);
         priv->body = NULL;
@@ -454,6 +466,8 @@ dispose_message_related_data (MilterManagerChildrenPrivate *priv)
 {
     dispose_pending_message_request(priv);
 
+    priv->need_replay = FALSE;
+
     if (priv->command_waiting_child_queue) {
         g_list_free(priv->command_waiting_child_queue);
         priv->command_waiting_child_queue = NULL;
@@ -1063,6 +1077,9 @@ remove_child_from_queue (MilterManagerChildren *children,
 
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
 
+    if (!g_queue_find(priv->reply_queue, context))
+        return status;
+
     g_queue_remove(priv->reply_queue, context);
 
     if (!g_queue_is_empty(priv->reply_queue))
@@ -1184,11 +1201,7 @@ send_command_to_child (MilterManagerChildren *children,
                        MilterCommand command)
 {
     MilterManagerChildrenPrivate *priv;
-    MilterManagerChild *child;
-    MilterStatus status;
-
-    child = MILTER_MANAGER_CHILD(context);
-    status = milter_manager_child_get_fallback_status(child);
+    MilterStatus status = MILTER_STATUS_NOT_CHANGE;
 
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
     switch (command) {
@@ -1203,6 +1216,8 @@ send_command_to_child (MilterManagerChildren *children,
                                                  priv->processing_state)) {
                 g_signal_emit_by_name(context, "continue");
             }
+        } else {
+            status = child_command_failed(children, context);
         }
         break;
     case MILTER_COMMAND_BODY:
@@ -1215,6 +1230,8 @@ send_command_to_child (MilterManagerChildren *children,
                                                  priv->end_of_message_chunk,
                                                  priv->end_of_message_size))
             status = MILTER_STATUS_PROGRESS;
+        else
+            status = child_command_failed(children, context);
         break;
     default:
         break;
@@ -1341,9 +1358,36 @@ fetch_first_command_for_child_in_queue (MilterServerContext *child,
     return -1;
 }
 
+static void
+emit_continue_for_message_oriented_command (MilterManagerChildren *children)
+{
+    MilterManagerChildrenPrivate *priv;
+
+    priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
+
+    if (priv->emitted_reply_for_message_oriented_command)
+        return;
+
+    priv->emitted_reply_for_message_oriented_command = TRUE;
+    g_signal_emit_by_name(children, "continue");
+}
+
 static MilterStatus
 send_first_command_to_next_child (MilterManagerChildren *children,
                                   MilterServerContext *context)
+{
+    MilterManagerChildrenPrivate *priv;
+
+    priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
+
+    priv->command_waiting_child_queue =
+        g_list_remove(priv->command_waiting_child_queue, context);
+
+    return send_first_command_to_first_waiting_child(children);
+}
+
+static MilterStatus
+send_first_command_to_first_waiting_child (MilterManagerChildren *children)
 {
     MilterManagerChildrenPrivate *priv;
     MilterServerContext *next_child;
@@ -1352,9 +1396,8 @@ send_first_command_to_next_child (MilterManagerChildren *children,
     /* FIXME: don't want to return PROGRESS. */
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
 
+    priv->need_replay = FALSE;
     priv->processing_header_index = 0;
-    priv->command_waiting_child_queue =
-        g_list_remove(priv->command_waiting_child_queue, context);
 
     next_child = get_first_child_in_command_waiting_child_queue(children);
     if (!next_child) {
@@ -1365,7 +1408,7 @@ send_first_command_to_next_child (MilterManagerChildren *children,
     first_command = fetch_first_command_for_child_in_queue(next_child,
                                                            &priv->command_queue);
     if (first_command == -1)
-        g_signal_emit_by_name(children, "continue");
+        emit_continue_for_message_oriented_command(children);
     else
         send_command_to_child(children, next_child, first_command);
 
@@ -1379,7 +1422,7 @@ handle_status (MilterManagerChildren *children,
     if (status == MILTER_STATUS_PROGRESS)
         return;
 
-    g_signal_emit_by_name(children, status_to_signal_name(status));
+    emit_continue_for_message_oriented_command(children);
 }
 
 static void
@@ -1842,6 +1885,7 @@ is_end_of_message_state (MilterManagerChildren *children,
 
     }
 
+    child_failed(children, context);
     milter_server_context_quit(context);
     return FALSE;
 }
@@ -2178,15 +2222,13 @@ cb_quarantine (MilterServerContext *context,
 static void
 cb_connection_failure (MilterServerContext *context, gpointer user_data)
 {
-    g_signal_emit_by_name(user_data, "connection-failure");
+    child_failed(MILTER_MANAGER_CHILDREN(user_data), context);
 }
 
 static void
 cb_shutdown (MilterServerContext *context, gpointer user_data)
 {
-    MilterManagerChildren *children = user_data;
-
-    g_signal_emit_by_name(children, "shutdown");
+    child_failed(MILTER_MANAGER_CHILDREN(user_data), context);
 }
 
 static void
@@ -2245,6 +2287,85 @@ cb_stopped (MilterServerContext *context, gpointer user_data)
     }
 }
 
+/*
+ * The child can't be used anymore without quitting. It is treated as it
+ * replied its fallback status when its reply is waited for.
+ */
+static void
+child_failed (MilterManagerChildren *children, MilterServerContext *context)
+{
+    MilterManagerChildrenPrivate *priv;
+    MilterManagerChild *child;
+    MilterServerContextState state;
+    MilterStatus fallback_status;
+    gboolean waiting_reply;
+
+    priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
+    state = priv->processing_state;
+    child = MILTER_MANAGER_CHILD(context);
+    if (milter_manager_child_is_evaluation_mode(child))
+        fallback_status = MILTER_STATUS_ACCEPT;
+    else
+        fallback_status = milter_manager_child_get_fallback_status(child);
+
+    if (milter_server_context_is_processing(context))
+        milter_server_context_set_status(context, fallback_status);
+    expire_child(children, context);
+
+    switch (state) {
+    case MILTER_SERVER_CONTEXT_STATE_NEGOTIATE:
+        if (g_queue_find(priv->reply_queue, context))
+            remove_queue_in_negotiate(children, child);
+        break;
+    case MILTER_SERVER_CONTEXT_STATE_HEADER:
+    case MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER:
+    case MILTER_SERVER_CONTEXT_STATE_BODY:
+    case MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE:
+        waiting_reply =
+            !priv->emitted_reply_for_message_oriented_command &&
+            get_first_child_in_command_waiting_child_queue(children) == context;
+        if (!waiting_reply) {
+            remove_child_from_command_waiting_child_queue(children, context);
+            break;
+        }
+
+        compile_reply_status(children, state, fallback_status);
+        switch (fallback_status) {
+        case MILTER_STATUS_REJECT:
+        case MILTER_STATUS_TEMPORARY_FAILURE:
+        case MILTER_STATUS_DISCARD:
+            emit_reply_for_message_oriented_command(children, state);
+            milter_manager_children_abort(children);
+            break;
+        default:
+            send_first_command_to_next_child(children, context);
+            break;
+        }
+        break;
+    case MILTER_SERVER_CONTEXT_STATE_QUIT:
+    case MILTER_SERVER_CONTEXT_STATE_ABORT:
+        g_queue_remove(priv->reply_queue, context);
+        break;
+    default:
+        remove_child_from_command_waiting_child_queue(children, context);
+        if (g_queue_find(priv->reply_queue, context)) {
+            compile_reply_status(children, state, fallback_status);
+            remove_child_from_queue(children, context);
+        }
+        break;
+    }
+}
+
+/* The child may be already treated as failed by its error handler. */
+static MilterStatus
+child_command_failed (MilterManagerChildren *children,
+                      MilterServerContext *context)
+{
+    if (!milter_server_context_is_quitted(context))
+        child_failed(children, context);
+    return MILTER_STATUS_PROGRESS;
+}
+
 static void
 cb_writing_timeout (MilterServerContext *context, gpointer user_data)
 {
@@ -2280,9 +2401,7 @@ cb_writing_timeout (MilterServerContext *context, gpointer user_data)
         g_free(fallback_status_name);
     }
 
-    compile_reply_status(children, state, fallback_status);
-    expire_child(children, context);
-    remove_child_from_queue(children, context);
+    child_failed(children, context);
 }
 
 static void
@@ -2320,9 +2439,7 @@ cb_reading_timeout (MilterServerContext *context, gpointer user_data)
         g_free(fallback_status_name);
     }
 
-    compile_reply_status(children, state, fallback_status);
-    expire_child(children, context);
-    remove_child_from_queue(children, context);
+    child_failed(children, context);
 }
 
 static void
@@ -2361,9 +2478,7 @@ cb_end_of_message_timeout (MilterServerContext *context, gpointer user_data)
         g_free(fallback_status_name);
     }
 
-    compile_reply_status(children, state, fallback_status);
-    expire_child(children, context);
-    remove_child_from_queue(children, context);
+    child_failed(children, context);
 }
 
 static void
@@ -2404,9 +2519,7 @@ cb_error (MilterErrorEmittable *emittable, GError *error, gpointer user_data)
         g_free(fallback_status_name);
     }
 
-    compile_reply_status(children, state, fallback_status);
-    expire_child(children, context);
-    remove_child_from_queue(children, context);
+    child_failed(children, context);
 }
 
 static void
@@ -2419,20 +2532,6 @@ cb_finished (MilterAgent *agent, gpointer user_data)
     children = MILTER_MANAGER_CHILDREN(user_data);
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
 
-    if (milter_server_context_is_processing(context)) {
-        MilterManagerChild *child;
-        MilterStatus fallback_status;
-        MilterServerContextState state;
-
-        child = MILTER_MANAGER_CHILD(context);
-        fallback_status = milter_manager_child_get_fallback_status(child);
-        state = milter_server_context_get_state(context);
-        milter_server_context_set_status(context, fallback_status);
-        compile_reply_status(children, state, fallback_status);
-    }
-
-    expire_child(children, context);
-
     if (milter_need_debug_log()) {
         gchar *state_name;
 
@@ -2448,27 +2547,12 @@ cb_finished (MilterAgent *agent, gpointer user_data)
         g_free(state_name);
     }
 
-    switch (priv->processing_state) {
-    case MILTER_SERVER_CONTEXT_STATE_NEGOTIATE:
-        remove_queue_in_negotiate(children, MILTER_MANAGER_CHILD(context));
-        break;
-    case MILTER_SERVER_CONTEXT_STATE_HEADER:
-    case MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER:
-    case MILTER_SERVER_CONTEXT_STATE_BODY:
-    case MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE:
-        if (!priv->emitted_reply_for_message_oriented_command &&
-            milter_server_context_is_processing(context)) {
-            milter_debug("[%u] [children][unexpected] [%u] "
-                         "finish without receiving response: %s",
-                         priv->tag,
-                         milter_agent_get_tag(MILTER_AGENT(context)),
-                         milter_server_context_get_name(context));
-            send_first_command_to_next_child(children, context);
-        }
-        break;
-    default:
+    if (milter_server_context_is_quitted(context)) {
+        /* The child was quitted because it had already replied. */
+        expire_child(children, context);
         remove_child_from_queue(children, context);
-        break;
+    } else {
+        child_failed(children, context);
     }
 }
 
@@ -3084,6 +3168,28 @@ get_first_child_in_command_waiting_child_queue (MilterManagerChildren *children)
     return MILTER_SERVER_CONTEXT(g_list_first(priv->command_waiting_child_queue)->data);
 }
 
+/*
+ * Removes a child that has gone while its reply isn't waited for. If it
+ * is processing the message, the next child processes the message from
+ * the first when the next command is received.
+ */
+static void
+remove_child_from_command_waiting_child_queue (MilterManagerChildren *children,
+                                               MilterServerContext *context)
+{
+    MilterManagerChildrenPrivate *priv;
+
+    priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
+
+    if (!priv->command_waiting_child_queue)
+        return;
+
+    if (get_first_child_in_command_waiting_child_queue(children) == context)
+        priv->need_replay = TRUE;
+    priv->command_waiting_child_queue =
+        g_list_remove(priv->command_waiting_child_queue, context);
+}
+
 static void
 queue_init (GQueue *queue)
 {
@@ -3139,6 +3245,7 @@ start_message_oriented_command (MilterManagerChildren *children,
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
 
     set_state(children, state);
+    priv->emitted_reply_for_message_oriented_command = FALSE;
     dispose_reply_related_data(priv);
     /* A command may involve any message oriented state because a
      * child receives all past commands. */
@@ -3577,6 +3684,9 @@ send_command_to_first_waiting_child (MilterManagerChildren *children,
     if (!first_child)
         return MILTER_STATUS_NOT_CHANGE;
 
+    if (MILTER_MANAGER_CHILDREN_GET_PRIVATE(children)->need_replay)
+        return send_first_command_to_first_waiting_child(children);
+
     return send_command_to_child(children, first_child, command);
 }
 
@@ -3653,10 +3763,7 @@ send_next_header_to_child (MilterManagerChildren *children, MilterServerContext
         }
         return status;
     } else {
-        MilterManagerChild *child;
-
-        child = MILTER_MANAGER_CHILD(context);
-        return milter_manager_child_get_fallback_status(child);
+        return child_command_failed(children, context);
     }
 }
 
@@ -3897,6 +4004,11 @@ milter_manager_children_body (MilterManagerChildren *children,
     priv->replaced_body_for_each_child = FALSE;
     priv->sending_body = FALSE;
 
+    if (priv->need_replay) {
+        return MILTER_STATUS_PROGRESS ==
+            send_first_command_to_first_waiting_child(children);
+    }
+
     if (milter_server_context_get_skip_body(first_child)) {
         /*
          * If the first child is not needed the command,
@@ -3936,8 +4048,6 @@ init_child_for_body_file (MilterManagerChildren *children,
 
     g_io_channel_seek_position(priv->body_file, 0, G_SEEK_SET, &error);
     if (error) {
-        MilterManagerChild *child;
-
         milter_error("[%u] [children][error][body][send][seek] [%u] %s: %s",
                      priv->tag,
                      milter_agent_get_tag(MILTER_AGENT(context)),
@@ -3946,8 +4056,7 @@ init_child_for_body_file (MilterManagerChildren *children,
         milter_error_emittable_emit(MILTER_ERROR_EMITTABLE(children), error);
         g_error_free(error);
 
-        child = MILTER_MANAGER_CHILD(context);
-        return milter_manager_child_get_fallback_status(child);
+        return child_command_failed(children, context);
     }
 
     return MILTER_STATUS_NOT_CHANGE;
@@ -3986,7 +4095,6 @@ send_body_to_child_file (MilterManagerChildren *children,
     MilterManagerChildrenPrivate *priv;
     gchar buffer[MILTER_CHUNK_SIZE + 1];
     gsize read_size, chunk_size;
-    MilterManagerChild *child;
 
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
     if (!priv->body_file)
@@ -3998,16 +4106,12 @@ send_body_to_child_file (MilterManagerChildren *children,
                                         buffer, chunk_size,
                                         &read_size, &error);
 
-    child = MILTER_MANAGER_CHILD(context);
     switch (io_status) {
-    case G_IO_STATUS_ERROR:
-        status = milter_manager_child_get_fallback_status(child);
-        break;
     case G_IO_STATUS_NORMAL:
         if (milter_server_context_body(context, buffer, read_size)) {
             status = MILTER_STATUS_PROGRESS;
         } else {
-            status = milter_manager_child_get_fallback_status(child);
+            status = child_command_failed(children, context);
         }
         break;
     case G_IO_STATUS_EOF:
@@ -4017,7 +4121,7 @@ send_body_to_child_file (MilterManagerChildren *children,
         status = MILTER_STATUS_PROGRESS;
         break;
     default:
-        status = milter_manager_child_get_fallback_status(child);
+        status = child_command_failed(children, context);
         break;
     }
 
@@ -4029,8 +4133,6 @@ send_body_to_child_file (MilterManagerChildren *children,
                      milter_server_context_get_name(context));
         milter_error_emittable_emit(MILTER_ERROR_EMITTABLE(children), error);
         g_error_free(error);
-
-        status = milter_manager_child_get_fallback_status(child);
     }
 
     return status;
@@ -4057,10 +4159,7 @@ send_body_to_child_string (MilterManagerChildren *children,
         priv->sent_body_offset += write_size;
         init_command_waiting_child_queue(children, MILTER_COMMAND_BODY);
     } else {
-        MilterManagerChild *child;
-
-        child = MILTER_MANAGER_CHILD(context);
-        status = milter_manager_child_get_fallback_status(child);
+        status = child_command_failed(children, context);
     }
 
     return status;
@@ -4194,6 +4293,9 @@ milter_manager_children_abort (MilterManagerChildren *children)
         MilterServerContext *context = MILTER_SERVER_CONTEXT(child->data);
         MilterServerContextState state;
 
+        if (milter_server_context_is_quitted(context))
+            continue;
+
         state = milter_server_context_get_state(context);
         if (milter_server_context_is_processing_message(context) ||
             state == MILTER_SERVER_CONTEXT_STATE_ENVELOPE_FROM) {
-- 
2.43.0


From 8129e7052d236d4391a1b94df8d6cab5c5e214e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:58 +0000
Subject: [PATCH 14/61] fix: pass the current message to each milter in order

Stages are given in the protocol order even if the MTA didn't send the body
or another milter deleted all headers, the chunk of the end of message is
copied by its size and is dropped when the body is replaced, a waived reply
is continued once and a skip only concerns the milter that wants it.
---
 milter/manager/milter-manager-children.c | 185 ++++++++++++++---------
 1 file changed, 110 insertions(+), 75 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 25d2dae..288d4f9 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -445,6 +445,16 @@ dispose_body_related_data (MilterManagerChildrenPrivate *priv)
     }
 }
 
+static void
+dispose_end_of_message_chunk (MilterManagerChildrenPrivate *priv)
+{
+    if (priv->end_of_message_chunk) {
+        g_free(priv->end_of_message_chunk);
+        priv->end_of_message_chunk = NULL;
+    }
+    priv->end_of_message_size = 0;
+}
+
 static void
 dispose_reply_related_data (MilterManagerChildrenPrivate *priv)
 {
@@ -490,10 +500,7 @@ dispose_message_related_data (MilterManagerChildrenPrivate *priv)
 
     dispose_body_related_data(priv);
 
-    if (priv->end_of_message_chunk) {
-        g_free(priv->end_of_message_chunk);
-        priv->end_of_message_chunk = NULL;
-    }
+    dispose_end_of_message_chunk(priv);
 
     if (priv->change_from) {
         g_free(priv->change_from);
@@ -1195,6 +1202,25 @@ emit_replace_body_signal (MilterManagerChildren *children)
         return emit_replace_body_signal_file(children);
 }
 
+/*
+ * The child doesn't reply the sent command. If the command wasn't sent,
+ * the server context has already continued.
+ */
+static void
+continue_if_reply_is_waived (MilterServerContext *context,
+                             MilterServerContextState state,
+                             MilterStepFlags no_event_step)
+{
+    if (milter_server_context_need_reply(context, state))
+        return;
+    if (milter_server_context_is_enable_step(context, no_event_step))
+        return;
+    if (!milter_server_context_is_processing_message(context))
+        return;
+
+    g_signal_emit_by_name(context, "continue");
+}
+
 static MilterStatus
 send_command_to_child (MilterManagerChildren *children,
                        MilterServerContext *context,
@@ -1212,10 +1238,9 @@ send_command_to_child (MilterManagerChildren *children,
         priv->processing_state = MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER;
         if (milter_server_context_end_of_header(context)) {
             status = MILTER_STATUS_PROGRESS;
-            if (!milter_server_context_need_reply(context,
-                                                 priv->processing_state)) {
-                g_signal_emit_by_name(context, "continue");
-            }
+            continue_if_reply_is_waived(context,
+                                        priv->processing_state,
+                                        MILTER_STEP_NO_END_OF_HEADER);
         } else {
             status = child_command_failed(children, context);
         }
@@ -1342,22 +1367,6 @@ emit_reply_for_message_oriented_command (MilterManagerChildren *children,
     emit_reply_status_of_state(children, state);
 }
 
-static MilterCommand
-fetch_first_command_for_child_in_queue (MilterServerContext *child,
-                                        GList **queue)
-{
-    GList *node;
-
-    for (node = *queue; node; node = g_list_next(node)) {
-        MilterCommand next_command;
-
-        next_command = GPOINTER_TO_INT(node->data);
-        return next_command;
-    }
-
-    return -1;
-}
-
 static void
 emit_continue_for_message_oriented_command (MilterManagerChildren *children)
 {
@@ -1372,6 +1381,16 @@ emit_continue_for_message_oriented_command (MilterManagerChildren *children)
     g_signal_emit_by_name(children, "continue");
 }
 
+static void
+handle_status (MilterManagerChildren *children,
+               MilterStatus status)
+{
+    if (status == MILTER_STATUS_PROGRESS)
+        return;
+
+    emit_continue_for_message_oriented_command(children);
+}
+
 static MilterStatus
 send_first_command_to_next_child (MilterManagerChildren *children,
                                   MilterServerContext *context)
@@ -1391,40 +1410,33 @@ send_first_command_to_first_waiting_child (MilterManagerChildren *children)
 {
     MilterManagerChildrenPrivate *priv;
     MilterServerContext *next_child;
-    MilterCommand first_command;
+    MilterStatus status;
 
     /* FIXME: don't want to return PROGRESS. */
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
 
     priv->need_replay = FALSE;
     priv->processing_header_index = 0;
+    priv->replaced_body_for_each_child = FALSE;
 
     next_child = get_first_child_in_command_waiting_child_queue(children);
     if (!next_child) {
+        /* No child is interested in the message before its end. */
+        if (priv->state != MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE)
+            g_hash_table_remove(priv->reply_statuses,
+                                GINT_TO_POINTER(priv->state));
+        compile_reply_status(children, priv->state, MILTER_STATUS_ACCEPT);
         emit_reply_for_message_oriented_command(children, priv->state);
         return MILTER_STATUS_PROGRESS;
     }
 
-    first_command = fetch_first_command_for_child_in_queue(next_child,
-                                                           &priv->command_queue);
-    if (first_command == -1)
-        emit_continue_for_message_oriented_command(children);
-    else
-        send_command_to_child(children, next_child, first_command);
+    status = send_next_command(children, next_child,
+                               MILTER_SERVER_CONTEXT_STATE_START);
+    handle_status(children, status);
 
     return MILTER_STATUS_PROGRESS;
 }
 
-static void
-handle_status (MilterManagerChildren *children,
-               MilterStatus status)
-{
-    if (status == MILTER_STATUS_PROGRESS)
-        return;
-
-    emit_continue_for_message_oriented_command(children);
-}
-
 static void
 cb_continue (MilterServerContext *context, gpointer user_data)
 {
@@ -1800,14 +1812,9 @@ cb_skip (MilterServerContext *context, gpointer user_data)
 
     state = milter_server_context_get_state(context);
 
-    compile_reply_status(children, state, MILTER_STATUS_SKIP);
-
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
-    if (priv->state < MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE) {
-        g_signal_emit_by_name(children, "continue");
-    } else {
-        send_next_command(children, context, state);
-    }
+    priv->sending_body = FALSE;
+    handle_status(children, send_next_command(children, context, state));
 }
 
 static gboolean
@@ -2163,8 +2170,10 @@ cb_replace_body (MilterServerContext *context,
                            "<%" G_GSIZE_FORMAT ">", chunk_size))
         return;
 
-    if (!priv->replaced_body_for_each_child)
+    if (!priv->replaced_body_for_each_child) {
         dispose_body_related_data(priv);
+        dispose_end_of_message_chunk(priv);
+    }
 
     if (!write_body(children, chunk, chunk_size))
         return;
@@ -2257,6 +2266,10 @@ cb_stopped (MilterServerContext *context, gpointer user_data)
         cb_continue(context, user_data);
         break;
     case MILTER_SERVER_CONTEXT_STATE_DATA:
+        compile_reply_status(children, state, MILTER_STATUS_ACCEPT);
+        milter_server_context_abort(context);
+        remove_child_from_queue(children, context);
+        break;
     case MILTER_SERVER_CONTEXT_STATE_HEADER:
     case MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER:
     case MILTER_SERVER_CONTEXT_STATE_BODY:
@@ -3085,23 +3098,32 @@ child_establish_connection (MilterManagerChild *child,
 
 static MilterCommand
 get_next_command (MilterManagerChildren *children,
-                  MilterServerContext *context,
                   MilterServerContextState state)
 {
     MilterManagerChildrenPrivate *priv;
-    GList *node;
-    MilterCommand current_command;
 
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
 
-    current_command = state_to_command(state);
+    if (state < MILTER_SERVER_CONTEXT_STATE_HEADER &&
+        priv->headers && milter_headers_length(priv->headers) > 0)
+        return MILTER_COMMAND_HEADER;
+
+    if (state < MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER &&
+        g_list_find(priv->command_queue,
+                    GINT_TO_POINTER(MILTER_COMMAND_END_OF_HEADER)))
+        return MILTER_COMMAND_END_OF_HEADER;
 
-    node = g_list_find(priv->command_queue, GINT_TO_POINTER(current_command));
-    if (!node || !g_list_next(node))
-        return -1;
+    /* The body may be made by other child. */
+    if (state < MILTER_SERVER_CONTEXT_STATE_BODY &&
+        (priv->body_file || (priv->body && priv->body->len > 0)))
+        return MILTER_COMMAND_BODY;
 
-    node = g_list_next(node);
-    return fetch_first_command_for_child_in_queue(context, &node);
+    if (state < MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE &&
+        g_list_find(priv->command_queue,
+                    GINT_TO_POINTER(MILTER_COMMAND_END_OF_MESSAGE)))
+        return MILTER_COMMAND_END_OF_MESSAGE;
+
+    return -1;
 }
 
 static MilterStatus
@@ -3111,7 +3133,7 @@ send_next_command (MilterManagerChildren *children,
 {
     MilterCommand next_command;
 
-    next_command = get_next_command(children, context, processing_state);
+    next_command = get_next_command(children, processing_state);
     if (next_command == -1)
         return MILTER_STATUS_NOT_CHANGE;
 
@@ -3757,11 +3779,10 @@ send_next_header_to_child (MilterManagerChildren *children, MilterServerContext
     if (milter_server_context_header(context,
                                      header->name,
                                      header->value + value_offset)) {
-        MilterStatus status = MILTER_STATUS_PROGRESS;
-        if (!milter_server_context_need_reply(context, priv->processing_state)) {
-            g_signal_emit_by_name(context, "continue");
-        }
-        return status;
+        continue_if_reply_is_waived(context,
+                                    priv->processing_state,
+                                    MILTER_STEP_NO_HEADERS);
+        return MILTER_STATUS_PROGRESS;
     } else {
         return child_command_failed(children, context);
     }
@@ -3902,6 +3923,17 @@ write_body_to_file (MilterManagerChildren *children,
     if (!chunk || size == 0)
         return TRUE;
 
+    /* The written body may be read from other child. */
+    g_io_channel_seek_position(priv->body_file, 0, G_SEEK_END, &error);
+    if (error) {
+        milter_error("[%u] [children][error][body][write][seek] %s",
+                     priv->tag, error->message);
+        milter_error_emittable_emit(MILTER_ERROR_EMITTABLE(children),
+                                    error);
+        g_error_free(error);
+        return FALSE;
+    }
+
     g_io_channel_write_chars(priv->body_file, chunk, size, &written_size, &error);
     if (error) {
         milter_error("[%u] [children][error][body][write] %s",
@@ -4017,10 +4049,14 @@ milter_manager_children_body (MilterManagerChildren *children,
         milter_server_context_set_state(first_child, MILTER_SERVER_CONTEXT_STATE_BODY);
         g_signal_emit_by_name(first_child, "continue");
         return TRUE;
-    } else {
-        return milter_server_context_body(first_child, chunk, size);
     }
 
+    if (milter_server_context_body(first_child, chunk, size)) {
+        continue_if_reply_is_waived(first_child, state, MILTER_STEP_NO_BODY);
+    } else {
+        child_command_failed(children, first_child);
+    }
+    return TRUE;
 }
 
 static MilterStatus
@@ -4184,13 +4220,13 @@ send_body_to_child (MilterManagerChildren *children, MilterServerContext *contex
     else
         status = send_body_to_child_file(children, context);
 
-    if (status == MILTER_STATUS_PROGRESS &&
-        !milter_server_context_need_reply(context, priv->processing_state)) {
-        g_signal_emit_by_name(context, "continue");
-    }
-
-    if (status != MILTER_STATUS_PROGRESS)
+    if (status == MILTER_STATUS_PROGRESS) {
+        continue_if_reply_is_waived(context,
+                                    MILTER_SERVER_CONTEXT_STATE_BODY,
+                                    MILTER_STEP_NO_BODY);
+    } else {
         priv->sending_body = FALSE;
+    }
 
     return status;
 }
@@ -4232,9 +4268,8 @@ milter_manager_children_end_of_message (MilterManagerChildren *children,
     if (!priv->original_headers)
         priv->original_headers = milter_headers_copy(priv->headers);
 
-    if (priv->end_of_message_chunk)
-        g_free(priv->end_of_message_chunk);
-    priv->end_of_message_chunk = g_strdup(chunk);
+    dispose_end_of_message_chunk(priv);
+    priv->end_of_message_chunk = g_memdup(chunk, size);
     priv->end_of_message_size = size;
     if (priv->body_file)
         g_io_channel_seek_position(priv->body_file, 0, G_SEEK_SET, NULL);
-- 
2.43.0


From 89528b5b2aac0fb4f594ef12a29f5c488c52fd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:37 +0000
Subject: [PATCH 15/61] fix: change headers of the MTA in the same way as
 milters changed them

Comparing the original and the last headers lost the order, mixed up
headers that have the same name and missed names in different case.
---
 milter/core/milter-headers.c             |   2 +-
 milter/manager/milter-manager-children.c | 133 +++++++++++++----------
 2 files changed, 76 insertions(+), 59 deletions(-)

diff --git a/milter/core/milter-headers.c b/milter/core/milter-headers.c
index 1f4d5cf..d84d494 100644
--- a/milter/core/milter-headers.c
+++ b/milter/core/milter-headers.c
@@ -424,7 +424,7 @@ milter_headers_lookup_by_name_with_index (MilterHeaders *headers,
     for (node = priv->header_list; node; node = g_list_next(node)) {
         MilterHeader *header = node->data;
 
-        if (!string_equal(header->name, name))
+        if (g_ascii_strcasecmp(header->name, name) != 0)
             continue;
 
         found_count++;
diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 288d4f9..0994a68 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -57,6 +57,23 @@ struct _PendingMessageRequest
     } arguments;
 };
 
+typedef enum
+{
+    HEADER_CHANGE_ADD,
+    HEADER_CHANGE_INSERT,
+    HEADER_CHANGE_CHANGE,
+    HEADER_CHANGE_DELETE
+} HeaderChangeType;
+
+typedef struct _HeaderChange HeaderChange;
+struct _HeaderChange
+{
+    HeaderChangeType type;
+    gchar *name;
+    guint32 index;
+    gchar *value;
+};
+
 typedef struct _MilterManagerChildrenPrivate	MilterManagerChildrenPrivate;
 struct _MilterManagerChildrenPrivate
 {
@@ -83,7 +100,7 @@ struct _MilterManagerChildrenPrivate
 
     struct sockaddr *smtp_client_address;
     socklen_t smtp_client_address_length;
-    MilterHeaders *original_headers;
+    GList *header_changes;
     MilterHeaders *headers;
     gint processing_header_index;
     GString *body;
@@ -290,7 +307,7 @@ milter_manager_children_init (MilterManagerChildren *milter)
 
     priv->smtp_client_address = NULL;
     priv->smtp_client_address_length = 0;
-    priv->original_headers = NULL;
+    priv->header_changes = NULL;
     priv->headers = NULL;
     priv->processing_header_index = 0;
     priv->body = NULL;
@@ -425,6 +442,29 @@ dispose_pending_message_request (MilterManagerChildrenPrivate *priv)
     }
 }
 
+static void
+append_header_change (MilterManagerChildrenPrivate *priv,
+                      HeaderChangeType type,
+                      const gchar *name, guint32 index, const gchar *value)
+{
+    HeaderChange *change;
+
+    change = g_slice_new0(HeaderChange);
+    change->type = type;
+    change->name = g_strdup(name);
+    change->index = index;
+    change->value = g_strdup(value);
+    priv->header_changes = g_list_append(priv->header_changes, change);
+}
+
+static void
+header_change_free (HeaderChange *change)
+{
+    g_free(change->name);
+    g_free(change->value);
+    g_slice_free(HeaderChange, change);
+}
+
 static void
 dispose_body_related_data (MilterManagerChildrenPrivate *priv)
 {
@@ -488,9 +528,10 @@ dispose_message_related_data (MilterManagerChildrenPrivate *priv)
         priv->command_queue = NULL;
     }
 
-    if (priv->original_headers) {
-        g_object_unref(priv->original_headers);
-        priv->original_headers = NULL;
+    if (priv->header_changes) {
+        g_list_free_full(priv->header_changes,
+                         (GDestroyNotify)header_change_free);
+        priv->header_changes = NULL;
     }
 
     if (priv->headers) {
@@ -1265,68 +1306,40 @@ send_command_to_child (MilterManagerChildren *children,
     return status;
 }
 
+/*
+ * The MTA has the headers the first child received. So the MTA gets the
+ * same headers as the last child by the same changes in the same order.
+ */
 static void
 emit_header_signals (MilterManagerChildren *children)
 {
     MilterManagerChildrenPrivate *priv;
-    const GList *header_list, *node;
-    MilterHeaders *processing_headers;
-    gint i;
+    GList *node;
 
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
 
-    processing_headers = milter_headers_copy(priv->original_headers);
-    header_list = milter_headers_get_list(priv->headers);
-
-    /* FIXME the following process admits improvement. */
-    for (node = header_list, i = 0;
-         node;
-         node = g_list_next(node), i++) {
-        MilterHeader *header = node->data;
-        MilterHeader *found_header;
-        gint index;
+    for (node = priv->header_changes; node; node = g_list_next(node)) {
+        HeaderChange *change = node->data;
 
-        if (milter_headers_find(processing_headers, header)) {
-            milter_headers_remove(processing_headers, header);
-            continue;
-        }
-
-        found_header = milter_headers_lookup_by_name(processing_headers,
-                                                     header->name);
-        if (!found_header) {
-            g_signal_emit_by_name(children, "insert-header",
-                                  i, header->name, header->value);
-            continue;
-        }
-        index = milter_headers_index_in_same_header_name(priv->original_headers,
-                                                         found_header);
-        if (index == -1) {
+        switch (change->type) {
+        case HEADER_CHANGE_ADD:
             g_signal_emit_by_name(children, "add-header",
-                                  header->name, header->value);
-        } else {
+                                  change->name, change->value);
+            break;
+        case HEADER_CHANGE_INSERT:
+            g_signal_emit_by_name(children, "insert-header",
+                                  change->index, change->name, change->value);
+            break;
+        case HEADER_CHANGE_CHANGE:
             g_signal_emit_by_name(children, "change-header",
-                                  header->name, index, header->value);
-            milter_headers_remove(processing_headers, found_header);
-        }
-    }
-
-    if (milter_headers_length(processing_headers) > 0) {
-        header_list = milter_headers_get_list(processing_headers);
-
-        for (node = g_list_last((GList *)header_list);
-             node;
-             node = g_list_previous(node)) {
-            MilterHeader *header = node->data;
-            gint index;
-
-            index = milter_headers_index_in_same_header_name(priv->original_headers,
-                                                             header);
+                                  change->name, change->index, change->value);
+            break;
+        case HEADER_CHANGE_DELETE:
             g_signal_emit_by_name(children, "delete-header",
-                                  header->name, index);
+                                  change->name, change->index);
+            break;
         }
     }
-
-    g_object_unref(processing_headers);
 }
 
 static void
@@ -1338,8 +1351,7 @@ emit_signals_on_end_of_message (MilterManagerChildren *children)
     if (priv->replaced_body)
         emit_replace_body_signal(children);
 
-    if (priv->original_headers)
-        emit_header_signals(children);
+    emit_header_signals(children);
 
     if (priv->change_from)
         g_signal_emit_by_name(children, "change-from",
@@ -1973,6 +1985,8 @@ cb_add_header (MilterServerContext *context,
     normalized_value = normalize_header_value(children, context, value);
     milter_headers_add_header(priv->headers, name,
                               normalized_value ? normalized_value : value);
+    append_header_change(priv, HEADER_CHANGE_ADD, name, 0,
+                         normalized_value ? normalized_value : value);
 
     if (normalized_value)
         g_free(normalized_value);
@@ -2014,6 +2028,8 @@ cb_insert_header (MilterServerContext *context,
     normalized_value = normalize_header_value(children, context, value);
     milter_headers_insert_header(priv->headers, index, name,
                                  normalized_value ? normalized_value : value);
+    append_header_change(priv, HEADER_CHANGE_INSERT, name, index,
+                         normalized_value ? normalized_value : value);
 
     if (normalized_value)
         g_free(normalized_value);
@@ -2056,6 +2072,8 @@ cb_change_header (MilterServerContext *context,
     milter_headers_change_header(priv->headers,
                                  name, index,
                                  normalized_value ? normalized_value : value);
+    append_header_change(priv, HEADER_CHANGE_CHANGE, name, index,
+                         normalized_value ? normalized_value : value);
 
     if (normalized_value)
         g_free(normalized_value);
@@ -2080,6 +2098,7 @@ cb_delete_header (MilterServerContext *context,
         return;
 
     milter_headers_delete_header(priv->headers, name, index);
+    append_header_change(priv, HEADER_CHANGE_DELETE, name, index, NULL);
 }
 
 static void
@@ -4265,8 +4284,6 @@ milter_manager_children_end_of_message (MilterManagerChildren *children,
     priv->processing_header_index = 0;
     if (!priv->headers)
         priv->headers = milter_headers_new();
-    if (!priv->original_headers)
-        priv->original_headers = milter_headers_copy(priv->headers);
 
     dispose_end_of_message_chunk(priv);
     priv->end_of_message_chunk = g_memdup(chunk, size);
-- 
2.43.0


From e5c5f8845a9633d72f8e6b4da3a614f001655ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:20 +0000
Subject: [PATCH 16/61] fix: don't use data of the previous message for the
 next message

---
 milter/manager/milter-manager-children.c | 44 +++++++++++++++++++-----
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 0994a68..d2ab5e1 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -121,6 +121,7 @@ struct _MilterManagerChildrenPrivate
     gboolean finished;
     gboolean emitted_reply_for_message_oriented_command;
     gboolean need_replay;
+    gboolean defined_envelope_from_macros;
 
     guint tag;
 
@@ -337,6 +338,7 @@ milter_manager_children_init (MilterManagerChildren *milter)
     priv->finished = FALSE;
     priv->emitted_reply_for_message_oriented_command = FALSE;
     priv->need_replay = FALSE;
+    priv->defined_envelope_from_macros = FALSE;
 
     priv->tag = 0;
 
@@ -517,6 +519,10 @@ dispose_message_related_data (MilterManagerChildrenPrivate *priv)
     dispose_pending_message_request(priv);
 
     priv->need_replay = FALSE;
+    priv->processing_header_index = 0;
+    priv->sending_body = FALSE;
+    priv->replaced_body = FALSE;
+    priv->replaced_body_for_each_child = FALSE;
 
     if (priv->command_waiting_child_queue) {
         g_list_free(priv->command_waiting_child_queue);
@@ -3373,6 +3379,24 @@ milter_manager_children_negotiate (MilterManagerChildren *children,
     return success;
 }
 
+static void
+reset_message_related_data (MilterManagerChildren *children)
+{
+    GList *node;
+    MilterManagerChildrenPrivate *priv;
+
+    priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
+
+    dispose_message_related_data(priv);
+
+    for (node = priv->milters; node; node = g_list_next(node)) {
+        MilterServerContext *context = MILTER_SERVER_CONTEXT(node->data);
+
+        if (!milter_server_context_is_quitted(context))
+            milter_server_context_reset_message_related_data(context);
+    }
+}
+
 gboolean
 milter_manager_children_define_macro (MilterManagerChildren *children,
                                       MilterCommand command,
@@ -3383,6 +3407,12 @@ milter_manager_children_define_macro (MilterManagerChildren *children,
 
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
 
+    if (command == MILTER_COMMAND_ENVELOPE_FROM) {
+        /* A new message is started. */
+        reset_message_related_data(children);
+        priv->defined_envelope_from_macros = TRUE;
+    }
+
     for (node = priv->milters; node; node = g_list_next(node)) {
         MilterManagerChild *child = node->data;
         MilterServerContext *context;
@@ -3597,6 +3627,11 @@ milter_manager_children_envelope_from (MilterManagerChildren *children,
 
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
 
+    /* The previous message may not be processed until its end. */
+    if (!priv->defined_envelope_from_macros)
+        reset_message_related_data(children);
+    priv->defined_envelope_from_macros = FALSE;
+
     init_reply_queue(children, state);
     for (child = priv->milters; child; child = g_list_next(child)) {
         MilterServerContext *context = MILTER_SERVER_CONTEXT(child->data);
@@ -4358,14 +4393,7 @@ milter_manager_children_abort (MilterManagerChildren *children)
     }
 
     /* FIXME: should emit some signal for logging? */
-    dispose_message_related_data(priv);
-
-    for (child = priv->milters; child; child = g_list_next(child)) {
-        MilterServerContext *context = MILTER_SERVER_CONTEXT(child->data);
-
-        if (!milter_server_context_is_quitted(context))
-            milter_server_context_reset_message_related_data(context);
-    }
+    reset_message_related_data(children);
 
     return success;
 }
-- 
2.43.0


From eb156f26ad30e34a8e4b2955d903a1a34b82a7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:20 +0000
Subject: [PATCH 17/61] fix: don't drop macros of commands a milter doesn't
 request macros for

---
 milter/server/milter-server-context.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index db7dd00..1695783 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -1023,11 +1023,11 @@ prepend_macro (MilterServerContext *context, GString *packed_packet,
     if (macros_requests) {
         request_symbols =
             milter_macros_requests_get_symbols(macros_requests, command);
-        if (request_symbols)
+        /* Macros of a command that isn't requested aren't restricted. */
+        if (request_symbols) {
             filtered_macros = filter_macros(macros, request_symbols);
-        if (!filtered_macros)
-            return;
-        target_macros = filtered_macros;
+            target_macros = filtered_macros;
+        }
     }
 
     encoder = milter_agent_get_encoder(agent);
-- 
2.43.0


From 1a10e4359b2b80c5d2d7f71650ce30ca3ccc0180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:06 +0000
Subject: [PATCH 18/61] fix: keep a pending chunk of body by its size

A chunk of body may include NUL.
---
 milter/manager/milter-manager-children.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index d2ab5e1..d8da0ae 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -397,7 +397,7 @@ pending_body_request_new (const gchar *chunk, gsize size)
     PendingMessageRequest *request;
 
     request = pending_message_request_new(MILTER_COMMAND_BODY);
-    request->arguments.body.chunk = g_strndup(chunk, size);
+    request->arguments.body.chunk = g_memdup(chunk, size);
     request->arguments.body.size = size;
 
     return request;
@@ -409,7 +409,7 @@ pending_end_of_message_request_new (const gchar *chunk, gsize size)
     PendingMessageRequest *request;
 
     request = pending_message_request_new(MILTER_COMMAND_END_OF_MESSAGE);
-    request->arguments.end_of_message.chunk = g_strndup(chunk, size);
+    request->arguments.end_of_message.chunk = g_memdup(chunk, size);
     request->arguments.end_of_message.size = size;
 
     return request;
-- 
2.43.0


From 5535d440a7c88886df6915d71b42c728e8941b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:21 +0000
Subject: [PATCH 19/61] fix: don't lose body chunk after NUL

G_TYPE_STRING argument is copied as a NUL terminated string on
signal emission. So a body chunk was broken when it included NUL and
memory after the chunk was read when it didn't include NUL.
---
 milter/client/milter-client-context.c |  4 ++--
 milter/core/milter-command-decoder.c  |  4 ++--
 milter/core/milter-reply-signals.c    |  2 +-
 milter/server/milter-server-context.c | 12 ++++++++----
 4 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/milter/client/milter-client-context.c b/milter/client/milter-client-context.c
index 8ba6cb8..2596661 100644
--- a/milter/client/milter-client-context.c
+++ b/milter/client/milter-client-context.c
@@ -1749,7 +1749,7 @@ milter_client_context_class_init (MilterClientContextClass *klass)
                      NULL,
                      MILTER_TYPE_STATUS,
                      2,
-                     G_TYPE_STRING,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
 #if GLIB_SIZEOF_SIZE_T == 8
                      G_TYPE_UINT64
 #else
@@ -1907,7 +1907,7 @@ milter_client_context_class_init (MilterClientContextClass *klass)
                      NULL,
                      MILTER_TYPE_STATUS,
                      2,
-                     G_TYPE_STRING,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
 #if GLIB_SIZEOF_SIZE_T == 8
                      G_TYPE_UINT64
 #else
diff --git a/milter/core/milter-command-decoder.c b/milter/core/milter-command-decoder.c
index d699104..4491ea7 100644
--- a/milter/core/milter-command-decoder.c
+++ b/milter/core/milter-command-decoder.c
@@ -177,7 +177,7 @@ milter_command_decoder_class_init (MilterCommandDecoderClass *klass)
                      NULL,
                      G_TYPE_NONE,
                      2,
-                     G_TYPE_STRING,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
 #if GLIB_SIZEOF_SIZE_T == 8
                       G_TYPE_UINT64
 #else
@@ -194,7 +194,7 @@ milter_command_decoder_class_init (MilterCommandDecoderClass *klass)
                      NULL,
                      G_TYPE_NONE,
                      2,
-                     G_TYPE_STRING,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
 #if GLIB_SIZEOF_SIZE_T == 8
                      G_TYPE_UINT64
 #else
diff --git a/milter/core/milter-reply-signals.c b/milter/core/milter-reply-signals.c
index 5b9c6e2..e234a0a 100644
--- a/milter/core/milter-reply-signals.c
+++ b/milter/core/milter-reply-signals.c
@@ -195,7 +195,7 @@ base_init (gpointer klass)
                      NULL,
                      G_TYPE_NONE,
                      2,
-                     G_TYPE_STRING,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
 #if GLIB_SIZEOF_SIZE_T == 8
                      G_TYPE_UINT64
 #else
diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index 1695783..cc6b84c 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -295,10 +295,12 @@ milter_server_context_class_init (MilterServerContextClass *klass)
                      stop_on_accumulator, NULL,
 #if GLIB_SIZEOF_SIZE_T == 8
                      NULL,
-                     G_TYPE_BOOLEAN, 2, G_TYPE_STRING, G_TYPE_UINT64
+                     G_TYPE_BOOLEAN, 2,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE, G_TYPE_UINT64
 #else
                      NULL,
-                     G_TYPE_BOOLEAN, 2, G_TYPE_STRING, G_TYPE_UINT
+                     G_TYPE_BOOLEAN, 2,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE, G_TYPE_UINT
 #endif
             );
 
@@ -311,10 +313,12 @@ milter_server_context_class_init (MilterServerContextClass *klass)
                      stop_on_accumulator, NULL,
 #if GLIB_SIZEOF_SIZE_T == 8
                      NULL,
-                     G_TYPE_BOOLEAN, 2, G_TYPE_STRING, G_TYPE_UINT64
+                     G_TYPE_BOOLEAN, 2,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE, G_TYPE_UINT64
 #else
                      NULL,
-                     G_TYPE_BOOLEAN, 2, G_TYPE_STRING, G_TYPE_UINT
+                     G_TYPE_BOOLEAN, 2,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE, G_TYPE_UINT
 #endif
             );
 
-- 
2.43.0


From 708316552d70caa383033d20d2932fe44a71dc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:22 +0000
Subject: [PATCH 20/61] fix: an evaluated milter that discards a message has
 done with it

---
 milter/manager/milter-manager-children.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index d8da0ae..332978e 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -1766,7 +1766,7 @@ cb_discard (MilterServerContext *context, gpointer user_data)
     evaluation_mode =
         milter_manager_child_is_evaluation_mode(MILTER_MANAGER_CHILD(context));
     if (evaluation_mode) {
-        status = evaluated_status(state);
+        status = MILTER_STATUS_ACCEPT;
         if (milter_need_debug_log()) {
             gchar *state_name;
             state_name =
@@ -1789,6 +1789,8 @@ cb_discard (MilterServerContext *context, gpointer user_data)
         remove_child_from_queue(children, context);
         break;
     case MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT:
+        if (evaluation_mode)
+            milter_server_context_set_processing_message(context, FALSE);
         remove_child_from_queue(children, context);
         break;
     case MILTER_SERVER_CONTEXT_STATE_HEADER:
-- 
2.43.0


From d1df2c6300be44344b7a378c14b58c49935b5c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:33 +0000
Subject: [PATCH 21/61] fix: pass requested macros whose name is enclosed with
 braces

---
 milter/server/milter-server-context.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index cc6b84c..64c196f 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -971,6 +971,18 @@ milter_server_context_is_processing (MilterServerContext *context)
     return priv->timeout_id != 0;
 }
 
+static gchar *
+normalize_macro_name (const gchar *name)
+{
+    gsize length;
+
+    length = strlen(name);
+    if (length > 2 && name[0] == '{' && name[length - 1] == '}')
+        return g_strndup(name + 1, length - 2);
+    else
+        return g_strdup(name);
+}
+
 static GHashTable *
 filter_macros (GHashTable *macros, GList *request_symbols)
 {
@@ -981,12 +993,15 @@ filter_macros (GHashTable *macros, GList *request_symbols)
                                             g_free, g_free);
 
     for (symbol = request_symbols; symbol; symbol = g_list_next(symbol)) {
+        gchar *name;
         const gchar *value;
-        value = g_hash_table_lookup(macros, symbol->data);
+
+        name = normalize_macro_name(symbol->data);
+        value = g_hash_table_lookup(macros, name);
         if (value) {
-            g_hash_table_insert(filtered_macros,
-                                g_strdup(symbol->data),
-                                g_strdup(value));
+            g_hash_table_insert(filtered_macros, name, g_strdup(value));
+        } else {
+            g_free(name);
         }
     }
 
-- 
2.43.0


From e676ceef5d6418e36f7f2e5a23e7a5afb68255c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:08 +0000
Subject: [PATCH 22/61] fix: refuse changes that are not negotiated by the
 milter

---
 milter/manager/milter-manager-children.c | 58 ++++++++++++++++++++++++
 1 file changed, 58 insertions(+)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 332978e..bddb20c 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -1917,6 +1917,26 @@ is_end_of_message_state (MilterManagerChildren *children,
     return FALSE;
 }
 
+static gboolean
+is_negotiated_action (MilterManagerChildren *children,
+                      MilterServerContext *context,
+                      const gchar *requested_action_name,
+                      MilterActionFlags action)
+{
+    MilterOption *option;
+
+    option = milter_server_context_get_option(context);
+    if (option && (milter_option_get_action(option) & action) == action)
+        return TRUE;
+
+    milter_error("[%u] [children][error][not-negotiated][%s] [%u] %s",
+                 MILTER_MANAGER_CHILDREN_GET_PRIVATE(children)->tag,
+                 requested_action_name,
+                 milter_agent_get_tag(MILTER_AGENT(context)),
+                 milter_server_context_get_name(context));
+    return FALSE;
+}
+
 static gboolean
 is_evaluation_mode (MilterManagerChildren *children,
                     MilterServerContext *context,
@@ -1976,6 +1996,10 @@ cb_add_header (MilterServerContext *context,
                                  MILTER_LOG_NULL_SAFE_STRING(value)))
         return;
 
+    if (!is_negotiated_action(children, context, "add-header",
+                              MILTER_ACTION_ADD_HEADERS))
+        return;
+
     if (value) {
         milter_statistics("[milter][header][add](%u): <%s>=<%s>: %s",
                           milter_agent_get_tag(MILTER_AGENT(context)),
@@ -2018,6 +2042,10 @@ cb_insert_header (MilterServerContext *context,
                                  MILTER_LOG_NULL_SAFE_STRING(value)))
         return;
 
+    if (!is_negotiated_action(children, context, "insert-header",
+                              MILTER_ACTION_ADD_HEADERS))
+        return;
+
     if (value) {
         milter_statistics("[milter][header][add](%u): <%s>=<%s>: %s",
                           milter_agent_get_tag(MILTER_AGENT(context)),
@@ -2061,6 +2089,10 @@ cb_change_header (MilterServerContext *context,
                                  MILTER_LOG_NULL_SAFE_STRING(value)))
         return;
 
+    if (!is_negotiated_action(children, context, "change-header",
+                              MILTER_ACTION_CHANGE_HEADERS))
+        return;
+
     if (value) {
         milter_statistics("[milter][header][add](%u): <%s>=<%s>: %s",
                           milter_agent_get_tag(MILTER_AGENT(context)),
@@ -2101,6 +2133,10 @@ cb_delete_header (MilterServerContext *context,
                                  "<%s>[%u]", name, index))
         return;
 
+    if (!is_negotiated_action(children, context, "delete-header",
+                              MILTER_ACTION_CHANGE_HEADERS))
+        return;
+
     if (is_evaluation_mode(children, context, "delete-header",
                            "<%s>[%u]", name, index))
         return;
@@ -2125,6 +2161,10 @@ cb_change_from (MilterServerContext *context,
                                  MILTER_LOG_NULL_SAFE_STRING(parameters)))
         return;
 
+    if (!is_negotiated_action(children, context, "change-from",
+                              MILTER_ACTION_CHANGE_ENVELOPE_FROM))
+        return;
+
     if (is_evaluation_mode(children, context, "change-from",
                            "<<%s> <%s>>",
                            from,
@@ -2152,6 +2192,12 @@ cb_add_recipient (MilterServerContext *context,
                                  MILTER_LOG_NULL_SAFE_STRING(parameters)))
         return;
 
+    if (!is_negotiated_action(
+            children, context, "add-recipient",
+            parameters ? MILTER_ACTION_ADD_ENVELOPE_RECIPIENT_WITH_PARAMETERS :
+                         MILTER_ACTION_ADD_ENVELOPE_RECIPIENT))
+        return;
+
     if (is_evaluation_mode(children, context, "add-recipient",
                            "<<%s> <%s>>",
                            recipient,
@@ -2172,6 +2218,10 @@ cb_delete_recipient (MilterServerContext *context,
                                  "<%s>", recipient))
         return;
 
+    if (!is_negotiated_action(children, context, "delete-recipient",
+                              MILTER_ACTION_DELETE_ENVELOPE_RECIPIENT))
+        return;
+
     if (is_evaluation_mode(children, context, "delete-recipient",
                            "<%s>", recipient))
         return;
@@ -2193,6 +2243,10 @@ cb_replace_body (MilterServerContext *context,
                                  "<%" G_GSIZE_FORMAT ">", chunk_size))
         return;
 
+    if (!is_negotiated_action(children, context, "replace-body",
+                              MILTER_ACTION_CHANGE_BODY))
+        return;
+
     if (is_evaluation_mode(children, context, "replace-body",
                            "<%" G_GSIZE_FORMAT ">", chunk_size))
         return;
@@ -2246,6 +2300,10 @@ cb_quarantine (MilterServerContext *context,
                                  "<%s>", reason))
         return;
 
+    if (!is_negotiated_action(children, context, "quarantine",
+                              MILTER_ACTION_QUARANTINE))
+        return;
+
     if (is_evaluation_mode(children, context, "quarantine",
                            "<%s>", reason))
         return;
-- 
2.43.0


From 3517ec29bc889cc40190e2de29599aca56280c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:08 +0000
Subject: [PATCH 23/61] fix: require add-recipient-with-parameters action for
 parameters

---
 milter/client/milter-client-context.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/milter/client/milter-client-context.c b/milter/client/milter-client-context.c
index 2596661..66ebd67 100644
--- a/milter/client/milter-client-context.c
+++ b/milter/client/milter-client-context.c
@@ -3069,6 +3069,8 @@ milter_client_context_add_recipient (MilterClientContext *context,
         return FALSE;
 
     if (!validate_action("add-recipient",
+                         parameters ?
+                         MILTER_ACTION_ADD_ENVELOPE_RECIPIENT_WITH_PARAMETERS :
                          MILTER_ACTION_ADD_ENVELOPE_RECIPIENT,
                          priv->option,
                          error))
-- 
2.43.0


From c6719cf9ce67ad8936545b35d97060528a74a703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:10 +0000
Subject: [PATCH 24/61] fix: reply to negotiation even if a milter fails in
 negotiation

---
 milter/manager/milter-manager-children.c | 3 ++-
 milter/server/milter-server-context.c    | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index bddb20c..5b3a824 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -2645,7 +2645,8 @@ cb_finished (MilterAgent *agent, gpointer user_data)
         g_free(state_name);
     }
 
-    if (milter_server_context_is_quitted(context)) {
+    if (priv->processing_state != MILTER_SERVER_CONTEXT_STATE_NEGOTIATE &&
+        milter_server_context_is_quitted(context)) {
         /* The child was quitted because it had already replied. */
         expire_child(children, context);
         remove_child_from_queue(children, context);
diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index 64c196f..2807fef 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -2438,6 +2438,12 @@ check_reply_waited (MilterServerContext *context, const gchar *action)
     MilterServerContextPrivate *priv;
 
     priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
+    if (priv->state == MILTER_SERVER_CONTEXT_STATE_NEGOTIATE &&
+        !priv->negotiated && !g_str_equal(action, "negotiate-reply")) {
+        invalid_state(context, priv->state, action, "after negotiation");
+        return FALSE;
+    }
+
     if (priv->quitted || milter_server_context_is_processing(context))
         return TRUE;
 
-- 
2.43.0


From 12c171365ddbd92cd2b99f45e3a2cae8078d6730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:33 +0000
Subject: [PATCH 25/61] fix: don't send a message again while the MTA doesn't
 wait for reply

---
 milter/manager/milter-manager-children.c | 31 +++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 5b3a824..8e298cd 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -3811,6 +3811,26 @@ milter_manager_children_data (MilterManagerChildren *children)
     return success;
 }
 
+/*
+ * The next child must reply to the messages sent again but the MTA
+ * doesn't wait for it. So they are sent with the next command that needs
+ * a reply.
+ */
+static gboolean
+postpone_replay (MilterManagerChildren *children,
+                 MilterStepFlags no_reply_step)
+{
+    MilterManagerChildrenPrivate *priv;
+
+    priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
+    if (!(milter_option_get_step(priv->option) & no_reply_step))
+        return FALSE;
+
+    compile_reply_status(children, priv->state, MILTER_STATUS_CONTINUE);
+    emit_reply_for_message_oriented_command(children, priv->state);
+    return TRUE;
+}
+
 static MilterStatus
 send_command_to_first_waiting_child (MilterManagerChildren *children,
                                      MilterCommand command)
@@ -3821,8 +3841,15 @@ send_command_to_first_waiting_child (MilterManagerChildren *children,
     if (!first_child)
         return MILTER_STATUS_NOT_CHANGE;
 
-    if (MILTER_MANAGER_CHILDREN_GET_PRIVATE(children)->need_replay)
+    if (MILTER_MANAGER_CHILDREN_GET_PRIVATE(children)->need_replay) {
+        if (command == MILTER_COMMAND_HEADER &&
+            postpone_replay(children, MILTER_STEP_NO_REPLY_HEADER))
+            return MILTER_STATUS_PROGRESS;
+        if (command == MILTER_COMMAND_END_OF_HEADER &&
+            postpone_replay(children, MILTER_STEP_NO_REPLY_END_OF_HEADER))
+            return MILTER_STATUS_PROGRESS;
         return send_first_command_to_first_waiting_child(children);
+    }
 
     return send_command_to_child(children, first_child, command);
 }
@@ -4152,6 +4179,8 @@ milter_manager_children_body (MilterManagerChildren *children,
     priv->sending_body = FALSE;
 
     if (priv->need_replay) {
+        if (postpone_replay(children, MILTER_STEP_NO_REPLY_BODY))
+            return TRUE;
         return MILTER_STATUS_PROGRESS ==
             send_first_command_to_first_waiting_child(children);
     }
-- 
2.43.0


From f29bf30930735df7b84650c146347faf4a418d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:56 +0000
Subject: [PATCH 26/61] fix: write buffered packets before a writer is disposed

A quit sent to milters at the end of a session was never written because
the writers are disposed just after it is buffered.
---
 milter/core/milter-writer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/milter/core/milter-writer.c b/milter/core/milter-writer.c
index 66a293e..460f4c7 100644
--- a/milter/core/milter-writer.c
+++ b/milter/core/milter-writer.c
@@ -186,6 +186,8 @@ dispose (GObject *object)
 
     milter_trace("[%u] [writer][dispose]", priv->tag);
 
+    if (milter_writer_is_watching(MILTER_WRITER(object)))
+        milter_writer_shutdown(MILTER_WRITER(object));
     clear_watch_id(priv);
 
     if (priv->io_channel) {
-- 
2.43.0


From 78d5e808c91ee46c180f067453c2c901ecabbcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:26 +0000
Subject: [PATCH 27/61] fix: make a reply packet for a reply code with an empty
 message

---
 milter/core/milter-utils.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/milter/core/milter-utils.c b/milter/core/milter-utils.c
index 0221343..63c38c8 100644
--- a/milter/core/milter-utils.c
+++ b/milter/core/milter-utils.c
@@ -384,9 +384,13 @@ milter_utils_format_reply_code (guint reply_code,
     if (reply_code == 0)
         return NULL;
 
-    if (!reply_message)
-        reply_message = "";
-    messages = g_strsplit(reply_message, "\n", -1);
+    if (reply_message && reply_message[0] != '\0') {
+        messages = g_strsplit(reply_message, "\n", -1);
+    } else {
+        /* g_strsplit() returns no line for an empty string */
+        messages = g_new0(gchar *, 2);
+        messages[0] = g_strdup("");
+    }
 
     original_messages = messages;
     reply = g_string_new("");
-- 
2.43.0


From d94eab3381e9dae7f7289e5afa3ce7f6bba798e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:27 +0000
Subject: [PATCH 28/61] fix: call xxfi_negotiate with its context and map
 SMFIM_* of smfi_setsymlist

---
 libmilter/libmilter-compatible.c | 40 ++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/libmilter/libmilter-compatible.c b/libmilter/libmilter-compatible.c
index 577185a..3bc5c34 100644
--- a/libmilter/libmilter-compatible.c
+++ b/libmilter/libmilter-compatible.c
@@ -263,9 +263,10 @@ smfi_register (struct smfiDesc description)
 
 static MilterStatus
 cb_negotiate (MilterClientContext *context, MilterOption *option,
-              gpointer user_data)
+              MilterMacrosRequests *macros_requests, gpointer user_data)
 {
     SmfiContext *smfi_context = user_data;
+    MilterProtocolAgent *agent;
     sfsistat status;
     gulong action, step, preserve1 = 0, preserve2 = 0;
     gulong action_out, step_out, preserve1_out = 0, preserve2_out = 0;
@@ -275,11 +276,14 @@ cb_negotiate (MilterClientContext *context, MilterOption *option,
 
     action = action_out = milter_option_get_action(option);
     step = step_out = milter_option_get_step(option);
+    agent = MILTER_PROTOCOL_AGENT(context);
+    milter_protocol_agent_set_macros_requests(agent, macros_requests);
     status = filter_description->xxfi_negotiate(smfi_context,
                                                 action, step,
                                                 preserve1, preserve2,
                                                 &action_out, &step_out,
                                                 &preserve1_out, &preserve2_out);
+    milter_protocol_agent_set_macros_requests(agent, NULL);
     if (status == SMFIS_CONTINUE) {
         milter_option_set_action(option, action_out);
         milter_option_set_step(option, step_out);
@@ -1036,20 +1040,48 @@ smfi_setsymlist (SMFICTX *context, int state, char *macros)
     SmfiContextPrivate *priv;
     MilterProtocolAgent *agent;
     MilterMacrosRequests *macros_requests;
+    MilterCommand command;
     gchar **macro_array;
 
     priv = SMFI_CONTEXT_GET_PRIVATE(context);
-    if (!priv->client_context)
+    if (!priv->client_context || !macros)
+        return MI_FAILURE;
+
+    switch (state) {
+    case SMFIM_CONNECT:
+        command = MILTER_COMMAND_CONNECT;
+        break;
+    case SMFIM_HELO:
+        command = MILTER_COMMAND_HELO;
+        break;
+    case SMFIM_ENVFROM:
+        command = MILTER_COMMAND_ENVELOPE_FROM;
+        break;
+    case SMFIM_ENVRCPT:
+        command = MILTER_COMMAND_ENVELOPE_RECIPIENT;
+        break;
+    case SMFIM_DATA:
+        command = MILTER_COMMAND_DATA;
+        break;
+    case SMFIM_EOM:
+        command = MILTER_COMMAND_END_OF_MESSAGE;
+        break;
+    case SMFIM_EOH:
+        command = MILTER_COMMAND_END_OF_HEADER;
+        break;
+    default:
         return MI_FAILURE;
+    }
 
+    /* available only in xxfi_negotiate() */
     agent = MILTER_PROTOCOL_AGENT(priv->client_context);
     macros_requests = milter_protocol_agent_get_macros_requests(agent);
     if (!macros_requests)
-        macros_requests = milter_macros_requests_new();
+        return MI_FAILURE;
 
     macro_array = g_strsplit(macros, " ", -1);
     milter_macros_requests_set_symbols_string_array(macros_requests,
-                                                    state,
+                                                    command,
                                                     (const gchar**)macro_array);
     g_strfreev(macro_array);
 
-- 
2.43.0


From c5c1b8275415aac8e937bbb254d5895a2559d2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:27 +0000
Subject: [PATCH 29/61] fix: smfi_setreply refuses a wrong code,
 smfi_setmlreply accepts an empty line

---
 libmilter/libmilter-compatible.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/libmilter/libmilter-compatible.c b/libmilter/libmilter-compatible.c
index 3bc5c34..eff245c 100644
--- a/libmilter/libmilter-compatible.c
+++ b/libmilter/libmilter-compatible.c
@@ -753,6 +753,14 @@ smfi_setreply (SMFICTX *context,
     if (!priv->client_context)
         return MI_FAILURE;
 
+    if (!return_code ||
+        strlen(return_code) != 3 ||
+        strspn(return_code, "0123456789") != 3) {
+        milter_error("failed to set reply: invalid return code: <%s>",
+                     MILTER_LOG_NULL_SAFE_STRING(return_code));
+        return MI_FAILURE;
+    }
+
     if (milter_client_context_set_reply(priv->client_context,
                                         atoi(return_code),
                                         extended_code,
@@ -803,11 +811,10 @@ smfi_setmlreply (SMFICTX *context,
     va_end(var_args);
 
     if (result == MI_SUCCESS) {
-        if (string->len > 0)
-            result = smfi_setreply(context,
-                                   (char *)return_code,
-                                   (char *)extended_code,
-                                   string->str);
+        result = smfi_setreply(context,
+                               (char *)return_code,
+                               (char *)extended_code,
+                               string->str);
     }
     g_string_free(string, TRUE);
 
-- 
2.43.0


From eced12866b0b147599b94cb7da0be4e58f514577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:27 +0000
Subject: [PATCH 30/61] fix: refuse negative header index

---
 libmilter/libmilter-compatible.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libmilter/libmilter-compatible.c b/libmilter/libmilter-compatible.c
index eff245c..63dbc22 100644
--- a/libmilter/libmilter-compatible.c
+++ b/libmilter/libmilter-compatible.c
@@ -853,6 +853,11 @@ smfi_chgheader (SMFICTX *context, char *name, int index, char *value)
     if (!priv->client_context)
         return MI_FAILURE;
 
+    if (index < 0) {
+        milter_error("failed to change header: invalid index: <%d>", index);
+        return MI_FAILURE;
+    }
+
     if (milter_client_context_change_header(priv->client_context,
                                             name, index, value, &error)) {
         return MI_SUCCESS;
@@ -875,6 +880,11 @@ smfi_insheader (SMFICTX *context, int index, char *name, char *value)
     if (!priv->client_context)
         return MI_FAILURE;
 
+    if (index < 0) {
+        milter_error("failed to insert header: invalid index: <%d>", index);
+        return MI_FAILURE;
+    }
+
     if (milter_client_context_insert_header(priv->client_context,
                                             index, name, value, &error)) {
         return MI_SUCCESS;
-- 
2.43.0


From 3413c43f2cb771f4315ec5a629241cf7bcd1c89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:27 +0000
Subject: [PATCH 31/61] fix: call xxfi_body for the last chunk without xxfi_eom

---
 libmilter/libmilter-compatible.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmilter/libmilter-compatible.c b/libmilter/libmilter-compatible.c
index 63dbc22..e950c42 100644
--- a/libmilter/libmilter-compatible.c
+++ b/libmilter/libmilter-compatible.c
@@ -511,6 +511,10 @@ smfi_context_attach_to_client_context (SmfiContext *context)
     CONNECT(end_of_header, eoh);
     CONNECT(body, body);
     CONNECT(end_of_message, eom);
+    /* the last chunk of the body comes with end-of-message */
+    if (filter_description->xxfi_body && !filter_description->xxfi_eom)
+        g_signal_connect(client_context, "end_of_message",
+                         G_CALLBACK(cb_end_of_message), context);
     CONNECT(abort, abort);
 
 #undef CONNECT
-- 
2.43.0


From 09db4cb37a016677122611b1b07f60b6a36f49be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:27 +0000
Subject: [PATCH 32/61] fix: smfi_quarantine fails where it can't quarantine

---
 libmilter/libmilter-compatible.c      |  7 +++++++
 milter/client/milter-client-context.c | 15 ++++++++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/libmilter/libmilter-compatible.c b/libmilter/libmilter-compatible.c
index e950c42..866110e 100644
--- a/libmilter/libmilter-compatible.c
+++ b/libmilter/libmilter-compatible.c
@@ -1036,6 +1036,13 @@ smfi_quarantine (SMFICTX *context, char *reason)
     if (!priv->client_context)
         return MI_FAILURE;
 
+    if (!reason || reason[0] == '\0')
+        return MI_FAILURE;
+
+    if (milter_client_context_get_state(priv->client_context) !=
+        MILTER_CLIENT_CONTEXT_STATE_END_OF_MESSAGE)
+        return MI_FAILURE;
+
     if (milter_client_context_quarantine(priv->client_context, reason))
         return MI_SUCCESS;
     else
diff --git a/milter/client/milter-client-context.c b/milter/client/milter-client-context.c
index 66ebd67..463e021 100644
--- a/milter/client/milter-client-context.c
+++ b/milter/client/milter-client-context.c
@@ -3258,16 +3258,29 @@ milter_client_context_quarantine (MilterClientContext *context,
                                   const gchar *reason)
 {
     MilterClientContextPrivate *priv;
+    GError *error = NULL;
 
     milter_debug("[%u] [client][reply][quarantine] <%s>",
                  milter_agent_get_tag(MILTER_AGENT(context)),
                  reason);
 
     /* quarantine allows only on end-of-message. */
+    priv = MILTER_CLIENT_CONTEXT_GET_PRIVATE(context);
+    if (priv->option &&
+        !validate_action("quarantine",
+                         MILTER_ACTION_QUARANTINE,
+                         priv->option,
+                         &error)) {
+        milter_error("[%u] [client][error][quarantine] %s",
+                     milter_agent_get_tag(MILTER_AGENT(context)),
+                     error->message);
+        g_error_free(error);
+        return FALSE;
+    }
+
     milter_statistics("[reply][end-of-message][quarantine](%u)",
                       milter_agent_get_tag(MILTER_AGENT(context)));
 
-    priv = MILTER_CLIENT_CONTEXT_GET_PRIVATE(context);
     if (priv->quarantine_reason)
         g_free(priv->quarantine_reason);
     priv->quarantine_reason = g_strdup(reason);
-- 
2.43.0


From a96f659bf9bc801c47040811700be882c90ad3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:27 +0000
Subject: [PATCH 33/61] fix: refuse empty header name

---
 milter/client/milter-client-context.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/milter/client/milter-client-context.c b/milter/client/milter-client-context.c
index 463e021..1a11b70 100644
--- a/milter/client/milter-client-context.c
+++ b/milter/client/milter-client-context.c
@@ -2760,6 +2760,20 @@ validate_action (const gchar *operation,
     return FALSE;
 }
 
+static gboolean
+validate_header_name (const gchar *name, GError **error)
+{
+    if (name[0] != '\0')
+        return TRUE;
+
+    g_set_error(error,
+                MILTER_CLIENT_CONTEXT_ERROR,
+                MILTER_CLIENT_CONTEXT_ERROR_EMPTY,
+                "header name should not be empty");
+
+    return FALSE;
+}
+
 static gboolean
 write_packet_on_end_of_message (MilterClientContext *context,
                                 const gchar *packet, gsize packet_size)
@@ -2823,6 +2837,9 @@ milter_client_context_add_header (MilterClientContext *context,
         return FALSE;
     }
 
+    if (!validate_header_name(name, error))
+        return FALSE;
+
     priv = MILTER_CLIENT_CONTEXT_GET_PRIVATE(context);
     if (!validate_state("add-header",
                         MILTER_CLIENT_CONTEXT_STATE_END_OF_MESSAGE,
@@ -2867,6 +2884,9 @@ milter_client_context_insert_header (MilterClientContext *context,
         return FALSE;
     }
 
+    if (!validate_header_name(name, error))
+        return FALSE;
+
     priv = MILTER_CLIENT_CONTEXT_GET_PRIVATE(context);
     if (!validate_state("insert-header",
                         MILTER_CLIENT_CONTEXT_STATE_END_OF_MESSAGE,
@@ -2911,6 +2931,9 @@ milter_client_context_change_header (MilterClientContext *context,
         return FALSE;
     }
 
+    if (!validate_header_name(name, error))
+        return FALSE;
+
     priv = MILTER_CLIENT_CONTEXT_GET_PRIVATE(context);
     if (!validate_state("change-header",
                         MILTER_CLIENT_CONTEXT_STATE_END_OF_MESSAGE,
@@ -2954,6 +2977,9 @@ milter_client_context_delete_header (MilterClientContext *context,
         return FALSE;
     }
 
+    if (!validate_header_name(name, error))
+        return FALSE;
+
     priv = MILTER_CLIENT_CONTEXT_GET_PRIVATE(context);
     if (!validate_state("delete-header",
                         MILTER_CLIENT_CONTEXT_STATE_END_OF_MESSAGE,
-- 
2.43.0


From e2875f49885cd14d4ffc1d4698a427b612408716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:27 +0000
Subject: [PATCH 34/61] fix: don't show macros of the previous message's later
 stages

---
 milter/client/milter-client-context.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/milter/client/milter-client-context.c b/milter/client/milter-client-context.c
index 1a11b70..06ffd0a 100644
--- a/milter/client/milter-client-context.c
+++ b/milter/client/milter-client-context.c
@@ -4087,6 +4087,23 @@ cb_decoder_helo (MilterDecoder *decoder, const gchar *fqdn, gpointer user_data)
     g_signal_emit(context, signals[HELO_RESPONSE], 0, status);
 }
 
+static void
+clear_previous_message_data (MilterClientContext *context)
+{
+    MilterProtocolAgent *agent;
+
+    /* The macros for envelope-from are already of the new message. */
+    agent = MILTER_PROTOCOL_AGENT(context);
+    milter_protocol_agent_clear_macros(agent,
+                                       MILTER_COMMAND_ENVELOPE_RECIPIENT);
+    milter_protocol_agent_clear_macros(agent, MILTER_COMMAND_DATA);
+    milter_protocol_agent_clear_macros(agent, MILTER_COMMAND_HEADER);
+    milter_protocol_agent_clear_macros(agent, MILTER_COMMAND_END_OF_HEADER);
+    milter_protocol_agent_clear_macros(agent, MILTER_COMMAND_BODY);
+    milter_protocol_agent_clear_macros(agent, MILTER_COMMAND_END_OF_MESSAGE);
+    milter_client_context_clear_mail_transaction_shelf(context);
+}
+
 static void
 cb_decoder_envelope_from (MilterDecoder *decoder,
                           const gchar *from, gpointer user_data)
@@ -4096,6 +4113,7 @@ cb_decoder_envelope_from (MilterDecoder *decoder,
     MilterStatus status;
 
     priv = MILTER_CLIENT_CONTEXT_GET_PRIVATE(context);
+    clear_previous_message_data(context);
     /* FIXME: should check the previous state */
     milter_client_context_set_state(
         context, MILTER_CLIENT_CONTEXT_STATE_ENVELOPE_FROM);
-- 
2.43.0


From 8797e79f1eb80c07d6b6f2aa847fcd3a20a899a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:27 +0000
Subject: [PATCH 35/61] fix: abort drops the changes and the reply of the
 aborted message

---
 milter/client/milter-client-context.c | 36 ++++++++++++++++-----------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/milter/client/milter-client-context.c b/milter/client/milter-client-context.c
index 06ffd0a..fff1d90 100644
--- a/milter/client/milter-client-context.c
+++ b/milter/client/milter-client-context.c
@@ -3314,6 +3314,20 @@ milter_client_context_quarantine (MilterClientContext *context,
     return TRUE;
 }
 
+static void
+clear_reply (MilterClientContextPrivate *priv)
+{
+    priv->reply_code = 0;
+    if (priv->extended_reply_code) {
+        g_free(priv->extended_reply_code);
+        priv->extended_reply_code = NULL;
+    }
+    if (priv->reply_message) {
+        g_free(priv->reply_message);
+        priv->reply_message = NULL;
+    }
+}
+
 void
 milter_client_context_reset_message_related_data (MilterClientContext *context)
 {
@@ -3326,21 +3340,15 @@ milter_client_context_reset_message_related_data (MilterClientContext *context)
     milter_protocol_agent_clear_message_related_macros(agent);
     milter_client_context_clear_mail_transaction_shelf(context);
 
-    dispose_message_result(priv);
-}
-
-static void
-clear_reply (MilterClientContextPrivate *priv)
-{
-    priv->reply_code = 0;
-    if (priv->extended_reply_code) {
-        g_free(priv->extended_reply_code);
-        priv->extended_reply_code = NULL;
-    }
-    if (priv->reply_message) {
-        g_free(priv->reply_message);
-        priv->reply_message = NULL;
+    clear_reply(priv);
+    if (priv->quarantine_reason) {
+        g_free(priv->quarantine_reason);
+        priv->quarantine_reason = NULL;
     }
+    g_string_truncate(priv->buffered_packets, 0);
+    priv->buffering = FALSE;
+
+    dispose_message_result(priv);
 }
 
 static void
-- 
2.43.0


From 6927f5488ad17bdb7c7e646078d85dde64590caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:27 +0000
Subject: [PATCH 36/61] fix: don't be killed by SIGPIPE when MTA closes its
 connection

---
 milter/client/milter-client.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/milter/client/milter-client.c b/milter/client/milter-client.c
index 98c543f..0ad4bcb 100644
--- a/milter/client/milter-client.c
+++ b/milter/client/milter-client.c
@@ -29,6 +29,7 @@
 #include <fcntl.h>
 
 #include <errno.h>
+#include <signal.h>
 
 #include <glib/gstdio.h>
 
@@ -2323,6 +2324,24 @@ milter_client_run_loop (MilterClient *client, GError **error)
     return success;
 }
 
+static void
+ignore_sigpipe (void)
+{
+    struct sigaction action;
+
+    /* An MTA may close a connection while a reply is being written
+     * to it. It should finish only the session. */
+    if (sigaction(SIGPIPE, NULL, &action) == -1)
+        return;
+    if ((action.sa_flags & SA_SIGINFO) || action.sa_handler != SIG_DFL)
+        return;
+
+    action.sa_handler = SIG_IGN;
+    sigemptyset(&(action.sa_mask));
+    action.sa_flags = 0;
+    sigaction(SIGPIPE, &action, NULL);
+}
+
 gboolean
 milter_client_run (MilterClient *client, GError **error)
 {
@@ -2370,6 +2389,7 @@ milter_client_run (MilterClient *client, GError **error)
         }
     }
 
+    ignore_sigpipe();
     success = milter_client_run_loop(client, error);
 
     if (!milter_client_cleanup(client, created_pid_file, &local_error)) {
-- 
2.43.0


From 7246426b5ea49caa341db8f0d8a2adde52d5a922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:46 +0000
Subject: [PATCH 37/61] fix: pass the chunk to body stoppers

---
 binding/ruby/lib/milter/manager.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binding/ruby/lib/milter/manager.rb b/binding/ruby/lib/milter/manager.rb
index 716e834..c115e1c 100644
--- a/binding/ruby/lib/milter/manager.rb
+++ b/binding/ruby/lib/milter/manager.rb
@@ -1386,7 +1386,7 @@ module Milter
                 child_context = ChildContext.new(child, children, context)
                 @body_stoppers.any? do |stopper|
                   Milter::Callback.guard(false) do
-                    stopper.call(child_context, name, chunk)
+                    stopper.call(child_context, chunk)
                   end
                 end
               end
-- 
2.43.0


From cbb7e160041879fe3878801756f7480eaf284d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:46 +0000
Subject: [PATCH 38/61] fix: a milter stopped at MAIL leaves the message

---
 milter/manager/milter-manager-children.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 8e298cd..911ad18 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -2344,7 +2344,7 @@ cb_stopped (MilterServerContext *context, gpointer user_data)
         break;
     case MILTER_SERVER_CONTEXT_STATE_ENVELOPE_FROM:
         compile_reply_status(children, state, MILTER_STATUS_ACCEPT);
-        cb_continue(context, user_data);
+        remove_child_from_queue(children, context);
         break;
     case MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT:
         milter_server_context_set_status(context, MILTER_STATUS_NOT_CHANGE);
-- 
2.43.0


From 73c69eaeff6ebcaa92bac54f7516c6eaf04f877e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:46 +0000
Subject: [PATCH 39/61] fix: don't count a stopped milter as one that continues

---
 milter/manager/milter-manager-children.c | 31 +++++++++++++++++++-----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 911ad18..66243e1 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -3328,6 +3328,19 @@ set_state (MilterManagerChildren *children,
     priv->processing_state = priv->state;
 }
 
+/* A child that has been stopped or has gone isn't waited. */
+static gboolean
+is_waiting_reply (MilterManagerChildren *children,
+                  MilterServerContext *context)
+{
+    MilterManagerChildrenPrivate *priv;
+
+    priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
+
+    return g_queue_find(priv->reply_queue, context) &&
+        !milter_server_context_is_quitted(context);
+}
+
 static void
 init_reply_queue (MilterManagerChildren *children,
                   MilterServerContextState state)
@@ -3621,7 +3634,8 @@ milter_manager_children_connect (MilterManagerChildren *children,
                  priv->tag, n_queued_milters);
     for (child = targets; child; child = g_list_next(child)) {
         MilterServerContext *context = MILTER_SERVER_CONTEXT(child->data);
-        if (!milter_server_context_need_reply(context, state)) {
+        if (!milter_server_context_need_reply(context, state) &&
+            is_waiting_reply(children, context)) {
             cb_continue(context, children);
         }
     }
@@ -3664,7 +3678,8 @@ milter_manager_children_helo (MilterManagerChildren *children,
                  priv->tag, n_queued_milters);
     for (child = targets; child; child = g_list_next(child)) {
         MilterServerContext *context = MILTER_SERVER_CONTEXT(child->data);
-        if (!milter_server_context_need_reply(context, state)) {
+        if (!milter_server_context_need_reply(context, state) &&
+            is_waiting_reply(children, context)) {
             cb_continue(context, children);
         }
     }
@@ -3712,7 +3727,8 @@ milter_manager_children_envelope_from (MilterManagerChildren *children,
                  priv->tag, n_queued_milters);
     for (child = targets; child; child = g_list_next(child)) {
         MilterServerContext *context = MILTER_SERVER_CONTEXT(child->data);
-        if (!milter_server_context_need_reply(context, state)) {
+        if (!milter_server_context_need_reply(context, state) &&
+            is_waiting_reply(children, context)) {
             cb_continue(context, children);
         }
     }
@@ -3756,7 +3772,8 @@ milter_manager_children_envelope_recipient (MilterManagerChildren *children,
                  priv->tag, n_queued_milters);
     for (child = targets; child; child = g_list_next(child)) {
         MilterServerContext *context = MILTER_SERVER_CONTEXT(child->data);
-        if (!milter_server_context_need_reply(context, state)) {
+        if (!milter_server_context_need_reply(context, state) &&
+            is_waiting_reply(children, context)) {
             cb_continue(context, children);
         }
     }
@@ -3802,7 +3819,8 @@ milter_manager_children_data (MilterManagerChildren *children)
     milter_debug("[%u] [children][data][sent] %d", priv->tag, n_queued_milters);
     for (child = targets; child; child = g_list_next(child)) {
         MilterServerContext *context = MILTER_SERVER_CONTEXT(child->data);
-        if (!milter_server_context_need_reply(context, state)) {
+        if (!milter_server_context_need_reply(context, state) &&
+            is_waiting_reply(children, context)) {
             cb_continue(context, children);
         }
     }
@@ -3888,7 +3906,8 @@ milter_manager_children_unknown (MilterManagerChildren *children,
                  priv->tag, n_queued_milters);
     for (child = targets; child; child = g_list_next(child)) {
         MilterServerContext *context = MILTER_SERVER_CONTEXT(child->data);
-        if (!milter_server_context_need_reply(context, state)) {
+        if (!milter_server_context_need_reply(context, state) &&
+            is_waiting_reply(children, context)) {
             cb_continue(context, children);
         }
     }
-- 
2.43.0


From 6297b2c5f05b3a39cccda306559a3d315976eba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:46 +0000
Subject: [PATCH 40/61] fix: HELO stoppers see the macros of HELO

---
 milter/server/milter-server-context.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index 2807fef..9aa77fd 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -1752,6 +1752,8 @@ milter_server_context_helo (MilterServerContext *context,
 
     milter_debug("[%u] [server][send][helo] <%s>: %s", tag, fqdn, name);
 
+    milter_protocol_agent_set_macro_context(MILTER_PROTOCOL_AGENT(context),
+                                            MILTER_COMMAND_HELO);
     g_signal_emit(context, signals[STOP_ON_HELO], 0, fqdn, &stop);
     if (stop) {
         stop_on_state(context, MILTER_SERVER_CONTEXT_STATE_HELO);
-- 
2.43.0


From df304e341f0da8a31be4e78bffeaf99a7915f145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:46 +0000
Subject: [PATCH 41/61] fix: a stop on a recipient doesn't finish the message

---
 milter/server/milter-server-context.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index 9aa77fd..ff14094 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -1688,8 +1688,10 @@ stop_on_state (MilterServerContext *context, MilterServerContextState state)
 
     g_signal_emit_by_name(context, "stopped");
 
+    /* Stop on a recipient doesn't finish the message. */
     if (MILTER_SERVER_CONTEXT_STATE_ENVELOPE_FROM <= priv->state &&
-        priv->state <= MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE) {
+        priv->state <= MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE &&
+        priv->state != MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT) {
         emit_message_processed_signal(context);
     }
 }
-- 
2.43.0


From 03a220fae857e49bf494a760158f78030340b869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:46 +0000
Subject: [PATCH 42/61] fix: accept blocks and documented names in shipped
 applicable conditions

---
 data/applicable-conditions/s25r.conf  | 9 +++++----
 data/applicable-conditions/trust.conf | 4 ++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/data/applicable-conditions/s25r.conf b/data/applicable-conditions/s25r.conf
index f1512dd..df05d37 100644
--- a/data/applicable-conditions/s25r.conf
+++ b/data/applicable-conditions/s25r.conf
@@ -8,12 +8,12 @@ s25r.instance_eval do
 end
 
 class << s25r
-  def add_whitelist(host_matcher=Proc.new)
-    @whitelist << host_matcher
+  def add_whitelist(host_matcher=nil, &block)
+    @whitelist << (host_matcher || block)
   end
 
-  def add_blacklist(host_matcher=Proc.new)
-    @blacklist << host_matcher
+  def add_blacklist(host_matcher=nil, &block)
+    @blacklist << (host_matcher || block)
   end
 
   def white?(host, address)
@@ -33,6 +33,7 @@ class << s25r
   def only_check_ipv4=(boolean)
     @only_check_ipv4 = boolean
   end
+  alias_method :check_only_ipv4=, :only_check_ipv4=
 
   private
   def match?(list, host)
diff --git a/data/applicable-conditions/trust.conf b/data/applicable-conditions/trust.conf
index 9971e66..429d2fb 100644
--- a/data/applicable-conditions/trust.conf
+++ b/data/applicable-conditions/trust.conf
@@ -11,8 +11,8 @@ class << trust
     @envelope_from_domains = []
   end
 
-  def add_envelope_from_domain(domain_matcher=Proc.new)
-    @envelope_from_domains << domain_matcher
+  def add_envelope_from_domain(domain_matcher=nil, &block)
+    @envelope_from_domains << (domain_matcher || block)
   end
 
   def trusted_envelope_from_domain?(envelope_from)
-- 
2.43.0


From 8517472eca787bde94cf7dc0cd87bf5e33d3f2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:49 +0000
Subject: [PATCH 43/61] fix: controller.remove_unix_socket_on_* changed the
 settings of the manager socket

The GObject properties of the controller socket were registered with the
IDs of the ones of the manager socket.
---
 milter/manager/milter-manager-configuration.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/milter/manager/milter-manager-configuration.c b/milter/manager/milter-manager-configuration.c
index ba9498f..2099664 100644
--- a/milter/manager/milter-manager-configuration.c
+++ b/milter/manager/milter-manager-configuration.c
@@ -291,7 +291,7 @@ milter_manager_configuration_class_init (MilterManagerConfigurationClass *klass)
                                 TRUE,
                                 G_PARAM_READWRITE | G_PARAM_CONSTRUCT);
     g_object_class_install_property(gobject_class,
-                                    PROP_REMOVE_MANAGER_UNIX_SOCKET_ON_CLOSE,
+                                    PROP_REMOVE_CONTROLLER_UNIX_SOCKET_ON_CLOSE,
                                     spec);
 
     spec = g_param_spec_boolean("remove-manager-unix-socket-on-create",
@@ -311,7 +311,7 @@ milter_manager_configuration_class_init (MilterManagerConfigurationClass *klass)
                                 TRUE,
                                 G_PARAM_READWRITE | G_PARAM_CONSTRUCT);
     g_object_class_install_property(gobject_class,
-                                    PROP_REMOVE_MANAGER_UNIX_SOCKET_ON_CREATE,
+                                    PROP_REMOVE_CONTROLLER_UNIX_SOCKET_ON_CREATE,
                                     spec);
 
     spec = g_param_spec_boolean("daemon",
-- 
2.43.0


From 06db94b465fb3b8f43cdf26e715801fe9ca4f71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:49 +0000
Subject: [PATCH 44/61] fix: defining a milter again lost its fallback status,
 evaluation mode and command options

---
 milter/manager/milter-manager-egg.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/milter/manager/milter-manager-egg.c b/milter/manager/milter-manager-egg.c
index 3c85217..b498569 100644
--- a/milter/manager/milter-manager-egg.c
+++ b/milter/manager/milter-manager-egg.c
@@ -803,6 +803,7 @@ milter_manager_egg_merge (MilterManagerEgg *egg,
     const gchar *description;
     const gchar *user_name;
     const gchar *command;
+    const gchar *command_options;
     const GList *node;
 
     connection_spec = milter_manager_egg_get_connection_spec(other_egg);
@@ -834,13 +835,17 @@ milter_manager_egg_merge (MilterManagerEgg *egg,
         milter_manager_egg_set_user_name(egg, user_name);
 
     command = milter_manager_egg_get_command(other_egg);
-    if (command) {
-        const gchar *command_options;
-
+    if (command)
         milter_manager_egg_set_command(egg, command);
-        command_options = milter_manager_egg_get_command_options(other_egg);
+
+    command_options = milter_manager_egg_get_command_options(other_egg);
+    if (command_options)
         milter_manager_egg_set_command_options(egg, command_options);
-    }
+
+    milter_manager_egg_set_fallback_status(
+        egg, milter_manager_egg_get_fallback_status(other_egg));
+    milter_manager_egg_set_evaluation_mode(
+        egg, milter_manager_egg_is_evaluation_mode(other_egg));
 
     milter_manager_egg_clear_applicable_conditions(egg);
     node = milter_manager_egg_get_applicable_conditions(other_egg);
-- 
2.43.0


From 93e100efa321e92c85f177ad94982af6e8c71a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:55 +0000
Subject: [PATCH 45/61] fix: milter.command_options could not be nil

--show-config prints milter.command_options = nil, and an egg of the custom
configuration may have a command without options, but it raised an exception.
---
 binding/ruby/lib/milter/manager.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binding/ruby/lib/milter/manager.rb b/binding/ruby/lib/milter/manager.rb
index c115e1c..26d9965 100644
--- a/binding/ruby/lib/milter/manager.rb
+++ b/binding/ruby/lib/milter/manager.rb
@@ -1165,7 +1165,7 @@ module Milter
               Shellwords.escape(option)
             end.join(' ')
           end
-          update_location("command_options", options.empty?)
+          update_location("command_options", options.nil? || options.empty?)
           @egg.command_options = options
         end
 
-- 
2.43.0


From 1ed7b02010cfe81e546a4c73eb54b13de85fc774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:41 +0000
Subject: [PATCH 46/61] fix: controller never accepted a connection

The event loop of the client is created when the client runs, but
the controller was set up before that, with no event loop.
---
 milter/manager/milter-manager-main.c | 31 +++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/milter/manager/milter-manager-main.c b/milter/manager/milter-manager-main.c
index 1645f48..d8f9622 100644
--- a/milter/manager/milter-manager-main.c
+++ b/milter/manager/milter-manager-main.c
@@ -583,6 +583,18 @@ load_configuration (MilterManager *manager)
     }
 }
 
+static void
+listen_controller (MilterManagerController *controller)
+{
+    GError *error = NULL;
+
+    if (!milter_manager_controller_listen(controller, &error)) {
+        milter_manager_error("failed to listen controller socket: %s",
+                             error->message);
+        g_error_free(error);
+    }
+}
+
 gboolean
 milter_manager_main (void)
 {
@@ -657,14 +669,19 @@ milter_manager_main (void)
     }
 
     loop = milter_client_get_event_loop(client);
+    if (!loop) {
+        loop = milter_client_create_event_loop(client, TRUE);
+        milter_client_set_event_loop(client, loop);
+    }
     controller = milter_manager_controller_new(manager, loop);
-    if (controller && !milter_manager_controller_listen(controller, &error)) {
-        milter_manager_error("failed to listen controller socket: %s",
-                             error->message);
-        g_error_free(error);
-        error = NULL;
-        g_object_unref(controller);
-        controller = NULL;
+    if (controller) {
+        if (milter_client_get_n_workers(client) > 0) {
+            /* worker processes should not inherit the controller */
+            g_signal_connect_swapped(client, "workers-created",
+                                     G_CALLBACK(listen_controller), controller);
+        } else {
+            listen_controller(controller);
+        }
     }
 
     daemon = milter_client_is_run_as_daemon(client);
-- 
2.43.0


From 8f249da81d746f3411c6cf81d2ce28d57a25c79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:06 +0000
Subject: [PATCH 47/61] fix: package.platform and package.options stayed nil
 after reload once they were nil

---
 milter/manager/milter-manager-configuration.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/milter/manager/milter-manager-configuration.c b/milter/manager/milter-manager-configuration.c
index 2099664..d623f61 100644
--- a/milter/manager/milter-manager-configuration.c
+++ b/milter/manager/milter-manager-configuration.c
@@ -1999,15 +1999,13 @@ clear_manager (MilterManagerConfigurationPrivate *priv)
 static void
 clear_package (MilterManagerConfigurationPrivate *priv)
 {
-    if (priv->package_platform) {
+    if (priv->package_platform)
         g_free(priv->package_platform);
-        priv->package_platform = g_strdup(MILTER_MANAGER_PACKAGE_PLATFORM);
-    }
+    priv->package_platform = g_strdup(MILTER_MANAGER_PACKAGE_PLATFORM);
 
-    if (priv->package_options) {
+    if (priv->package_options)
         g_free(priv->package_options);
-        priv->package_options = g_strdup(MILTER_MANAGER_PACKAGE_OPTIONS);
-    }
+    priv->package_options = g_strdup(MILTER_MANAGER_PACKAGE_OPTIONS);
 }
 
 static void
-- 
2.43.0


From 38f0190d8a00749a5e9a54f0eaec03f7701dc1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:18 +0000
Subject: [PATCH 48/61] fix: log.level and log.path of the previous
 configuration stayed after reload

---
 binding/ruby/lib/milter/manager.rb | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/binding/ruby/lib/milter/manager.rb b/binding/ruby/lib/milter/manager.rb
index 26d9965..af26bf7 100644
--- a/binding/ruby/lib/milter/manager.rb
+++ b/binding/ruby/lib/milter/manager.rb
@@ -117,6 +117,23 @@ module Milter
         @netstat_connection_checker = nil
         @database ||= Client::Configuration::DatabaseConfiguration.new(self)
         @database.clear
+        restore_logger
+      end
+
+      # The logger isn't a part of this configuration but
+      # log.level and log.path change it.
+      def save_logger
+        logger = Milter::Logger.default
+        @original_logger ||= [logger.target_level, logger.path]
+      end
+
+      def restore_logger
+        return if @original_logger.nil?
+        level, path = @original_logger
+        @original_logger = nil
+        logger = Milter::Logger.default
+        logger.target_level = level
+        logger.path = path if logger.path != path
       end
 
       def maintained_hooks
@@ -388,6 +405,7 @@ module Milter
       def initialize(configuration)
         @load_level = 0
         @configuration = configuration
+        @configuration.save_logger
         @package = PackageConfigurationLoader.new(configuration)
         @security = SecurityConfigurationLoader.new(configuration)
         @controller = ControllerConfigurationLoader.new(configuration)
-- 
2.43.0


From fa5ec0cf12e8ed549f6adf1a95be6e339263883c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:26 +0000
Subject: [PATCH 49/61] fix: signals handled in signal handlers could block or
 corrupt the manager

SIGHUP, SIGTERM, SIGINT and SIGUSR1 allocated memory and took locks of
the event loop in their signal handlers.  A signal that came while the
event loop held them blocked the manager for ever.  Now they are written
to a pipe that the event loop watches.
---
 milter/manager/milter-manager-main.c | 151 +++++++++++++++++++++------
 1 file changed, 120 insertions(+), 31 deletions(-)

diff --git a/milter/manager/milter-manager-main.c b/milter/manager/milter-manager-main.c
index d8f9622..2cb8ee4 100644
--- a/milter/manager/milter-manager-main.c
+++ b/milter/manager/milter-manager-main.c
@@ -66,6 +66,14 @@ static gboolean set_sigterm_action = TRUE;
 static gboolean set_sighup_action = TRUE;
 static gboolean set_sigusr1_action = TRUE;
 
+/* what signal handlers ask the event loop for */
+#define REQUEST_SHUTDOWN   'T'
+#define REQUEST_RELOAD     'H'
+#define REQUEST_REOPEN_LOG 'L'
+
+static gint signal_pipe[2] = {-1, -1};
+static guint signal_watch_id = 0;
+
 #define milter_manager_error(...) G_STMT_START  \
 {                                               \
     if (io_detached) {                          \
@@ -186,13 +194,32 @@ milter_manager_quit (void)
     milter_quit();
 }
 
+static void
+close_pipe (int *pipe, MilterUtilsPipeMode mode)
+{
+    if (pipe[mode] == -1)
+        return;
+    close(pipe[mode]);
+    pipe[mode] = -1;
+}
+
+static void
+request_in_event_loop (gchar request)
+{
+    gint saved_errno = errno;
+
+    while (write(signal_pipe[MILTER_UTILS_WRITE_PIPE], &request, 1) == -1 &&
+           errno == EINTR) {
+    }
+    errno = saved_errno;
+}
+
 static void
 shutdown_client (int signum)
 {
     struct sigaction default_action;
 
-    if (the_manager)
-        milter_client_shutdown(MILTER_CLIENT(the_manager));
+    request_in_event_loop(REQUEST_SHUTDOWN);
 
     switch (signum) {
     case SIGINT:
@@ -212,56 +239,108 @@ shutdown_client (int signum)
     }
 }
 
-static gboolean
-cb_idle_reload_configuration (gpointer user_data)
+static void
+reload_configuration (void)
 {
-    if (the_manager) {
-        GError *error = NULL;
+    GError *error = NULL;
 
-        if (!milter_manager_reload(the_manager, &error)) {
-            milter_error("[manager][reload][signal][error] %s",
-                         error->message);
-            g_error_free(error);
-        }
+    if (!milter_manager_reload(the_manager, &error)) {
+        milter_error("[manager][reload][signal][error] %s",
+                     error->message);
+        g_error_free(error);
     }
-
-    return FALSE;
 }
 
 static void
 reload_configuration_request (int signum)
 {
-    if (the_manager) {
-        MilterEventLoop *loop;
-
-        loop = milter_client_get_event_loop(MILTER_CLIENT(the_manager));
-        milter_event_loop_add_idle_full(loop,
-                                        G_PRIORITY_DEFAULT,
-                                        cb_idle_reload_configuration,
-                                        NULL,
-                                        NULL);
-    }
+    request_in_event_loop(REQUEST_RELOAD);
 }
 
 static void
 reopen_log (int signum)
 {
-    milter_logger_reopen(milter_logger());
+    request_in_event_loop(REQUEST_REOPEN_LOG);
+}
+
+static gboolean
+cb_signal_request (GIOChannel *source, GIOCondition condition, gpointer data)
+{
+    gchar request;
+
+    while (read(g_io_channel_unix_get_fd(source), &request, 1) == 1) {
+        if (!the_manager)
+            continue;
+
+        switch (request) {
+        case REQUEST_SHUTDOWN:
+            milter_client_shutdown(MILTER_CLIENT(the_manager));
+            break;
+        case REQUEST_RELOAD:
+            reload_configuration();
+            break;
+        case REQUEST_REOPEN_LOG:
+            milter_logger_reopen(milter_logger());
+            break;
+        default:
+            break;
+        }
+    }
+
+    return TRUE;
 }
 
 static void
-cb_error (MilterErrorEmittable *emittable, GError *error, gpointer user_data)
+unwatch_signal_requests (MilterEventLoop *loop)
 {
-    g_print("milter-manager error: %s\n", error->message);
+    if (signal_watch_id > 0) {
+        milter_event_loop_remove(loop, signal_watch_id);
+        signal_watch_id = 0;
+    }
+    close_pipe(signal_pipe, MILTER_UTILS_READ_PIPE);
+    close_pipe(signal_pipe, MILTER_UTILS_WRITE_PIPE);
+}
+
+static gboolean
+watch_signal_requests (MilterEventLoop *loop)
+{
+    GIOChannel *channel;
+    gint i;
+
+    unwatch_signal_requests(loop);
+
+    if (pipe(signal_pipe) == -1) {
+        signal_pipe[0] = signal_pipe[1] = -1;
+        milter_manager_error("failed to create pipe for signals: %s",
+                             g_strerror(errno));
+        return FALSE;
+    }
+
+    for (i = 0; i < 2; i++) {
+        fcntl(signal_pipe[i], F_SETFL,
+              fcntl(signal_pipe[i], F_GETFL) | O_NONBLOCK);
+        fcntl(signal_pipe[i], F_SETFD, FD_CLOEXEC);
+    }
+
+    channel = g_io_channel_unix_new(signal_pipe[MILTER_UTILS_READ_PIPE]);
+    signal_watch_id = milter_event_loop_watch_io(loop, channel, G_IO_IN,
+                                                 cb_signal_request, NULL);
+    g_io_channel_unref(channel);
+
+    return TRUE;
 }
 
 static void
-close_pipe (int *pipe, MilterUtilsPipeMode mode)
+cb_worker_created (MilterClient *client, gpointer user_data)
 {
-    if (pipe[mode] == -1)
-        return;
-    close(pipe[mode]);
-    pipe[mode] = -1;
+    /* signals sent to a worker are for the worker */
+    watch_signal_requests(milter_client_get_event_loop(client));
+}
+
+static void
+cb_error (MilterErrorEmittable *emittable, GError *error, gpointer user_data)
+{
+    g_print("milter-manager error: %s\n", error->message);
 }
 
 static GIOChannel *
@@ -699,6 +778,14 @@ milter_manager_main (void)
 
     the_manager = manager;
 
+    if (!watch_signal_requests(loop)) {
+        if (controller)
+            g_object_unref(controller);
+        return FALSE;
+    }
+    g_signal_connect(client, "worker-created",
+                     G_CALLBACK(cb_worker_created), NULL);
+
 #define SETUP_SIGNAL_ACTION(handler)            \
     handler ## _action.sa_handler = handler;    \
     sigemptyset(&handler ## _action.sa_mask);   \
@@ -739,6 +826,8 @@ milter_manager_main (void)
     UNSET_SIGNAL_ACTION(USR1, usr1);
 #undef UNSET_SIGNAL_ACTION
 
+    unwatch_signal_requests(loop);
+
     if (controller)
         g_object_unref(controller);
 
-- 
2.43.0


From 7f8559e4fefefeb47219306c59b7a3085b278050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:43 +0000
Subject: [PATCH 50/61] fix: worker processes kept their configuration when the
 manager reloaded its own

SIGHUP and the controller's reload reached only the master process.  As
Ruby milters do, the manager tells its workers now.  The controller's
reload applies command line options again as SIGHUP does.
---
 milter/client/milter-client.c                 | 13 +++++++++++-
 .../milter-manager-controller-context.c       |  4 +---
 milter/manager/milter-manager.c               | 21 +++++++++++++++++++
 3 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/milter/client/milter-client.c b/milter/client/milter-client.c
index 0ad4bcb..4f173cb 100644
--- a/milter/client/milter-client.c
+++ b/milter/client/milter-client.c
@@ -701,6 +701,17 @@ watch_worker_process (GPid     pid,
                       gint     status,
                       gpointer data)
 {
+    MilterClient *client = data;
+    GArray *pids;
+    guint i;
+
+    pids = MILTER_CLIENT_GET_PRIVATE(client)->workers.pids;
+    for (i = 0; pids && i < pids->len; i++) {
+        if (g_array_index(pids, GPid, i) == pid) {
+            g_array_remove_index(pids, i);
+            break;
+        }
+    }
 }
 
 static void
@@ -2190,7 +2201,7 @@ client_run_workers (MilterClient *client, guint n_workers, GError **error)
             _exit(EXIT_SUCCESS);
         default:
             g_array_append_val(priv->workers.pids, pid);
-            milter_event_loop_watch_child(loop, pid, watch_worker_process, NULL);
+            milter_event_loop_watch_child(loop, pid, watch_worker_process, client);
             break;
         case -1:
             g_set_error(error,
diff --git a/milter/manager/milter-manager-controller-context.c b/milter/manager/milter-manager-controller-context.c
index 2137018..8e366ec 100644
--- a/milter/manager/milter-manager-controller-context.c
+++ b/milter/manager/milter-manager-controller-context.c
@@ -181,7 +181,6 @@ cb_decoder_reload (MilterManagerControlCommandDecoder *decoder,
 {
     MilterManagerControllerContext *context = user_data;
     MilterManagerControllerContextPrivate *priv;
-    MilterManagerConfiguration *config;
     GError *error = NULL;
     MilterAgent *agent;
     MilterEncoder *base_encoder;
@@ -190,8 +189,7 @@ cb_decoder_reload (MilterManagerControlCommandDecoder *decoder,
     gsize packet_size;
 
     priv = MILTER_MANAGER_CONTROLLER_CONTEXT_GET_PRIVATE(context);
-    config = milter_manager_get_configuration(priv->manager);
-    if (!milter_manager_configuration_reload(config, &error)) {
+    if (!milter_manager_reload(priv->manager, &error)) {
         milter_error("[controller][reload][error] %s",
                      error->message);
         g_error_free(error);
diff --git a/milter/manager/milter-manager.c b/milter/manager/milter-manager.c
index 8dfc04f..d906085 100644
--- a/milter/manager/milter-manager.c
+++ b/milter/manager/milter-manager.c
@@ -1553,6 +1553,26 @@ apply_custom_parameters (MilterManager *manager)
     }
 }
 
+static void
+reload_workers (MilterManager *manager)
+{
+    MilterClient *client;
+    GArray *pids;
+    guint i;
+
+    client = MILTER_CLIENT(manager);
+    if (milter_client_get_worker_id(client) > 0)
+        return;
+
+    pids = milter_client_get_worker_pids(client);
+    if (!pids)
+        return;
+
+    for (i = 0; i < pids->len; i++) {
+        kill(g_array_index(pids, GPid, i), SIGHUP);
+    }
+}
+
 gboolean
 milter_manager_reload (MilterManager *manager, GError **error)
 {
@@ -1563,6 +1583,7 @@ milter_manager_reload (MilterManager *manager, GError **error)
     success = milter_manager_configuration_reload(priv->configuration, error);
     apply_syslog_parameters(manager);
     apply_custom_parameters(manager);
+    reload_workers(manager);
     return success;
 }
 
-- 
2.43.0


From 58d34bd7f7a4d4be6e3986b6fa8373487a40d121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:25 +0000
Subject: [PATCH 51/61] fix: the event loop slept at max_connections instead of
 serving its sessions

The accept watch is removed and added again by a timer. Before, every
running session waited and none could end, so a manager at its limit
stopped for ever.
---
 milter/client/milter-client.c | 122 ++++++++++++++++++++++++++--------
 1 file changed, 93 insertions(+), 29 deletions(-)

diff --git a/milter/client/milter-client.c b/milter/client/milter-client.c
index 4f173cb..1f3b99d 100644
--- a/milter/client/milter-client.c
+++ b/milter/client/milter-client.c
@@ -83,6 +83,9 @@ struct _MilterClientPrivate
     MilterEventLoop *event_loop;
     guint accept_watch_id;
     guint accept_error_watch_id;
+    guint resume_accept_id;
+    GIOFunc accept_func;
+    gint accept_priority;
     gchar *connection_spec;
     GList *processing_data;
     guint n_processing_sessions;
@@ -492,6 +495,9 @@ _milter_client_init (MilterClient *client)
 
     priv->accept_watch_id = 0;
     priv->accept_error_watch_id = 0;
+    priv->resume_accept_id = 0;
+    priv->accept_func = NULL;
+    priv->accept_priority = G_PRIORITY_DEFAULT;
     priv->connection_spec = NULL;
     priv->processing_data = NULL;
     priv->n_processing_sessions = 0;
@@ -736,6 +742,11 @@ dispose_accept_watchers (MilterClientPrivate *priv)
         }
         priv->accept_error_watch_id = 0;
     }
+
+    if (priv->resume_accept_id > 0) {
+        milter_event_loop_remove(priv->event_loop, priv->resume_accept_id);
+        priv->resume_accept_id = 0;
+    }
 }
 
 static void
@@ -1354,6 +1365,70 @@ single_thread_process_client_channel (MilterClient *client, GIOChannel *channel,
                                     NULL);
 }
 
+static void
+watch_accept (MilterClient *client, MilterEventLoop *loop)
+{
+    MilterClientPrivate *priv;
+
+    priv = MILTER_CLIENT_GET_PRIVATE(client);
+    priv->accept_watch_id =
+        milter_event_loop_watch_io_full(loop,
+                                        priv->accept_priority,
+                                        priv->listening_channel,
+                                        G_IO_IN | G_IO_PRI,
+                                        priv->accept_func,
+                                        client,
+                                        NULL);
+}
+
+static gboolean
+cb_timeout_resume_accept (gpointer data)
+{
+    MilterClient *client = data;
+    MilterClientPrivate *priv;
+
+    priv = MILTER_CLIENT_GET_PRIVATE(client);
+    priv->resume_accept_id = 0;
+    if (priv->quitting || !priv->listening_channel)
+        return FALSE;
+
+    milter_warning("[client][accept][resume] "
+                   "resume accepting connection.");
+    watch_accept(client, priv->event_loop);
+
+    return FALSE;
+}
+
+static void
+suspend_accept (MilterClient *client, guint suspend_time)
+{
+    MilterClientPrivate *priv;
+
+    priv = MILTER_CLIENT_GET_PRIVATE(client);
+    if (priv->accept_loop) {
+        /* Connections are processed by other threads. */
+        g_usleep(suspend_time * G_USEC_PER_SEC);
+        milter_warning("[client][accept][resume] "
+                       "resume accepting connection.");
+        return;
+    }
+
+    /* Connections are processed by the same event loop. They must not
+     * be stopped. The caller removes the accept watch. */
+    priv->accept_watch_id = 0;
+    priv->resume_accept_id =
+        milter_event_loop_add_timeout(priv->event_loop,
+                                      suspend_time,
+                                      cb_timeout_resume_accept,
+                                      client);
+}
+
+static gboolean
+is_accept_suspended (MilterClient *client)
+{
+    return MILTER_CLIENT_GET_PRIVATE(client)->resume_accept_id > 0;
+}
+
 static gint
 accept_connection_fd (MilterClient *client, gint server_fd,
                       MilterGenericSocketAddress *address,
@@ -1377,9 +1452,9 @@ accept_connection_fd (MilterClient *client, gint server_fd,
                        max_connections,
                        suspend_time,
                        n_suspend);
-        g_usleep(suspend_time * G_USEC_PER_SEC);
-        milter_warning("[client][accept][resume] "
-                       "resume accepting connection: #%u", n_suspend);
+        suspend_accept(client, suspend_time);
+        if (is_accept_suspended(client))
+            return -1;
     }
 
     *address_size = sizeof(*address);
@@ -1387,27 +1462,26 @@ accept_connection_fd (MilterClient *client, gint server_fd,
     client_fd = accept(server_fd, (struct sockaddr *)(address), address_size);
     if (client_fd == -1) {
         GError *error = NULL;
+        gint accept_errno = errno;
 
-        if (errno == EAGAIN)
+        if (accept_errno == EAGAIN)
             return client_fd;
 
         g_set_error(&error,
                     MILTER_CONNECTION_ERROR,
                     MILTER_CONNECTION_ERROR_ACCEPT_FAILURE,
-                    "failed to accept(): %s", g_strerror(errno));
-        milter_error("[client][error][accept] %s", g_strerror(errno));
+                    "failed to accept(): %s", g_strerror(accept_errno));
+        milter_error("[client][error][accept] %s", g_strerror(accept_errno));
         milter_error_emittable_emit(MILTER_ERROR_EMITTABLE(client),
                                     error);
         g_error_free(error);
 
-        if (errno == EMFILE) {
+        if (accept_errno == EMFILE) {
             milter_warning("[client][accept][suspend] "
                            "too many file is opened. "
                            "suspend accepting connection in %d seconds",
                            suspend_time);
-            g_usleep(suspend_time * G_USEC_PER_SEC);
-            milter_warning("[client][accept][resume] "
-                           "resume accepting connection.");
+            suspend_accept(client, suspend_time);
         }
 
         return client_fd;
@@ -2049,11 +2123,9 @@ milter_client_prepare (MilterClient *client, MilterEventLoop *loop,
         return FALSE;
     }
 
-    priv->accept_watch_id =
-        milter_event_loop_watch_io(loop,
-                                   priv->listening_channel,
-                                   G_IO_IN | G_IO_PRI,
-                                   accept_func, client);
+    priv->accept_func = accept_func;
+    priv->accept_priority = G_PRIORITY_DEFAULT;
+    watch_accept(client, loop);
     priv->accept_error_watch_id =
         milter_event_loop_watch_io(loop,
                                    priv->listening_channel,
@@ -2253,7 +2325,7 @@ single_thread_single_loop_accept_watch_func (GIOChannel *channel,
     keep_callback = single_thread_single_loop_accept_connection(client, fd);
     if (!keep_callback)
         milter_client_shutdown(client);
-    return keep_callback;
+    return keep_callback && !is_accept_suspended(client);
 }
 
 static gboolean
@@ -2471,20 +2543,17 @@ worker_accept_watch_func (GIOChannel *channel, GIOCondition condition,
     gint server_fd, client_fd;
     MilterGenericSocketAddress address;
     socklen_t address_size;
-    gboolean keep_callback = TRUE;
 
     server_fd = g_io_channel_unix_get_fd(channel);
     client_fd = accept_connection_fd(client, server_fd, &address, &address_size);
-    if (client_fd == -1) {
-        keep_callback = errno == EAGAIN;
-    } else {
+    if (client_fd != -1) {
         GIOChannel *client_channel;
         client_channel = setup_client_channel(client_fd);
         single_thread_process_client_channel(client, client_channel,
                                              &address, (socklen_t)address_size);
         g_io_channel_unref(client_channel);
     }
-    return keep_callback;
+    return !is_accept_suspended(client);
 }
 
 static gboolean
@@ -2525,14 +2594,9 @@ run_worker (MilterClient *client, GError **error)
 
     priv->quitting = FALSE;
     loop = milter_client_get_event_loop(client);
-    priv->accept_watch_id =
-        milter_event_loop_watch_io_full(loop,
-                                        G_PRIORITY_HIGH,
-                                        priv->listening_channel,
-                                        G_IO_IN | G_IO_PRI,
-                                        worker_accept_watch_func,
-                                        client,
-                                        NULL);
+    priv->accept_func = worker_accept_watch_func;
+    priv->accept_priority = G_PRIORITY_HIGH;
+    watch_accept(client, loop);
     priv->accept_error_watch_id =
         milter_event_loop_watch_io_full(loop,
                                         G_PRIORITY_HIGH,
-- 
2.43.0


From b4534cbe7b662972ea186cd1f92c76099d1f15c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:25 +0000
Subject: [PATCH 52/61] fix: connections were accepted and never served after
 shutdown was requested

---
 milter/client/milter-client.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/milter/client/milter-client.c b/milter/client/milter-client.c
index 1f3b99d..59ec534 100644
--- a/milter/client/milter-client.c
+++ b/milter/client/milter-client.c
@@ -2632,6 +2632,11 @@ milter_client_shutdown (MilterClient *client)
             g_io_channel_unref(priv->listening_channel);
             priv->listening_channel = NULL;
         }
+        if (priv->listen_channel) {
+            /* the socket is still listened while the channel is alive */
+            g_io_channel_unref(priv->listen_channel);
+            priv->listen_channel = NULL;
+        }
 
         if (priv->n_processing_sessions == 0)
             milter_event_loop_quit(priv->event_loop);
-- 
2.43.0


From 9dce93ab18c88a79bbd5ba8b1d6d7e02abb2a9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:26 +0000
Subject: [PATCH 53/61] fix: fail on empty commands and empty required values

A packet with the length zero was given to the command and reply decoders
although its first byte belongs to the next packet: the content's length
became negative. Failures without a GError left the decoder in its error
state without anybody being told.
---
 milter/core/milter-decoder.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/milter/core/milter-decoder.c b/milter/core/milter-decoder.c
index 88bdf03..c3336aa 100644
--- a/milter/core/milter-decoder.c
+++ b/milter/core/milter-decoder.c
@@ -415,7 +415,19 @@ milter_decoder_decode (MilterDecoder *decoder, const gchar *chunk, gsize size,
                 milter_trace("[%u] [decoder][decode][content][fill] "
                              "<%d> (%" G_GSIZE_FORMAT ")",
                              priv->tag, priv->command_length, priv->buffer->len);
-                g_signal_emit(decoder, signals[DECODE], 0, error, &success);
+                if (priv->command_length > 0) {
+                    g_signal_emit(decoder, signals[DECODE], 0, error, &success);
+                } else {
+                    success = FALSE;
+                }
+                if (!success && error && !*error) {
+                    g_set_error(error,
+                                MILTER_DECODER_ERROR,
+                                MILTER_DECODER_ERROR_SHORT_COMMAND_LENGTH,
+                                "empty command or empty required value "
+                                "was received: <%d>",
+                                priv->command_length);
+                }
                 if (success) {
                     priv->state = IN_START;
                     g_string_erase(priv->buffer, 0, priv->command_length);
-- 
2.43.0


From ddfbcaf0196cdfe475d99817d14ac7890a18d3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:26 +0000
Subject: [PATCH 54/61] fix: check that a connect command has a socket family

---
 milter/core/milter-command-decoder.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/milter/core/milter-command-decoder.c b/milter/core/milter-command-decoder.c
index 4491ea7..6e60486 100644
--- a/milter/core/milter-command-decoder.c
+++ b/milter/core/milter-command-decoder.c
@@ -521,6 +521,11 @@ decode_connect_content (const gchar *buffer, gint length,
     decoded_host_name = buffer;
     i = null_character_point + 1;
 
+    if (!milter_decoder_check_command_length(
+            buffer + i, length - i, sizeof(family),
+            MILTER_DECODER_COMPARE_AT_LEAST, error,
+            "socket family on connect command"))
+        return FALSE;
     family = buffer[i];
     i++;
     switch (family) {
-- 
2.43.0


From 8841699b6a090c70831fd6bed9675306710e1285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:26 +0000
Subject: [PATCH 55/61] fix: keep a reader alive while its callback runs

It is freed by those who handle its finished signal.
---
 milter/core/milter-reader.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/milter/core/milter-reader.c b/milter/core/milter-reader.c
index 62d30a8..5b01db4 100644
--- a/milter/core/milter-reader.c
+++ b/milter/core/milter-reader.c
@@ -220,6 +220,7 @@ read_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
     gboolean keep_callback = TRUE;
 
     priv = MILTER_READER_GET_PRIVATE(reader);
+    g_object_ref(reader);
     priv->processing = TRUE;
     milter_trace("[%d] [reader][callback][read][process][start]", priv->tag);
 
@@ -250,6 +251,7 @@ read_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
 
     milter_trace("[%d] [reader][callback][read][process][done]", priv->tag);
     priv->processing = FALSE;
+    g_object_unref(reader);
 
     return keep_callback;
 }
-- 
2.43.0


From a9b5dd3cfd39fa8dad7c25d33eba1e10ac1aedbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:26 +0000
Subject: [PATCH 56/61] fix: let go of the milters of an earlier negotiation

When an MTA negotiated again the milters of the first negotiation stayed
connected, and reported to the session, for ever.
---
 milter/manager/milter-manager-leader.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/milter/manager/milter-manager-leader.c b/milter/manager/milter-manager-leader.c
index 643458d..3cf42d6 100644
--- a/milter/manager/milter-manager-leader.c
+++ b/milter/manager/milter-manager-leader.c
@@ -1084,6 +1084,13 @@ milter_manager_leader_negotiate (MilterManagerLeader *leader,
     priv = MILTER_MANAGER_LEADER_GET_PRIVATE(leader);
     priv->state = MILTER_MANAGER_LEADER_STATE_NEGOTIATE;
 
+    if (priv->children) {
+        milter_manager_children_quit(priv->children);
+        teardown_children_signals(leader, priv->children);
+        g_object_unref(priv->children);
+        priv->children = NULL;
+    }
+
     event_loop = milter_agent_get_event_loop(MILTER_AGENT(priv->client_context));
     priv->children = milter_manager_children_new(priv->configuration,
                                                  event_loop);
-- 
2.43.0


From fd46cc1c310c652daed6a752ecb9f8479601f04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:44 +0000
Subject: [PATCH 57/61] fix: a milter that refuses a recipient twice crashed
 the manager

A milter that was given up while its answer to a recipient was waited for
can still send answers; the second refusal was of no recipient at all.
---
 milter/server/milter-server-context.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index ff14094..f4b609c 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -2686,7 +2686,8 @@ cb_decoder_reply_code (MilterReplyDecoder *decoder,
         status = MILTER_STATUS_REJECT;
     }
 
-    if (priv->state == MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT) {
+    if (priv->state == MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT &&
+        priv->current_recipient) {
         priv->envelope_recipient_status = status;
         ensure_message_result(priv);
         if (status == MILTER_STATUS_TEMPORARY_FAILURE) {
@@ -2758,7 +2759,8 @@ cb_decoder_temporary_failure (MilterReplyDecoder *decoder, gpointer user_data)
     if (!check_reply_waited(context, "temporary-failure"))
         return;
 
-    if (priv->state == MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT) {
+    if (priv->state == MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT &&
+        priv->current_recipient) {
         priv->envelope_recipient_status = MILTER_STATUS_TEMPORARY_FAILURE;
         ensure_message_result(priv);
         milter_message_result_add_temporary_failed_recipient(
@@ -2823,7 +2825,8 @@ cb_decoder_reject (MilterReplyDecoder *decoder, gpointer user_data)
     if (!check_reply_waited(context, "reject"))
         return;
 
-    if (priv->state == MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT) {
+    if (priv->state == MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT &&
+        priv->current_recipient) {
         priv->envelope_recipient_status = MILTER_STATUS_REJECT;
         ensure_message_result(priv);
         milter_message_result_add_rejected_recipient(priv->message_result,
-- 
2.43.0


From 2c256ea9473138e9283750a2ac5b1d884ec29eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:34 +0000
Subject: [PATCH 58/61] fix: read no header behind the packet it is in

The length of the content of insert-header and change-header replies was two
bytes too big: a value without its terminating NUL was accepted.
---
 milter/core/milter-reply-decoder.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/milter/core/milter-reply-decoder.c b/milter/core/milter-reply-decoder.c
index 7a42729..43ef286 100644
--- a/milter/core/milter-reply-decoder.c
+++ b/milter/core/milter-reply-decoder.c
@@ -476,7 +476,7 @@ decode_reply_insert_header (MilterDecoder *decoder, GError **error)
     command_length = milter_decoder_get_command_length(decoder);
     buffer = milter_decoder_get_buffer(decoder);
 
-    decoded = decode_header_content_with_index(buffer + 1, command_length + 1,
+    decoded = decode_header_content_with_index(buffer + 1, command_length - 1,
                                                &index, &name, &value, error);
     if (!decoded)
         return FALSE;
@@ -502,7 +502,7 @@ decode_reply_change_header (MilterDecoder *decoder, GError **error)
     command_length = milter_decoder_get_command_length(decoder);
     buffer = milter_decoder_get_buffer(decoder);
 
-    decoded = decode_header_content_with_index(buffer + 1, command_length + 1,
+    decoded = decode_header_content_with_index(buffer + 1, command_length - 1,
                                                &index, &name, &value, error);
     if (!decoded)
         return FALSE;
-- 
2.43.0


From bca8c566e2e3e63966f6f2828e1d8c139ee30e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:18 +0000
Subject: [PATCH 59/61] fix: compare macro names as bytes

g_utf8_collate() is undefined for what isn't UTF-8: a macro whose name had
other bytes crashed the manager.
---
 milter/core/milter-command-encoder.c | 2 +-
 milter/core/milter-macros-requests.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/milter/core/milter-command-encoder.c b/milter/core/milter-command-encoder.c
index fcd3c98..fd6fc87 100644
--- a/milter/core/milter-command-encoder.c
+++ b/milter/core/milter-command-encoder.c
@@ -101,7 +101,7 @@ compare_macro_key (gconstpointer a, gconstpointer b)
         key1++;
     if (key2[0] == '{')
         key2++;
-    return g_utf8_collate(key1, key2);
+    return strcmp(key1, key2);
 }
 
 static void
diff --git a/milter/core/milter-macros-requests.c b/milter/core/milter-macros-requests.c
index bc5f53a..22985b8 100644
--- a/milter/core/milter-macros-requests.c
+++ b/milter/core/milter-macros-requests.c
@@ -255,7 +255,7 @@ merge_requests (MilterCommand command, GList *symbols, gpointer user_data)
     for (node = symbols; node; node = g_list_next(node)) {
         gchar *symbol = node->data;
         if (!g_list_find_custom(copied_symbols, symbol,
-                                (GCompareFunc)g_utf8_collate))
+                                (GCompareFunc)strcmp))
             copied_symbols = g_list_append(copied_symbols, g_strdup(symbol));
     }
     g_hash_table_insert(dest, key, copied_symbols);
-- 
2.43.0


From faf5be64ae7faf5fe5190ec03c551ae9261ccd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:03 +0000
Subject: [PATCH 60/61] fix: refuse UNIX domain socket paths that are too long

The path of a connect command or a connection spec was copied into the
address whatever its length.
---
 milter/core/milter-command-decoder.c | 10 ++++++++++
 milter/core/milter-connection.c      |  8 ++++++++
 2 files changed, 18 insertions(+)

diff --git a/milter/core/milter-command-decoder.c b/milter/core/milter-command-decoder.c
index 6e60486..bf6d540 100644
--- a/milter/core/milter-command-decoder.c
+++ b/milter/core/milter-command-decoder.c
@@ -488,6 +488,16 @@ decode_connect_unix_address (const gchar *buffer,
 {
     struct sockaddr_un *address_un;
 
+    if (strlen(buffer) >= sizeof(address_un->sun_path)) {
+        g_set_error(error,
+                    MILTER_COMMAND_DECODER_ERROR,
+                    MILTER_COMMAND_DECODER_ERROR_INVALID_FORMAT,
+                    "too long UNIX domain socket path on connect command: "
+                    "<%s>: <%c>: <%u>: <%s>",
+                    host_name, family, g_ntohs(port), buffer);
+        return FALSE;
+    }
+
     *address_length = sizeof(struct sockaddr_un);
     address_un = g_malloc(*address_length);
     memset(address_un, 0, *address_length);
diff --git a/milter/core/milter-connection.c b/milter/core/milter-connection.c
index 5b92897..bcb790f 100644
--- a/milter/core/milter-connection.c
+++ b/milter/core/milter-connection.c
@@ -271,6 +271,14 @@ milter_connection_parse_spec (const gchar      *spec,
         if (address && address_size) {
             struct sockaddr_un *address_unix;
 
+            if (strlen(content) >= sizeof(address_unix->sun_path)) {
+                g_set_error(error,
+                            MILTER_CONNECTION_ERROR,
+                            MILTER_CONNECTION_ERROR_INVALID_FORMAT,
+                            "too long path: <%s>", spec);
+                return FALSE;
+            }
+
             address_unix = g_new(struct sockaddr_un, 1);
             memset(address_unix, 0, sizeof(*address_unix));
             address_unix->sun_family = AF_UNIX;
-- 
2.43.0


From e7ed8f50eb87c68363e43b27c41cb216075a7cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:22 +0000
Subject: [PATCH 61/61] fix: refuse an add recipient reply without a terminated
 recipient

The error was set but the reply was taken all the same.
---
 milter/core/milter-reply-decoder.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/milter/core/milter-reply-decoder.c b/milter/core/milter-reply-decoder.c
index 43ef286..05ee286 100644
--- a/milter/core/milter-reply-decoder.c
+++ b/milter/core/milter-reply-decoder.c
@@ -602,13 +602,17 @@ decode_reply_add_recipient (MilterDecoder *decoder, GError **error)
 {
     const gchar *buffer;
     gint32 command_length;
+    gint null_character_point;
 
     command_length = milter_decoder_get_command_length(decoder);
     buffer = milter_decoder_get_buffer(decoder);
 
-    milter_decoder_decode_null_terminated_value(
-        buffer + 1, command_length - 1, error,
-        "Recipient isn't terminated by NULL on ADD RECIPIENT reply");
+    null_character_point =
+        milter_decoder_decode_null_terminated_value(
+            buffer + 1, command_length - 1, error,
+            "Recipient isn't terminated by NULL on ADD RECIPIENT reply");
+    if (null_character_point <= 0)
+        return FALSE;
 
     milter_debug("[%u] [reply-decoder][add-recipient] <%s>",
                  milter_decoder_get_tag(decoder),
-- 
2.43.0

