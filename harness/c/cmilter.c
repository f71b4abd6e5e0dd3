/* A milter that does exactly what the harness tells it to do.
 *
 *   cmilter smfi|client CONTROL-FD SPEC TIMEOUT BUFFER CALLBACKS BACKEND
 *
 * smfi    a filter written with the libmilter-compatible API
 * client  a filter written with MilterClient / MilterClientContext signals
 * Every callback is reported on the control socket and answered by it; while
 * a callback runs (or, in client mode, its answer is postponed with
 * "progress") the harness may request calls into the library.
 *
 * Frames: 4 byte big endian length + words separated by blanks.
 *   out:  cb CONN NAME ARG...      res CONN OK [VALUE]
 *   in:   call CONN NAME ARG...    ret CONN STATUS [ARG...]
 * An argument is "-" (NULL) or "x" + hex digits. */
#include <config.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <unistd.h>
#include <errno.h>
#include <arpa/inet.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <milter/client.h>
#include <mfapi.h>

static int ctl = 3;
static const char *callbacks = "";
static int smfi_mode = 0;

static int
has (const char *name)
{
    char pat[64];
    g_snprintf(pat, sizeof pat, ",%s,", name);
    return strstr(callbacks, pat) != NULL;
}

/* ------------------------------------------------------------- control */
static void
write_all (const char *d, size_t n)
{
    while (n) {
        ssize_t w = write(ctl, d, n);
        if (w < 0) {
            if (errno == EINTR)
                continue;
            _exit(0);
        }
        d += w;
        n -= w;
    }
}

static void
put (GString *s)
{
    guint32 n = htonl(s->len);
    g_string_prepend_len(s, (char *)&n, 4);
    write_all(s->str, s->len);
    g_string_free(s, TRUE);
}

static void
add (GString *s, const char *d, gssize n)
{
    gssize i;
    g_string_append_c(s, ' ');
    if (!d) {
        g_string_append_c(s, '-');
        return;
    }
    if (n < 0)
        n = strlen(d);
    g_string_append_c(s, 'x');
    for (i = 0; i < n; i++)
        g_string_append_printf(s, "%02x", (guchar)d[i]);
}

static void
addnum (GString *s, long v)
{
    char b[32];
    g_snprintf(b, sizeof b, "%ld", v);
    add(s, b, -1);
}

static int
read_all (char *d, size_t n)
{
    while (n) {
        ssize_t r = read(ctl, d, n);
        if (r < 0 && errno == EINTR)
            continue;
        if (r <= 0)
            return 0;
        d += r;
        n -= r;
    }
    return 1;
}

typedef struct {
    char  *raw;
    char **w;          /* words */
    int    n;
    char **a;          /* decoded arguments (from word 3 on), NULL = NULL */
    gsize *len;
    int    na;
} Msg;

static void
msg_free (Msg *m)
{
    int i;
    for (i = 0; i < m->na; i++)
        g_free(m->a[i]);
    g_free(m->a);
    g_free(m->len);
    g_strfreev(m->w);
    g_free(m);
}

static Msg *
get (void)
{
    guint32 n;
    char *b;
    Msg *m;
    int i, j;

    if (!read_all((char *)&n, 4))
        _exit(0);
    n = ntohl(n);
    b = g_malloc(n + 1);
    if (!read_all(b, n))
        _exit(0);
    b[n] = 0;
    m = g_new0(Msg, 1);
    m->w = g_strsplit(b, " ", -1);
    g_free(b);
    m->n = g_strv_length(m->w);
    m->na = m->n > 3 ? m->n - 3 : 0;
    m->a = g_new0(char *, m->na + 1);
    m->len = g_new0(gsize, m->na + 1);
    for (i = 0; i < m->na; i++) {
        char *x = m->w[i + 3];
        if (x[0] == 'x') {
            gsize l = strlen(x + 1) / 2;
            m->a[i] = g_malloc0(l + 1);
            m->len[i] = l;
            for (j = 0; j < (int)l; j++)
                m->a[i][j] = g_ascii_xdigit_value(x[1 + 2 * j]) * 16 + g_ascii_xdigit_value(x[2 + 2 * j]);
        }
    }
    return m;
}

/* ---------------------------------------------------------------- connections */
typedef struct {
    int id;
    void *ctx;              /* SMFICTX or MilterClientContext */
    MilterClientContext *cc;
    const char *pending;    /* postponed callback */
    MilterOption *option;
    MilterMacrosRequests *requests;
} Conn;

static int nconn = 0;
static GList *conns = NULL;

static Conn *
conn_new (void *ctx)
{
    Conn *c = g_new0(Conn, 1);
    c->id = ++nconn;
    c->ctx = ctx;
    conns = g_list_append(conns, c);
    return c;
}

static Conn *
conn_of (void *ctx)
{
    GList *l;
    for (l = conns; l; l = l->next) {
        Conn *c = l->data;
        if (c->ctx == ctx)
            return c;
    }
    return conn_new(ctx);
}

static Conn *
conn_by_id (int id)
{
    GList *l;
    for (l = conns; l; l = l->next) {
        Conn *c = l->data;
        if (c->id == id)
            return c;
    }
    return NULL;
}

static void
conn_gone (Conn *c)
{
    conns = g_list_remove(conns, c);
    if (c->option)
        g_object_unref(c->option);
    if (c->requests)
        g_object_unref(c->requests);
    g_free(c);
}

static GString *
cb_begin (Conn *c, const char *name)
{
    GString *s = g_string_new(NULL);
    g_string_append_printf(s, "cb %d %s", c->id, name);
    return s;
}

static void
answer (Conn *c, int ok, const char *value, int has_value)
{
    GString *s = g_string_new(NULL);
    g_string_append_printf(s, "res %d %d", c->id, ok);
    if (has_value)
        add(s, value, -1);
    put(s);
}

static MilterCommand
stage_command (int st)
{
    static const MilterCommand t[] = {
        MILTER_COMMAND_CONNECT, MILTER_COMMAND_HELO, MILTER_COMMAND_ENVELOPE_FROM, MILTER_COMMAND_ENVELOPE_RECIPIENT,
        MILTER_COMMAND_DATA, MILTER_COMMAND_END_OF_MESSAGE, MILTER_COMMAND_END_OF_HEADER};
    return t[st];
}

static void
do_call (Conn *c, Msg *m)
{
    const char *f = m->w[2];
    char **a = m->a;
    GError *e = NULL;
    int ok = 0;
#define IS(x) (!strcmp(f, x))
    if (smfi_mode) {
        SMFICTX *x = c->ctx;
        if (IS("setreply"))
            ok = smfi_setreply(x, a[0], a[1], a[2]);
        else if (IS("setmlreply"))
            ok = m->na == 2 ? smfi_setmlreply(x, a[0], a[1], NULL) :
                m->na == 3 ? smfi_setmlreply(x, a[0], a[1], a[2], NULL) :
                m->na == 4 ? smfi_setmlreply(x, a[0], a[1], a[2], a[3], NULL) :
                smfi_setmlreply(x, a[0], a[1], a[2], a[3], a[4], NULL);
        else if (IS("addheader"))
            ok = smfi_addheader(x, a[0], a[1]);
        else if (IS("insheader"))
            ok = smfi_insheader(x, atoi(a[0]), a[1], a[2]);
        else if (IS("chgheader"))
            ok = smfi_chgheader(x, a[0], atoi(a[1]), a[2]);
        else if (IS("chgfrom"))
            ok = smfi_chgfrom(x, a[0], a[1]);
        else if (IS("addrcpt"))
            ok = smfi_addrcpt(x, a[0]);
        else if (IS("addrcptpar"))
            ok = smfi_addrcpt_par(x, a[0], a[1]);
        else if (IS("delrcpt"))
            ok = smfi_delrcpt(x, a[0]);
        else if (IS("progress"))
            ok = smfi_progress(x);
        else if (IS("replacebody"))
            ok = smfi_replacebody(x, (guchar *)a[0], m->len[0]);
        else if (IS("quarantine"))
            ok = smfi_quarantine(x, a[0]);
        else if (IS("setsymlist"))
            ok = smfi_setsymlist(x, atoi(a[0]), a[1]);
        else if (IS("getmacro")) {
            answer(c, 1, smfi_getsymval(x, a[0]), 1);
            return;
        } else if (IS("setpriv")) {
            char *o = smfi_getpriv(x);
            g_free(o);
            ok = smfi_setpriv(x, g_strdup(a[0]));
        } else if (IS("getpriv")) {
            answer(c, 1, smfi_getpriv(x), 1);
            return;
        } else {
            fprintf(stderr, "unknown call %s\n", f);
            _exit(99);
        }
        answer(c, ok == MI_SUCCESS, NULL, 0);
        return;
    } else {
        MilterClientContext *x = c->cc;
        if (IS("setreply"))
            ok = milter_client_context_set_reply(x, a[0] ? strtoul(a[0], NULL, 10) : 0, a[1], a[2], &e);
        else if (IS("addheader"))
            ok = milter_client_context_add_header(x, a[0], a[1], &e);
        else if (IS("insheader"))
            ok = milter_client_context_insert_header(x, strtoul(a[0], NULL, 10), a[1], a[2], &e);
        else if (IS("chgheader"))
            ok = milter_client_context_change_header(x, a[0], strtoul(a[1], NULL, 10), a[2], &e);
        else if (IS("delheader"))
            ok = milter_client_context_delete_header(x, a[0], strtoul(a[1], NULL, 10), &e);
        else if (IS("chgfrom"))
            ok = milter_client_context_change_from(x, a[0], a[1], &e);
        else if (IS("addrcpt"))
            ok = milter_client_context_add_recipient(x, a[0], NULL, &e);
        else if (IS("addrcptpar"))
            ok = milter_client_context_add_recipient(x, a[0], a[1], &e);
        else if (IS("delrcpt"))
            ok = milter_client_context_delete_recipient(x, a[0], &e);
        else if (IS("progress"))
            ok = milter_client_context_progress(x);
        else if (IS("replacebody"))
            ok = milter_client_context_replace_body(x, a[0], m->len[0], &e);
        else if (IS("quarantine"))
            ok = milter_client_context_quarantine(x, a[0]);
        else if (IS("setsymlist")) {
            char **v = g_strsplit(a[1], " ", -1);
            ok = 0;
            if (c->requests) {
                milter_macros_requests_set_symbols_string_array(c->requests, stage_command(atoi(a[0])), (const gchar **)v);
                ok = 1;
            }
            g_strfreev(v);
        } else if (IS("getmacro")) {
            answer(c, 1, milter_protocol_agent_get_macro(MILTER_PROTOCOL_AGENT(x), a[0]), 1);
            return;
        } else if (IS("format")) {
            char *t = milter_client_context_format_reply(x);
            answer(c, 1, t, 1);
            g_free(t);
            return;
        } else if (IS("setpriv")) {
            milter_client_context_set_private_data(x, g_strdup(a[0]), g_free);
            ok = 1;
        } else if (IS("getpriv")) {
            answer(c, 1, milter_client_context_get_private_data(x), 1);
            return;
        } else if (IS("setshelf")) {
            milter_client_context_set_mail_transaction_shelf_value(x, a[0], a[1]);
            ok = 1;
        } else if (IS("getshelf")) {
            answer(c, 1, milter_client_context_get_mail_transaction_shelf_value(x, a[0]), 1);
            return;
        } else {
            fprintf(stderr, "unknown call %s\n", f);
            _exit(99);
        }
        if (!ok && e == NULL && strcmp(f, "quarantine") && strcmp(f, "progress") && strcmp(f, "setsymlist"))
            ok = 2;          /* failed without saying why */
        if (ok == 1 && e)
            ok = 3;          /* succeeded with an error */
        if (e)
            g_error_free(e);
        answer(c, ok, NULL, 0);
    }
}

/* serves the harness until the answer for the callback arrives */
static Msg *
serve (Conn *c)
{
    while (1) {
        Msg *m = get();
        if (!strcmp(m->w[0], "ret"))
            return m;
        do_call(c, m);
        msg_free(m);
    }
}

/* --------------------------------------------------------------- smfi */
static void
addr_words (GString *s, struct sockaddr *a)
{
    char b[128];
    if (!a) {
        add(s, "none", -1);
        return;
    }
    switch (a->sa_family) {
    case AF_INET: {
        struct sockaddr_in *i = (void *)a;
        add(s, "4", -1);
        addnum(s, ntohs(i->sin_port));
        add(s, inet_ntop(AF_INET, &i->sin_addr, b, sizeof b), -1);
        break;
    }
    case AF_INET6: {
        struct sockaddr_in6 *i = (void *)a;
        add(s, "6", -1);
        addnum(s, ntohs(i->sin6_port));
        add(s, inet_ntop(AF_INET6, &i->sin6_addr, b, sizeof b), -1);
        break;
    }
    case AF_UNIX:
        add(s, "L", -1);
        add(s, ((struct sockaddr_un *)a)->sun_path, -1);
        break;
    default:
        add(s, "U", -1);
        break;
    }
}

static sfsistat
smfi_ask (Conn *c, GString *s)
{
    Msg *m;
    int st;
    put(s);
    m = serve(c);
    st = atoi(m->w[2]);
    msg_free(m);
    return st;
}

static sfsistat
s_connect (SMFICTX *x, char *host, _SOCK_ADDR *a)
{
    Conn *c = conn_of(x);
    GString *s = cb_begin(c, "connect");
    add(s, host, -1);
    addr_words(s, a);
    return smfi_ask(c, s);
}

#define S1(fn, nm)                                     \
static sfsistat s_ ## fn (SMFICTX *x, char *v)         \
{                                                      \
    Conn *c = conn_of(x);                              \
    GString *s = cb_begin(c, nm);                      \
    add(s, v, -1);                                     \
    return smfi_ask(c, s);                             \
}
#define SV(fn, nm)                                     \
static sfsistat s_ ## fn (SMFICTX *x, char **v)        \
{                                                      \
    Conn *c = conn_of(x);                              \
    GString *s = cb_begin(c, nm);                      \
    while (*v)                                         \
        add(s, *v++, -1);                              \
    return smfi_ask(c, s);                             \
}
#define S0(fn, nm)                                     \
static sfsistat s_ ## fn (SMFICTX *x)                  \
{                                                      \
    Conn *c = conn_of(x);                              \
    return smfi_ask(c, cb_begin(c, nm));               \
}
S1(helo, "helo")
SV(mail, "mail")
SV(rcpt, "rcpt")
S0(data, "data")
S0(eoh, "eoh")
S0(eom, "eom")
S0(abort, "abort")

static sfsistat
s_close (SMFICTX *x)
{
    Conn *c = conn_of(x);
    char *o = smfi_getpriv(x);
    put(cb_begin(c, "close"));
    g_free(o);
    conn_gone(c);
    return SMFIS_CONTINUE;
}

static sfsistat
s_unknown (SMFICTX *x, const char *v)
{
    Conn *c = conn_of(x);
    GString *s = cb_begin(c, "unknown");
    add(s, v, -1);
    return smfi_ask(c, s);
}

static sfsistat
s_header (SMFICTX *x, char *n, char *v)
{
    Conn *c = conn_of(x);
    GString *s = cb_begin(c, "header");
    add(s, n, -1);
    add(s, v, -1);
    return smfi_ask(c, s);
}

static sfsistat
s_body (SMFICTX *x, unsigned char *d, size_t n)
{
    Conn *c = conn_of(x);
    GString *s = cb_begin(c, "body");
    add(s, (char *)d, n);
    return smfi_ask(c, s);
}

static sfsistat
s_negotiate (SMFICTX *x, unsigned long f0, unsigned long f1, unsigned long f2, unsigned long f3,
             unsigned long *p0, unsigned long *p1, unsigned long *p2, unsigned long *p3)
{
    Conn *c = conn_of(x);
    GString *s = cb_begin(c, "neg");
    Msg *m;
    int st;
    addnum(s, f0);
    addnum(s, f1);
    put(s);
    m = serve(c);
    st = atoi(m->w[2]);
    if (m->na >= 2) {
        *p0 = strtoul(m->a[0], NULL, 10);
        *p1 = strtoul(m->a[1], NULL, 10);
        *p2 = *p3 = 0;
    }
    msg_free(m);
    return st;
}

static int
run_smfi (const char *spec, int timeout)
{
    struct smfiDesc d;
    memset(&d, 0, sizeof d);
    d.xxfi_name = "cmilter";
    d.xxfi_version = SMFI_VERSION;
    d.xxfi_flags = 0x1ff;
    if (has("connect")) d.xxfi_connect = s_connect;
    if (has("helo")) d.xxfi_helo = s_helo;
    if (has("mail")) d.xxfi_envfrom = s_mail;
    if (has("rcpt")) d.xxfi_envrcpt = s_rcpt;
    if (has("header")) d.xxfi_header = s_header;
    if (has("eoh")) d.xxfi_eoh = s_eoh;
    if (has("body")) d.xxfi_body = s_body;
    if (has("eom")) d.xxfi_eom = s_eom;
    if (has("abort")) d.xxfi_abort = s_abort;
    d.xxfi_close = s_close;
    if (has("unknown")) d.xxfi_unknown = s_unknown;
    if (has("data")) d.xxfi_data = s_data;
    if (has("neg")) d.xxfi_negotiate = s_negotiate;
    if (smfi_setconn((char *)spec) != MI_SUCCESS || smfi_register(d) != MI_SUCCESS)
        return 98;
    if (timeout)
        smfi_settimeout(timeout);
    return smfi_main() == MI_SUCCESS ? 0 : 1;
}

/* --------------------------------------------------------------- client */
static const MilterStatus statuses[] = {
    /* by SMFIS_* number; 5 = default, 6 = not change, 9 = progress */
    MILTER_STATUS_CONTINUE, MILTER_STATUS_REJECT, MILTER_STATUS_DISCARD, MILTER_STATUS_ACCEPT,
    MILTER_STATUS_TEMPORARY_FAILURE, MILTER_STATUS_DEFAULT, MILTER_STATUS_NOT_CHANGE, MILTER_STATUS_NO_REPLY,
    MILTER_STATUS_SKIP, MILTER_STATUS_PROGRESS, MILTER_STATUS_ALL_OPTIONS};

static MilterStatus
client_status (Conn *c, const char *name, Msg *m)
{
    int n = atoi(m->w[2]);
    MilterStatus st = n >= 0 && n <= 10 ? statuses[n] : MILTER_STATUS_DEFAULT;
    if (!strcmp(name, "neg") && m->na >= 2) {
        milter_option_set_action(c->option, strtoul(m->a[0], NULL, 10));
        milter_option_set_step(c->option, strtoul(m->a[1], NULL, 10));
    }
    if (st == MILTER_STATUS_PROGRESS)
        c->pending = name;
    return st;
}

static MilterStatus
client_ask (Conn *c, const char *name, GString *s)
{
    Msg *m;
    MilterStatus st;
    put(s);
    m = serve(c);
    st = client_status(c, name, m);
    msg_free(m);
    return st;
}

static MilterStatus
c_negotiate (MilterClientContext *x, MilterOption *o, MilterMacrosRequests *r, gpointer u)
{
    Conn *c = u;
    GString *s = cb_begin(c, "neg");
    addnum(s, milter_option_get_action(o));
    addnum(s, milter_option_get_step(o));
    if (c->option)
        g_object_unref(c->option);
    c->option = g_object_ref(o);
    c->requests = g_object_ref(r);
    MilterStatus st = client_ask(c, "neg", s);
    if (st != MILTER_STATUS_PROGRESS) {
        g_object_unref(c->requests);
        c->requests = NULL;
    }
    return st;
}

static MilterStatus
c_connect (MilterClientContext *x, const gchar *host, struct sockaddr *a, socklen_t n, gpointer u)
{
    GString *s = cb_begin(u, "connect");
    add(s, host, -1);
    addr_words(s, a);
    return client_ask(u, "connect", s);
}

#define C1(fn, nm)                                                              \
static MilterStatus c_ ## fn (MilterClientContext *x, const gchar *v, gpointer u) \
{                                                                               \
    GString *s = cb_begin(u, nm);                                               \
    add(s, v, -1);                                                              \
    return client_ask(u, nm, s);                                                \
}
#define C0(fn, nm)                                                              \
static MilterStatus c_ ## fn (MilterClientContext *x, gpointer u)               \
{                                                                               \
    return client_ask(u, nm, cb_begin(u, nm));                                  \
}
C1(helo, "helo")
C1(mail, "mail")
C1(rcpt, "rcpt")
C1(unknown, "unknown")
C0(data, "data")
C0(eoh, "eoh")

static MilterStatus
c_header (MilterClientContext *x, const gchar *n, const gchar *v, gpointer u)
{
    GString *s = cb_begin(u, "header");
    add(s, n, -1);
    add(s, v, -1);
    return client_ask(u, "header", s);
}

static MilterStatus
c_body (MilterClientContext *x, const gchar *d, gsize n, gpointer u)
{
    GString *s = cb_begin(u, "body");
    add(s, d, n);
    return client_ask(u, "body", s);
}

static MilterStatus
c_eom (MilterClientContext *x, const gchar *d, gsize n, gpointer u)
{
    GString *s = cb_begin(u, "eom");
    add(s, d ? d : "", d ? n : 0);
    return client_ask(u, "eom", s);
}

static MilterStatus
c_abort (MilterClientContext *x, MilterClientContextState state, gpointer u)
{
    Conn *c = u;
    GString *s;
    c->pending = NULL;
    s = cb_begin(u, "abort");
    add(s, MILTER_CLIENT_CONTEXT_STATE_IN_MESSAGE_PROCESSING(state) || state == MILTER_CLIENT_CONTEXT_STATE_END_OF_MESSAGE ? "1" : "0", -1);
    return client_ask(u, "abort", s);
}

static void
c_finished (MilterFinishedEmittable *e, gpointer u)
{
    put(cb_begin(u, "close"));
    conn_gone(u);
}

static void
c_processed (MilterClientContext *x, MilterMessageResult *r, gpointer u)
{
}

static void
established (MilterClient *client, MilterClientContext *x, gpointer u)
{
    Conn *c = conn_new(x);
    c->cc = x;
#define ON(name, sig, fn) if (has(name)) g_signal_connect(x, sig, G_CALLBACK(fn), c)
    ON("neg", "negotiate", c_negotiate);
    ON("connect", "connect", c_connect);
    ON("helo", "helo", c_helo);
    ON("mail", "envelope-from", c_mail);
    ON("rcpt", "envelope-recipient", c_rcpt);
    ON("unknown", "unknown", c_unknown);
    ON("data", "data", c_data);
    ON("header", "header", c_header);
    ON("eoh", "end-of-header", c_eoh);
    ON("body", "body", c_body);
    ON("eom", "end-of-message", c_eom);
    ON("abort", "abort", c_abort);
    g_signal_connect(x, "finished", G_CALLBACK(c_finished), c);
}

static gboolean
cb_ctl (GIOChannel *ch, GIOCondition cond, gpointer u)
{
    static const struct { const char *name, *sig; } resp[] = {
        {"connect", "connect-response"}, {"helo", "helo-response"}, {"mail", "envelope-from-response"},
        {"rcpt", "envelope-recipient-response"}, {"unknown", "unknown-response"}, {"data", "data-response"},
        {"header", "header-response"}, {"eoh", "end-of-header-response"}, {"body", "body-response"},
        {"eom", "end-of-message-response"}, {"abort", "abort-response"}};
    Msg *m = get();
    Conn *c = conn_by_id(atoi(m->w[1]));
    unsigned i;

    if (!c) {
        fprintf(stderr, "no connection %s\n", m->w[1]);
        _exit(97);
    }
    if (!strcmp(m->w[0], "call")) {
        do_call(c, m);
    } else {
        const char *name = c->pending;
        MilterStatus st;
        if (!name) {
            fprintf(stderr, "nothing pending\n");
            _exit(96);
        }
        c->pending = NULL;
        st = client_status(c, name, m);
        if (!strcmp(name, "neg")) {
            MilterMacrosRequests *r = c->requests;
            c->requests = NULL;
            g_signal_emit_by_name(c->cc, "negotiate-response", c->option, r, st);
            g_object_unref(r);
        } else {
            for (i = 0; i < G_N_ELEMENTS(resp); i++)
                if (!strcmp(resp[i].name, name))
                    g_signal_emit_by_name(c->cc, resp[i].sig, st);
        }
    }
    msg_free(m);
    return TRUE;
}

static void
loop_created (MilterClient *client, MilterEventLoop *loop, gpointer u)
{
    milter_event_loop_watch_io(loop, g_io_channel_unix_new(ctl), G_IO_IN, cb_ctl, NULL);
}

static int
run_client (const char *spec, int timeout, int buffer, const char *backend)
{
    MilterClient *client;
    GError *e = NULL;
    int ok;

    milter_init();
    milter_client_init();
    client = milter_client_new();
    if (!strcmp(backend, "libev"))
        milter_client_set_event_loop_backend(client, MILTER_CLIENT_EVENT_LOOP_BACKEND_LIBEV);
    if (!milter_client_set_connection_spec(client, spec, &e))
        return 98;
    if (timeout)
        milter_client_set_timeout(client, timeout);
    milter_client_set_default_packet_buffer_size(client, buffer);
    g_signal_connect(client, "connection-established", G_CALLBACK(established), NULL);
    g_signal_connect(client, "event-loop-created", G_CALLBACK(loop_created), NULL);
    ok = milter_client_run(client, &e);
    if (e)
        fprintf(stderr, "%s\n", e->message);
    g_object_unref(client);
    return ok ? 0 : 1;
}

int
main (int argc, char **argv)
{
    if (argc < 8)
        return 99;
    ctl = atoi(argv[2]);
    callbacks = argv[6];
    if (!strcmp(argv[1], "smfi")) {
        smfi_mode = 1;
        return run_smfi(argv[3], atoi(argv[4]));
    }
    return run_client(argv[3], atoi(argv[4]), atoi(argv[5]), argv[7]);
}
