// Exceptions and timers: runs one history per process, one JSON line per command.
#include <config.h>
#include <parted/parted.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <sys/wait.h>

static uint32_t hash (const char *p) { uint32_t h = 2166136261u; while (*p) h = (h ^ (unsigned char) *p++) * 16777619u; return h & 0x3fffffff; }
static char *tok (void) { char *t = strtok (NULL, " \n"); return t ? t : (char *) ""; }
static long long num (void) { return strtoll (tok (), NULL, 0); }
static FILE *out;
static char calls[1 << 16], *cp; static int ncalls;

/* ---- exceptions ---- */
static int reply, inner, depth; static char *errbuf; static size_t errlen;
static char *text (int kind, int n)
{ char *s = malloc (n + 1); for (int i = 0; i < n; i++) s[i] = 'a' + (i * 7 + kind * 3) % 26; s[n] = 0; return s; }
static int throw_it (int t, int o, int kind, int n)
{
  char *s = text (kind, n); int r;
  r = kind & 1 ? ped_exception_throw (t, o, "%s", s) : ped_exception_throw (t, o, "<%s:%d:%c>", s, n, '%');
  free (s); return r;
}
static uint32_t throw_hash (int kind, int n)
{ char *s = text (kind, n), b[n + 40]; if (kind & 1) strcpy (b, s); else sprintf (b, "<%s:%d:%%>", s, n); free (s); return hash (b); }
static PedExceptionOption handle (int id, PedException *e)
{
  if (cp - calls < 60000) cp += sprintf (cp, "%s[%d,%d,%d,%d,%d]", ncalls ? "," : "", id, e->type, e->options, (int) hash (e->message), ped_exception);
  ncalls++;
  int mine = reply;
  if (inner && !depth) {
    depth++;
    if (inner == 1) throw_it (3, 64, 1, 10);
    else { ped_exception_fetch_all (); throw_it (2, 32, 1, 11); ped_exception_catch (); ped_exception_leave_all (); }
    depth--;
  }
  return mine;
}
static PedExceptionOption h1 (PedException *e) { return handle (1, e); }
static PedExceptionOption h2 (PedException *e) { return handle (2, e); }

/* ---- timers ---- */
static time_t now_t = 1000000;
time_t time (time_t *p) { if (p) *p = now_t; return now_t; }
#define NT 8
static PedTimer *tm[NT]; static int nested[NT], live[NT]; static int ids[NT];
static long long fx (float f) { double d = (double) f * 1048576.0; long long v = (long long) d; return (double) v == d ? v : -77777777; }
static char *names[] = {"", "copying", "checking", "done"};
static int name_of (const char *s) { if (!s) return 0; for (int i = 1; i < 4; i++) if (!strcmp (s, names[i])) return i; return -1; }
static void tick (PedTimer *t, void *ctx)
{
  int id = *(int *) ctx;
  if (cp - calls < 60000) cp += sprintf (cp, "%s[%d,%lld,%lld,%lld,%lld,%d]", ncalls ? "," : "", live[id] ? id : -id - 10, fx (t->frac), (long long) t->now - 1000000, (long long) t->start - 1000000,
    (long long) t->predicted_end - 1000000, name_of (t->state_name));
  ncalls++;
}

static void run (char *line)
{
  char copy[512]; snprintf (copy, sizeof copy, "%s", line); copy[strcspn (copy, "\n")] = 0;
  char *c = strtok (line, " \n"); if (!c) return;
  cp = calls; *cp = 0; ncalls = 0;
  long ret = 0; int t = 0, o = 0; uint32_t m = 0; char extra[200] = "";
  if (errbuf) { fflush (stderr); rewind (stderr); }
  if (!strcmp (c, "set")) { int h = num (); ped_exception_set_handler (h == 1 ? h1 : h == 2 ? h2 : NULL); }
  else if (!strcmp (c, "get")) { PedExceptionHandler *(*volatile g) (void) = ped_exception_get_handler; PedExceptionHandler *h = g (); ret = h == h1 ? 1 : h == h2 ? 2 : h ? 0 : -1; }
  else if (!strcmp (c, "reply")) { reply = num (); inner = num (); }
  else if (!strcmp (c, "throw")) { t = num (); o = num (); int kind = num (), n = num (); m = throw_hash (kind, n); ret = throw_it (t, o, kind, n); }
  else if (!strcmp (c, "rethrow")) ret = ped_exception_rethrow ();
  else if (!strcmp (c, "catch")) ped_exception_catch ();
  else if (!strcmp (c, "fetch")) ped_exception_fetch_all ();
  else if (!strcmp (c, "leave")) ped_exception_leave_all ();
  else if (!strcmp (c, "names")) { char *p = extra; p += sprintf (p, ",\"ty\":["); for (int i = 1; i <= 6; i++) p += sprintf (p, "%s\"%s\"", i > 1 ? "," : "", ped_exception_get_type_string (i));
    p += sprintf (p, "],\"on\":["); for (int i = 1; i <= 64; i *= 2) p += sprintf (p, "%s\"%s\"", i > 1 ? "," : "", ped_exception_get_option_string (i)); sprintf (p, "]"); }
  /* timers: NULL timers are slot 7 */
  else if (!strcmp (c, "clock")) now_t += num ();
  else if (!strcmp (c, "tnew")) { int k = num (); nested[k] = 0; live[k] = 1; ids[k] = k; tm[k] = ped_timer_new (tick, &ids[k]); ret = tm[k] != NULL; }
  else if (!strcmp (c, "tnest")) { int k = num (), p = num (); double f = num () / 64.0; nested[k] = 1; tm[k] = ped_timer_new_nested (tm[p], f); ret = tm[k] != NULL; live[k] = ret; }
  else if (!strcmp (c, "tdel")) { int k = num (); live[k] = 0; if (nested[k]) ped_timer_destroy_nested (tm[k]); else ped_timer_destroy (tm[k]); tm[k] = NULL; }
  else if (!strcmp (c, "tupd")) { int k = num (); ped_timer_update (tm[k], num () / 64.0); }
  else if (!strcmp (c, "treset")) ped_timer_reset (tm[num ()]);
  else if (!strcmp (c, "ttouch")) ped_timer_touch (tm[num ()]);
  else if (!strcmp (c, "tname")) { int k = num (); ped_timer_set_state_name (tm[k], names[num ()]); }
  else { fprintf (out, "{\"c\":\"unknown\"}\n"); return; }
  int el = 0, dh = 0;
  if (errbuf) { fflush (stderr); el = ftell (stderr); if (el > 0) {
      /* the default handler's output, "Type: message\n", as the delivery 0 it stands for */
      char *s = strndup (errbuf, el); char *q = strstr (s, ": "); char *bug = strstr (s, "following message:  ");
      char *msg = bug ? bug + 20 : q ? q + 2 : s; int L = strlen (msg); if (L && msg[L - 1] == '\n') msg[L - 1] = 0; int ty = -1;
      if (bug) ty = 5; else if (q) { *q = 0; for (int i = 1; i <= 6; i++) if (!strcmp (s, ped_exception_get_type_string (i))) ty = i; }
      cp += sprintf (cp, "%s[0,%d,%d,%d,1]", ncalls ? "," : "", ty, o, (int) hash (msg)); free (s); } }
  fprintf (out, "{\"c\":\"%s\",\"ret\":%ld,\"pend\":%d,\"m\":%u,\"calls\":[%s]%s,\"tm\":[", copy, ret, ped_exception, m, calls, extra);
  for (int i = 0; i < NT; i++) fprintf (out, "%s[%d,%lld,%d]", i ? "," : "", tm[i] != NULL, tm[i] ? fx (tm[i]->frac) : 0LL, tm[i] ? name_of (tm[i]->state_name) : 0);
  fprintf (out, "]}\n"); fflush (out);
}

int main (int argc, char **argv)
{
  out = stdout;
  size_t cap = 1 << 20, n = 0; char *in = malloc (cap);
  for (ssize_t r; (r = read (0, in + n, cap - n - 1)) > 0; ) { n += r; if (n + 1 >= cap) in = realloc (in, cap *= 2); }
  in[n] = 0; char *p = in;
  while (*p) {
    char *e = strchr (p, '\n'); if (!e) break; *e = 0;
    if (!strncmp (p, "begin", 5)) {
      char *body = e + 1, *fin = strstr (body, "\nend\n"); char *stop = fin ? fin + 1 : in + n;
      fprintf (out, "{\"c\":\"%s\"}\n", p); fflush (out);
      pid_t pid = fork ();
      if (!pid) {
        alarm (20); stderr = open_memstream (&errbuf, &errlen); fflush (stderr);
        char *q = body; while (q < stop) { char *ee = memchr (q, '\n', stop - q); if (!ee) break; *ee = 0; run (q); q = ee + 1; }
        _exit (0);
      }
      int st; waitpid (pid, &st, 0);
      if (WIFSIGNALED (st)) fprintf (out, "{\"c\":\"crash\",\"ok\":0,\"sig\":%d}\n", WTERMSIG (st));
      p = stop; if (fin) p += 4;
    } else p = e + 1;
  }
  fflush (out);
  return 0;
}
