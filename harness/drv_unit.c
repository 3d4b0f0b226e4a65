// Sizes and positions read and printed by libparted's units; one JSON line per command.
#include "memdev.h"
#include <signal.h>
#include <sys/wait.h>
static PedDevice *dev; static int nexc;
static PedExceptionOption handler (PedException *e) { nexc++; return PED_EXCEPTION_UNHANDLED; }
static char *tok (void) { char *t = strtok (NULL, " \n"); return t ? t : (char *) ""; }
static long long num (void) { return strtoll (tok (), NULL, 0); }
static char *unhex (const char *h)
{ size_t n = strlen (h) / 2; char *r = malloc (n + 1); for (size_t i = 0; i < n; i++) { unsigned x; sscanf (h + 2 * i, "%2x", &x); r[i] = x; } r[n] = 0; return r; }
static int unit (const char *n) { return ped_unit_get_by_name (n); }
static void run (char *line)
{
  char copy[600]; snprintf (copy, sizeof copy, "%s", line);
  copy[strcspn (copy, "#\n")] = 0; char *c = strtok (line, " \n"); if (!c) return;
  nexc = 0; int ok = 1; char extra[700] = "";
  if (!strcmp (c, "dev")) { long long len = num (); int ss = num (), h = num (), s = num (); dev = mem_device ("/mem/u", len, ss, h, s, 0); }
  else if (!strcmp (c, "default")) { ped_unit_set_default (unit (tok ())); }
  else if (!strcmp (c, "name")) { char *t = tok (); int u = unit (t); ok = u >= 0 && u <= PED_UNIT_LAST; snprintf (extra, sizeof extra, ",\"text\":\"%s\"", ok ? ped_unit_get_name (u) : "-"); }
  else if (!strcmp (c, "size")) { long long z = ped_unit_get_size (dev, unit (tok ())); ok = z > 0; snprintf (extra, sizeof extra, ",\"v\":%lld", z); }
  else if (!strcmp (c, "fmt") || !strcmp (c, "fmts")) { char *u = tok (); long long b = num (); char *t;
    if (!strcmp (c, "fmt")) t = !strcmp (u, "-") ? ped_unit_format_byte (dev, b) : ped_unit_format_custom_byte (dev, b, unit (u));
    else t = !strcmp (u, "-") ? ped_unit_format (dev, b) : ped_unit_format_custom (dev, b, unit (u));
    snprintf (extra, sizeof extra, ",\"text\":\"%s\"", t); free (t); }
  else if (!strcmp (c, "parse")) { char *u = tok (), *t = unhex (tok ()); PedSector s = -7, s2 = -7; PedGeometry *g = (void *) 1;
    ok = !strcmp (u, "-") ? ped_unit_parse (t, dev, &s, &g) : ped_unit_parse_custom (t, dev, unit (u), &s, &g);
    int x = nexc, ok2 = !strcmp (u, "-") ? ped_unit_parse (t, dev, &s2, NULL) : ped_unit_parse_custom (t, dev, unit (u), &s2, NULL);
    snprintf (extra, sizeof extra, ",\"v\":%lld,\"g\":[%lld,%lld],\"ok2\":%d,\"v2\":%lld,\"gn\":%d", (long long) s, g && ok ? (long long) g->start : -1, g && ok ? (long long) g->end : -1, ok2, (long long) s2, g == NULL);
    nexc = x; if (g && ok) ped_geometry_destroy (g); free (t); }
  else if (!strcmp (c, "rt")) { int u = unit (tok ()); char *t = ped_unit_format_custom_byte (dev, num (), u); PedSector s = -7; PedGeometry *g = (void *) 1;
    ok = ped_unit_parse_custom (t, dev, u, &s, &g);
    snprintf (extra, sizeof extra, ",\"text\":\"%s\",\"v\":%lld,\"g\":[%lld,%lld],\"ok2\":%d,\"v2\":%lld,\"gn\":%d", t, (long long) s, g && ok ? (long long) g->start : -1, g && ok ? (long long) g->end : -1, ok, (long long) s, g == NULL); }
  else { ok = 0; snprintf (extra, sizeof extra, ",\"bad\":1"); }
  printf ("{\"c\":\"%s\",\"ok\":%d,\"x\":%d%s}\n", copy, ok, nexc, extra); fflush (stdout);
}
int main (void)
{
  static char line[4096]; int pid = 0;
  while (fgets (line, sizeof line, stdin)) {
    if (!strncmp (line, "begin", 5)) {
      line[strcspn (line, "\n")] = 0; printf ("{\"c\":\"%s\"}\n", line); fflush (stdout);
      char **body = NULL; size_t n = 0;
      while (fgets (line, sizeof line, stdin) && strncmp (line, "end", 3)) { body = realloc (body, (n + 1) * sizeof *body); body[n++] = strdup (line); }
      pid = fork (); if (!pid) { alarm (10); ped_exception_set_handler (handler); for (size_t i = 0; i < n; i++) run (body[i]); _exit (0); }
      int st; waitpid (pid, &st, 0); if (WIFSIGNALED (st)) { printf ("{\"c\":\"crash\",\"ok\":0,\"sig\":%d}\n", WTERMSIG (st)); fflush (stdout); }
      for (size_t i = 0; i < n; i++) free (body[i]); free (body);
    }
  }
  return 0;
}
