// File systems looked for in regions of a device; one JSON line per command.
#include "memdev.h"
#include <signal.h>
#include <sys/wait.h>
static PedDevice *dev; static int nexc;
static PedExceptionOption handler (PedException *e) { nexc++; return PED_EXCEPTION_UNHANDLED; }
static char *tok (void) { char *t = strtok (NULL, " \n"); return t ? t : (char *) ""; }
static long long num (void) { return strtoll (tok (), NULL, 0); }
static struct { int64_t lo, hi; } rd[4096]; static int nrd, log_on;
static int log_read (const PedDevice *d, void *b, PedSector s, PedSector c)
{ if (log_on && nrd < 4096) { rd[nrd].lo = s; rd[nrd].hi = s + c - 1; nrd++; } return m_read (d, b, s, c); }
static void put (int64_t off, const unsigned char *b, size_t n)
{ long ss = dev->sector_size; unsigned char *sec = malloc (ss);
  while (n) { int64_t s = off / ss, o = off % ss; size_t k = ss - o < (long) n ? (size_t) (ss - o) : n; if (s >= dev->length) break;
    mem_get (dev, s, sec); memcpy (sec + o, b, k); mem_put (dev, s, sec); off += k; b += k; n -= k; }
  free (sec); }
static char outb[8192]; static int outn;
static void outside (const PedGeometry *g, const char *name)   /* what a handler read that is not part of the region, for each the lowest and highest sector */
{ int64_t lo = -1, hi = -1; for (int i = 0; i < nrd; i++) if (rd[i].lo < g->start || rd[i].hi > g->end) { if (lo < 0 || rd[i].lo < lo) lo = rd[i].lo; if (rd[i].hi > hi) hi = rd[i].hi; }
  if (lo >= 0) outn += snprintf (outb + outn, sizeof outb - outn, "%s[\"%s\",%lld,%lld]", outn ? "," : "", name, (long long) lo, (long long) hi); }
static void run (char *line)
{
  char copy[80]; snprintf (copy, sizeof copy, "%s", line); copy[strcspn (copy, "#\n")] = 0;
  char *c = strtok (line, " \n"); if (!c) return;
  nexc = 0;
  if (!strcmp (c, "dev")) { long long len = num (); int ss = num (), h = num (), s = num (); dev = mem_device ("/mem/f", len, ss, h, s, 0); ped_device_close (dev); }
  else if (!strcmp (c, "put")) { int64_t off = num (); char *h = tok (); size_t n = strlen (h) / 2; unsigned char *b = malloc (n + 1);
    for (size_t i = 0; i < n; i++) { unsigned x; sscanf (h + 2 * i, "%2x", &x); b[i] = x; } put (off, b, n); free (b); }
  else if (!strcmp (c, "types")) { printf ("{\"c\":\"types\",\"ok\":1,\"x\":0,\"t\":["); int f = 1;
    for (PedFileSystemType *t = NULL; (t = ped_file_system_type_get_next (t)); f = 0) printf ("%s\"%s\"", f ? "" : ",", t->name); printf ("]}\n"); fflush (stdout); return; }
  else if (!strcmp (c, "probe")) {
    long long st = num (), ln = num (); PedGeometry *g = ped_geometry_new (dev, st, ln);
    if (!g) { printf ("{\"c\":\"%s\",\"ok\":0,\"x\":%d,\"found\":[],\"out\":[],\"best\":\"-\",\"w\":0,\"bal\":1,\"bx\":0}\n", copy, nexc); fflush (stdout); return; }
    uint64_t dg = mem_digest (dev); long w0 = MD (dev)->nwrite; static char buf[4096]; int n = 0; buf[0] = 0;
    outn = 0; outb[0] = 0;
    for (PedFileSystemType *t = NULL; (t = ped_file_system_type_get_next (t)); ) {
      nrd = 0; log_on = 1; PedGeometry *r = ped_file_system_probe_specific (t, g); log_on = 0; outside (g, t->name);
      if (r) { n += snprintf (buf + n, sizeof buf - n, "%s[\"%s\",%lld,%lld]", n ? "," : "", t->name, (long long) r->start, (long long) r->length); ped_geometry_destroy (r); } }
    int x1 = nexc; nexc = 0; PedFileSystemType *b = ped_file_system_probe (g);
    printf ("{\"c\":\"%s\",\"ok\":1,\"out\":[%s],\"x\":%d,\"found\":[%s],\"best\":\"%s\",\"w\":%d,\"bal\":%d,\"bx\":%d}\n", copy, outb, x1, buf, b ? b->name : "-", MD (dev)->nwrite != w0 || mem_digest (dev) != dg, !dev->open_count, nexc);
    ped_geometry_destroy (g); fflush (stdout); return; }
  printf ("{\"c\":\"%s\",\"ok\":1,\"x\":%d}\n", copy, nexc); fflush (stdout);
}
int main (void)
{
  static char line[1 << 17]; int pid = 0; mem_dev_ops.read = log_read; mem_install ();
  while (fgets (line, sizeof line, stdin)) {
    if (!strncmp (line, "begin", 5)) {
      line[strcspn (line, "\n")] = 0; printf ("{\"c\":\"%s\"}\n", line); fflush (stdout);
      char **body = NULL; size_t n = 0;
      while (fgets (line, sizeof line, stdin) && strncmp (line, "end", 3)) { body = realloc (body, (n + 1) * sizeof *body); body[n++] = strdup (line); }
      pid = fork (); if (!pid) { alarm (20); ped_exception_set_handler (handler); for (size_t i = 0; i < n; i++) run (body[i]); _exit (0); }
      int st; waitpid (pid, &st, 0); if (WIFSIGNALED (st)) { printf ("\n{\"c\":\"crash\",\"ok\":0,\"sig\":%d}\n", WTERMSIG (st)); fflush (stdout); }
      for (size_t i = 0; i < n; i++) free (body[i]); free (body);
    }
  }
  return 0;
}
