// LINK: FSR
// FAT file systems resized; one JSON line per command.
#include "memdev.h"
#include <signal.h>
#include <sys/wait.h>
static PedDevice *dev; static PedFileSystem *fs; static int answer; static char exs[4096]; static int exn;
/* answer: 0 unhandled, 1 yes or ok, 2 no or ok, 3 cancel; errors with a way to ignore are always cancelled */
static PedExceptionOption handler (PedException *e)
{ if (getenv("DBGFAT")) { FILE *q = fopen ("/tmp/dbgfat.txt", "a"); fprintf (q, "%s\n", e->message); fclose (q);}
  exn += snprintf (exs + exn, sizeof exs - exn > 0 ? sizeof exs - exn : 0, "%s[%d,%d]", exn ? "," : "", (int) e->type, (int) e->options);
  if (!answer) return PED_EXCEPTION_UNHANDLED;
  if (e->options & PED_EXCEPTION_YES && answer == 1) return PED_EXCEPTION_YES;
  if (e->options & PED_EXCEPTION_NO && answer == 2) return PED_EXCEPTION_NO;
  if (e->options & PED_EXCEPTION_OK && answer < 3) return PED_EXCEPTION_OK;
  return e->options & PED_EXCEPTION_CANCEL ? PED_EXCEPTION_CANCEL : PED_EXCEPTION_UNHANDLED;
}
static char *tok (void) { char *t = strtok (NULL, " \n"); return t ? t : (char *) ""; }
static long long num (void) { return strtoll (tok (), NULL, 0); }
static void pattern (unsigned char *b, long id) { for (int i = 0; i < 512; i += 16) { char t[20]; snprintf (t, 20, "CONT%010lx%02d", id, i / 16); memcpy (b + i, t, 16); } }
static void done (const char *c, int ok) { printf ("{\"c\":\"%s\",\"ok\":%d,\"ex\":[%s]", c, !!ok, exs); }
static void dump (int64_t s, int64_t n)   /* what is not the background */
{
  unsigned char q[512]; printf (",\"sec\":[");
    int f = 0; MemDev *m = MD (dev);
    for (size_t i = 0; i < m->st.cap; i++) { Cell *x = &m->st.tab[i]; if (!x->data || x->sec < s || x->sec >= s + n) continue;
      int k = 512; while (k && !x->data[k - 1]) k--; if (!k && !m->bg) continue;
      printf ("%s[%lld,\"", f++ ? "," : "", (long long) (x->sec - s));
      if (!memcmp (x->data, "CONT", 4)) { char t[11]; memcpy (t, x->data + 4, 10); t[10] = 0; long id = strtol (t, NULL, 16); pattern (q, id); if (!memcmp (q, x->data, 512)) { printf ("C%ld\"]", id); continue; } }
      for (int j = 0; j < k; j++) printf ("%02x", x->data[j]); printf ("\"]"); }
    printf ("]");
}
static void run (char *line)
{
  char *c = strtok (line, " \n"); if (!c) return;
  char cmd[16]; snprintf (cmd, sizeof cmd, "%s", c); exn = 0; exs[0] = 0; answer = 3;
  unsigned char b[512], q[512];
  if (!strcmp (c, "dev")) { long long len = num (); int h = num (), s = num (); uint64_t bg = num (); dev = mem_device ("/mem/f", len, 512, h, s, bg); ped_device_close (dev); done (cmd, 1); }
  else if (!strcmp (c, "put")) { int64_t s = num (); char *h = tok (); int n = strlen (h) / 2; memset (b, 0, 512);   /* a sector, zeroes at its end left out */
    for (int i = 0; i < n; i++) { unsigned x; sscanf (h + 2 * i, "%2x", &x); b[i] = x; } mem_put (dev, s, b); done (cmd, 1); }
  else if (!strcmp (c, "zero")) { int64_t s = num (), n = num (); memset (b, 0, 512); while (n--) mem_put (dev, s++, b); done (cmd, 1); }
  else if (!strcmp (c, "fill")) { int64_t s = num (), n = num (); long id = num (); while (n--) { pattern (b, id++); mem_put (dev, s++, b); } done (cmd, 1); }
  else if (!strcmp (c, "open")) { int64_t s = num (), l = num (); PedGeometry *g = ped_geometry_new (dev, s, l); fs = g ? ped_file_system_open (g) : NULL;
    done (cmd, !!fs); if (fs) printf (",\"ty\":\"%s\",\"st\":%lld,\"ln\":%lld", fs->type->name, (long long) fs->geom->start, (long long) fs->geom->length); if (g) ped_geometry_destroy (g); }
  else if (!strcmp (c, "con")) { PedConstraint *k = fs ? ped_file_system_get_resize_constraint (fs) : NULL; done (cmd, !!k);
    if (k) { printf (",\"min\":%lld,\"max\":%lld", (long long) k->min_size, (long long) k->max_size); ped_constraint_destroy (k); } }
  else if (!strcmp (c, "resize")) { int64_t s = num (), l = num (); answer = num (); PedGeometry *g = NULL; mem_jclear (dev); stray_io = 0;
    if (l < 0) { PedConstraint *k = ped_file_system_get_resize_constraint (fs); l = k->min_size + (-1 - l); ped_constraint_destroy (k); if (s < 0) s = fs->geom->start; }
    if (s + l <= dev->length) g = ped_geometry_new (dev, s, l);
    int ok = g && fs ? ped_file_system_resize (fs, g, NULL) : 0; done (cmd, ok);
    printf (",\"st\":%lld,\"ln\":%lld,\"g\":%d,\"stray\":%ld,\"ty\":\"%s\",\"w\":[", (long long) s, (long long) l, !!g, stray_io, fs ? fs->type->name : "-");
    MemDev *m = MD (dev); int f = 0; int64_t lo = -1, hi = -1;   /* the sectors written, as ranges */
    for (size_t i = 0; i < m->jn; i++) { int64_t a = m->j[i].start, z = a + m->j[i].count - 1;
      if (lo >= 0 && a >= lo && a <= hi + 1) { if (z > hi) hi = z; continue; }
      if (lo >= 0) printf ("%s[%lld,%lld]", f++ ? "," : "", (long long) lo, (long long) hi); lo = a; hi = z; }
    if (lo >= 0) printf ("%s[%lld,%lld]", f ? "," : "", (long long) lo, (long long) hi); printf ("]"); if (g) ped_geometry_destroy (g); }
  else if (!strcmp (c, "close")) { int ok = fs ? ped_file_system_close (fs) : 0; fs = NULL; done (cmd, ok); printf (",\"open\":%d", dev->open_count); }
  else if (!strcmp (c, "dump")) { int64_t s = num (), n = num (); done (cmd, 1); dump (s, n); }
  else if (!strcmp (c, "look")) {   /* what is where the file system is now, and whether it opens there */
    PedFileSystem *n = ped_file_system_open (fs->geom); done (cmd, 1);
    printf (",\"st\":%lld,\"ln\":%lld,\"re\":%d,\"rx\":%d,\"ty\":\"%s\"", (long long) fs->geom->start, (long long) fs->geom->length, !!n, !!exn, n ? n->type->name : "-");
    if (n) ped_file_system_close (n); dump (fs->geom->start, fs->geom->length); }
  else done (cmd, 0);
  printf ("}\n"); fflush (stdout);
}
int main (void)
{
  static char line[1 << 15]; mem_install ();
  while (fgets (line, sizeof line, stdin)) {
    if (!strncmp (line, "begin", 5)) {
      line[strcspn (line, "\n")] = 0; printf ("{\"c\":\"%s\"}\n", line); fflush (stdout);
      char **body = NULL; size_t n = 0;
      while (fgets (line, sizeof line, stdin) && strncmp (line, "end", 3)) { body = realloc (body, (n + 1) * sizeof *body); body[n++] = strdup (line); }
      int pid = fork (); if (!pid) { alarm (60); ped_exception_set_handler (handler); for (size_t i = 0; i < n; i++) run (body[i]); _exit (0); }
      int st; waitpid (pid, &st, 0); if (WIFSIGNALED (st)) { printf ("\n{\"c\":\"crash\",\"ok\":0,\"sig\":%d}\n", WTERMSIG (st)); fflush (stdout); }
      else if (WEXITSTATUS (st)) { printf ("\n{\"c\":\"crash\",\"ok\":0,\"sig\":%d}\n", 1000 + WEXITSTATUS (st)); fflush (stdout); }
      for (size_t i = 0; i < n; i++) free (body[i]); free (body);
    }
  }
  return 0;
}
