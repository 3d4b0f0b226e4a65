// parted itself, run on a scratch image with its standard input open and silent, and the table
// that libparted reads from the image afterwards.  One history per process, one JSON line per command.
#include <config.h>
#include <parted/parted.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <uuid/uuid.h>

static char dir[300], img[340], so[340], se[340], exe[400];
static FILE *out;
static char *cur; static const char *tok (void) { char *t = strtok_r (NULL, " ", &cur); return t ? t : ""; }
static void hex (const char *s, size_t n) { fputc ('"', out); for (size_t i = 0; i < n; i++) fprintf (out, "%02x", (unsigned char) s[i]); fputc ('"', out); }
static void hexfile (const char *p) { static char b[65536]; int fd = open (p, O_RDONLY); ssize_t n = fd < 0 ? 0 : read (fd, b, sizeof b); if (fd >= 0) close (fd); hex (b, n > 0 ? n : 0); }
static char *unpct (const char *s) { char *r = strdup (s), *o = r; for (; *s; s++) if (*s == '%') { unsigned x; sscanf (s + 1, "%2x", &x); *o++ = x; s += 2; } else *o++ = *s; *o = 0; return r; }
static unsigned long long sum (void)    /* of what the image holds, and its length */
{
  int fd = open (img, O_RDONLY); if (fd < 0) return 0;
  off_t end = lseek (fd, 0, SEEK_END), at = 0; unsigned long long h = 1469598103934665603ULL ^ end; static unsigned char b[1 << 16];
  while ((at = lseek (fd, at, SEEK_DATA)) >= 0 && at < end) {
    off_t stop = lseek (fd, at, SEEK_HOLE); if (stop < 0) stop = end;
    for (ssize_t n; at < stop && (n = pread (fd, b, sizeof b, at)) > 0; at += n) for (ssize_t k = 0; k < n; k++) if (b[k]) h = (h ^ (b[k] + 256ULL * (at + k))) * 1099511628211ULL;
  }
  close (fd); return h;
}
static PedExceptionOption handler (PedException *e)
{ return e->options & PED_EXCEPTION_IGNORE ? PED_EXCEPTION_IGNORE : e->options == PED_EXCEPTION_OK ? PED_EXCEPTION_OK : PED_EXCEPTION_UNHANDLED; }
static void table (void)
{
  PedDevice *d = ped_device_get (img); PedDisk *k = d && ped_disk_probe (d) ? ped_disk_new (d) : NULL;
  if (k && ped_disk_is_flag_available (k, PED_DISK_CYLINDER_ALIGNMENT)) ped_disk_set_flag (k, PED_DISK_CYLINDER_ALIGNMENT, 0);
  fprintf (out, "\"lab\":\"%s\",\"len\":%lld,\"ss\":%lld,\"d\":[", k ? k->type->name : "", d ? (long long) d->length : 0, d ? d->sector_size : 0);
  const char *sep = "";
  if (k) for (PedDiskFlag f = 0; (f = ped_disk_flag_next (f)); ) if (ped_disk_is_flag_available (k, f) && ped_disk_get_flag (k, f) && f != PED_DISK_CYLINDER_ALIGNMENT) { fprintf (out, "%s\"%s\"", sep, ped_disk_flag_get_name (f)); sep = ","; }
  fprintf (out, "],\"p\":["); sep = "";
  if (k) for (PedPartition *p = NULL; (p = ped_disk_next_partition (k, p)); ) {
    if (p->type & PED_PARTITION_METADATA) continue;
    if (p->type & PED_PARTITION_FREESPACE) { fprintf (out, "%s{\"n\":-1,\"t\":%d,\"s\":%lld,\"e\":%lld,\"nm\":\"\",\"fs\":\"\",\"id\":\"\",\"fl\":[]}", sep, p->type, (long long) p->geom.start, (long long) p->geom.end); sep = ","; continue; }
    fprintf (out, "%s{\"n\":%d,\"t\":%d,\"s\":%lld,\"e\":%lld,\"nm\":", sep, p->num, p->type, (long long) p->geom.start, (long long) p->geom.end); sep = ",";
    const char *n = ped_disk_type_check_feature (k->type, PED_DISK_TYPE_PARTITION_NAME) ? ped_partition_get_name (p) : ""; if (!n) n = ""; hex (n, strlen (n));
    fprintf (out, ",\"fs\":\"%s\",\"id\":\"", p->fs_type ? p->fs_type->name : "");
    if (ped_disk_type_check_feature (k->type, PED_DISK_TYPE_PARTITION_TYPE_ID)) fprintf (out, "%02x", ped_partition_get_type_id (p));
    if (ped_disk_type_check_feature (k->type, PED_DISK_TYPE_PARTITION_TYPE_UUID)) { uint8_t *u = ped_partition_get_type_uuid (p); char b[40] = ""; if (u) uuid_unparse_lower (u, b); free (u); fprintf (out, "%s", b); }
    fprintf (out, "\",\"fl\":["); const char *s2 = "";
    for (PedPartitionFlag f = 0; (f = ped_partition_flag_next (f)); ) if (ped_partition_get_flag (p, f)) { fprintf (out, "%s\"%s\"", s2, ped_partition_flag_get_name (f)); s2 = ","; }
    fprintf (out, "]}");
  }
  fprintf (out, "]"); if (k) ped_disk_destroy (k); if (d) ped_device_destroy (d);
}
static void run (char *line)
{
  char *copy = strdup (line); char *c = strtok_r (line, " ", &cur); if (!c) return;
  if (!strcmp (c, "img")) { long long n = atoll (tok ()); setenv ("PARTED_SECTOR_SIZE", tok (), 1); int fd = open (img, O_RDWR | O_CREAT | O_TRUNC, 0600); int r = ftruncate (fd, n); close (fd); fprintf (out, "{\"c\":\"%s\",\"ok\":%d,", copy, !r); table (); fprintf (out, "}\n"); fflush (out); return; }
  if (!strcmp (c, "poke")) { long long o = atoll (tok ()); const char *h = tok (); int fd = open (img, O_RDWR); for (; h[0] && h[1]; h += 2, o++) { unsigned x; sscanf (h, "%2x", &x); char b = x; if (pwrite (fd, &b, 1, o) < 0) break; } close (fd); fprintf (out, "{\"c\":\"%s\",\"ok\":1,", copy); table (); fprintf (out, "}\n"); fflush (out); return; }
  if (strcmp (c, "run")) { fprintf (out, "{\"c\":\"unknown\",\"ok\":0}\n"); return; }
  char *av[100]; int n = 0; av[n++] = exe; for (const char *t; n < 99 && *(t = tok ()); ) if (strcmp (t, "|")) av[n++] = strcmp (t, "@") ? unpct (t) : img;
  av[n] = NULL;
  unsigned long long before = sum (); int in[2]; if (pipe (in)) _exit (9);
  pid_t pid = fork ();
  if (!pid) { dup2 (in[0], 0); close (in[0]); close (in[1]); alarm (0);
    int a = open (so, O_WRONLY | O_CREAT | O_TRUNC, 0600), b = open (se, O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2 (a, 1); dup2 (b, 2); execv (exe, av); _exit (99); }
  int st = 0, hang = 0; long waited = 0;
  for (;;) { pid_t r = waitpid (pid, &st, WNOHANG); if (r == pid) break; struct timespec ts = { 0, 1000000 }; nanosleep (&ts, NULL); if (++waited > 20000) { hang = 1; kill (pid, SIGKILL); waitpid (pid, &st, 0); break; } }
  close (in[0]); close (in[1]);
  fprintf (out, "{\"c\":\"%s\",\"ok\":%d,\"rc\":%d,\"hang\":%d,\"same\":%d,\"so\":", copy, WIFEXITED (st) && !WEXITSTATUS (st), WIFEXITED (st) ? WEXITSTATUS (st) : -WTERMSIG (st), hang, sum () == before);
  hexfile (so); fprintf (out, ",\"se\":"); hexfile (se); fputc (',', out); table (); fprintf (out, "}\n"); fflush (out);
}
int main (int argc, char **argv)
{
  out = stdout; ssize_t l = readlink ("/proc/self/exe", exe, sizeof exe - 10); if (l < 0) return 3; exe[l] = 0; strcpy (strrchr (exe, '/'), "/parted");
  setenv ("LC_ALL", "C", 1); unsetenv ("PARTED_SECTOR_SIZE");
  size_t cap = 1 << 20, n = 0; char *in = malloc (cap);
  for (ssize_t r; (r = read (0, in + n, cap - n - 1)) > 0; ) { n += r; if (n + 1 >= cap) in = realloc (in, cap *= 2); }
  in[n] = 0; char *p = in;
  while (*p) {
    char *e = strchr (p, '\n'); if (!e) break; *e = 0;
    if (!strncmp (p, "begin", 5)) {
      char *body = e + 1, *fin = strstr (body, "\nend\n"), *stop = fin ? fin + 1 : in + n;
      fprintf (out, "{\"c\":\"%s\"}\n", p); fflush (out);
      snprintf (dir, sizeof dir, "%s/cliXXXXXX", getenv ("VERIF_DIR") ? getenv ("VERIF_DIR") : "/tmp"); if (!mkdtemp (dir)) return 3;
      snprintf (img, sizeof img, "%s/img", dir); snprintf (so, sizeof so, "%s/o", dir); snprintf (se, sizeof se, "%s/e", dir);
      pid_t pid = fork ();
      if (!pid) { alarm (120); ped_exception_set_handler (handler);
        char *q = body; while (q < stop) { char *ee = memchr (q, '\n', stop - q); if (!ee) break; *ee = 0; run (q); q = ee + 1; }
        _exit (0); }
      int st; waitpid (pid, &st, 0);
      if (WIFSIGNALED (st)) fprintf (out, "{\"c\":\"crash\",\"ok\":0,\"sig\":%d}\n", WTERMSIG (st));
      unlink (img); unlink (so); unlink (se); rmdir (dir); p = stop; if (fin) p += 4;
    } else p = e + 1;
  }
  fflush (out); return 0;
}
