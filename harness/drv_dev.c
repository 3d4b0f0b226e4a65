// Devices on scratch files through the real Linux layer, with the system calls it makes on them
// counted, made short or made to fail.  One history per process, one JSON line per command.
// LINK: -Wl,--wrap=open,--wrap=open64,--wrap=close,--wrap=read,--wrap=write,--wrap=lseek,--wrap=lseek64,--wrap=fsync,--wrap=pread,--wrap=pread64,--wrap=pwrite,--wrap=pwrite64,--wrap=fdatasync,--wrap=__open_2,--wrap=__open64_2,--wrap=__read_chk,--wrap=__pread_chk,--wrap=__pread64_chk
#include <config.h>
#include <parted/parted.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/wait.h>
#include <sys/stat.h>

#define NP 4            /* f0, f1, f2 and l0 -> f0 */
#define NS 16
#define CELL 64
#define PER (512 / CELL)
static char dir[200], path[NP][256];
static FILE *out;
static int fdpath[1024];            /* path a descriptor was opened on, plus one */
static int nfd[NP], unsynced[NP], wrbytes[NP], ow, orr, of, io;
static int64_t bad_lo[NP], bad_hi[NP];
static int rdonly[NP], gone[NP];
/* what the next calls of a kind do: bytes they may transfer at most, or minus an error number */
static int q[128][32], qn[128], qp[128];
static int nextq (int c) { return qp[c] < qn[c] ? q[c][qp[c]++] : 1 << 30; }

int __real_open (const char *, int, ...); int __real_close (int); ssize_t __real_read (int, void *, size_t);
ssize_t __real_write (int, const void *, size_t); off_t __real_lseek (int, off_t, int); int __real_fsync (int);
static int which (const char *p) { for (int i = 0; i < NP - 1; i++) if (!strcmp (p, path[i])) return i; return !strcmp (p, path[3]) ? 0 : -1; }
int __wrap_open (const char *p, int fl, ...)
{
  va_list a; va_start (a, fl); int m = va_arg (a, int); va_end (a);
  int w = which (p);
  if (w < 0) return __real_open (p, fl, m);
  int r = nextq ('o');
  if (r >= 0 && gone[w]) r = -ENXIO;
  if (r >= 0 && rdonly[w] && (fl & O_ACCMODE) != O_RDONLY) r = rdonly[w] == 1 ? -EROFS : -EACCES;
  if (r < 0) { of++; errno = -r; return -1; }
  int fd = __real_open (p, fl, m);
  if (fd < 0) { of++; return fd; }
  if ((fl & O_ACCMODE) == O_RDONLY) orr++; else ow++;
  fdpath[fd] = w + 1; nfd[w]++; return fd;
}
int __wrap_open64 (const char *p, int fl, ...) { va_list a; va_start (a, fl); int m = va_arg (a, int); va_end (a); return __wrap_open (p, fl, m); }
int __wrap___open_2 (const char *p, int fl) { return __wrap_open (p, fl, 0); }
int __wrap___open64_2 (const char *p, int fl) { return __wrap_open (p, fl, 0); }
static int fdw (int fd) { return fd >= 0 && fd < 1024 ? fdpath[fd] - 1 : -1; }
int __wrap_close (int fd)
{
  int w = fdw (fd);
  if (w < 0) return __real_close (fd);
  int r = nextq ('c');
  fdpath[fd] = 0; nfd[w]--; __real_close (fd);      /* the descriptor is released even then */
  if (r < 0) { io++; errno = -r; return -1; }
  return 0;
}
ssize_t __real_pread (int, void *, size_t, off_t); ssize_t __real_pwrite (int, const void *, size_t, off_t);
static ssize_t rd (int fd, void *b, size_t n, off_t pos)
{
  int w = fdw (fd), r = nextq ('r');
  if (r < 0) { io++; errno = -r; return -1; }
  if ((size_t) r < n) n = r;
  if (n == 0) { io++; return 0; }
  if (bad_hi[w] > bad_lo[w] && pos + (int64_t) n > bad_lo[w] * 512 && pos < bad_hi[w] * 512) {
    if (pos >= bad_lo[w] * 512) { io++; errno = EIO; return -1; }
    n = bad_lo[w] * 512 - pos;
  }
  ssize_t g = __real_pread (fd, b, n, pos);
  if (g <= 0) io++;
  return g;
}
ssize_t __wrap_read (int fd, void *b, size_t n)
{
  if (fdw (fd) < 0) return __real_read (fd, b, n);
  off_t pos = __real_lseek (fd, 0, SEEK_CUR); ssize_t g = rd (fd, b, n, pos);
  if (g > 0) __real_lseek (fd, pos + g, SEEK_SET);
  return g;
}
ssize_t __wrap_pread (int fd, void *b, size_t n, off_t o) { if (fdw (fd) < 0) return __real_pread (fd, b, n, o); return rd (fd, b, n, o); }
ssize_t __wrap_pread64 (int fd, void *b, size_t n, off_t o) { return __wrap_pread (fd, b, n, o); }
ssize_t __wrap___read_chk (int fd, void *b, size_t n, size_t m) { return __wrap_read (fd, b, n); }
ssize_t __wrap___pread_chk (int fd, void *b, size_t n, off_t o, size_t m) { return __wrap_pread (fd, b, n, o); }
ssize_t __wrap___pread64_chk (int fd, void *b, size_t n, off_t o, size_t m) { return __wrap_pread (fd, b, n, o); }
static ssize_t wr (int fd, const void *b, size_t n, off_t pos)
{
  int w = fdw (fd), r = nextq ('w');
  if (r < 0) { io++; errno = -r; return -1; }
  if ((size_t) r < n) n = r;
  if (n == 0) { io++; errno = ENOSPC; return 0; }
  ssize_t g = __real_pwrite (fd, b, n, pos);
  if (g > 0) { wrbytes[w] += g; unsynced[w] = 1; } else io++;
  return g;
}
ssize_t __wrap_write (int fd, const void *b, size_t n)
{
  if (fdw (fd) < 0) return __real_write (fd, b, n);
  off_t pos = __real_lseek (fd, 0, SEEK_CUR); ssize_t g = wr (fd, b, n, pos);
  if (g > 0) __real_lseek (fd, pos + g, SEEK_SET);
  return g;
}
ssize_t __wrap_pwrite (int fd, const void *b, size_t n, off_t o) { if (fdw (fd) < 0) return __real_pwrite (fd, b, n, o); return wr (fd, b, n, o); }
ssize_t __wrap_pwrite64 (int fd, const void *b, size_t n, off_t o) { return __wrap_pwrite (fd, b, n, o); }
off_t __wrap_lseek (int fd, off_t o, int wh)
{
  if (fdw (fd) < 0) return __real_lseek (fd, o, wh);
  int r = nextq ('s');
  if (r < 0) { io++; errno = -r; return -1; }
  return __real_lseek (fd, o, wh);
}
off_t __wrap_lseek64 (int fd, off_t o, int wh) { return __wrap_lseek (fd, o, wh); }
int __wrap_fsync (int fd)
{
  int w = fdw (fd);
  if (w < 0) return fd < 0 ? (errno = EBADF, -1) : __real_fsync (fd);
  int r = nextq ('f');
  if (r < 0) { io++; errno = -r; return -1; }
  unsynced[w] = 0; return 0;
}
int __wrap_fdatasync (int fd) { return __wrap_fsync (fd); }

/* answers to exceptions */
static char ans[64]; static int an, nx, lost, ign, bugs;
static PedExceptionOption handler (PedException *e)
{
  char c = ans[an] ? ans[an++] : 'c'; int o = 0;
  nx++; if (e->type == PED_EXCEPTION_BUG) bugs++;
  if (e->options == PED_EXCEPTION_OK) return PED_EXCEPTION_OK;
  if (c == 'r') o = PED_EXCEPTION_RETRY; else if (c == 'i') o = PED_EXCEPTION_IGNORE; else if (c == 'c') o = PED_EXCEPTION_CANCEL;
  if (o && !(e->options & o)) o = e->options & PED_EXCEPTION_CANCEL;
  if (o == PED_EXCEPTION_IGNORE) ign++; else if (o != PED_EXCEPTION_RETRY) lost++;
  return o;
}
static char *tok (void) { char *t = strtok (NULL, " \n"); return t ? t : (char *) ""; }
static long long num (void) { return strtoll (tok (), NULL, 0); }

#define NO 64
static PedDevice *obj[NO]; static int nobj, dead[NO], objp[NO];
static int find (PedDevice *d) { for (int i = 0; i < nobj; i++) if (!dead[i] && obj[i] == d) return i; return -1; }
static void put_cells (char *b, int tag, int n) { for (int i = 0; i < n; i++) for (int j = 0; j < CELL / 4; j++) ((uint32_t *) (b + i * CELL))[j] = tag * 1000 + i; }
static int cell (const char *b) { const uint32_t *p = (const uint32_t *) b; for (int j = 1; j < CELL / 4; j++) if (p[j] != p[0]) return -1; return p[0] == 0xeeeeeeee ? -2 : (int) p[0]; }

static void run (char *line)
{
  char copy[512]; snprintf (copy, sizeof copy, "%s", line); copy[strcspn (copy, "\n")] = 0;
  an = nx = lost = ign = bugs = ow = orr = of = io = 0; ans[0] = 0; memset (wrbytes, 0, sizeof wrbytes);
  if (*line == '!') { char *s = strchr (line, ' '); int n = s - line - 1; if (n > 63) n = 63; memcpy (ans, line + 1, n); ans[n] = 0; line = s + 1; }
  char *c = strtok (line, " \n"); if (!c) return;
  int k = -1, p = -1; long long ret = 0; static char buf[(NS + 4) * 512] __attribute__ ((aligned (8))); int nb = 0;
  char list[600] = "";
  if (!strcmp (c, "inj")) { int t = tok ()[0]; qn[t] = qp[t] = 0; for (char *x; *(x = tok ()); ) q[t][qn[t]++] = atoi (x); fprintf (out, "{\"c\":\"%s\"}\n", copy); fflush (out); return; }
  if (!strcmp (c, "bad")) { p = num (); bad_lo[p] = num (); bad_hi[p] = num (); fprintf (out, "{\"c\":\"%s\"}\n", copy); fflush (out); return; }
  if (!strcmp (c, "mode")) { p = num (); rdonly[p] = num (); fprintf (out, "{\"c\":\"%s\"}\n", copy); fflush (out); return; }
  if (!strcmp (c, "gone")) { p = num (); gone[p] = num (); fprintf (out, "{\"c\":\"%s\"}\n", copy); fflush (out); return; }
  int inn = 0;
  if (!strcmp (c, "get")) {
    p = num (); char rel[300]; snprintf (rel, sizeof rel, p == 1 ? "%s/../%s/f1" : "%s", p == 1 ? dir : path[p], strrchr (dir, '/') + 1);
    PedDevice *d = ped_device_get (rel);
    if (d) { k = find (d); if (k < 0) { k = nobj++; obj[k] = d; dead[k] = 0; objp[k] = p == 3 ? 0 : p; } }
    ret = d != NULL; p = p == 3 ? 0 : p;
  } else if (!strcmp (c, "list")) { char *w = list; for (PedDevice *d = NULL; (d = ped_device_get_next (d)); ) w += sprintf (w, "%s%d", w > list ? "," : "", find (d)); ret = 1; }
  else {
    k = num (); if (k < nobj) p = objp[k];
    /* what the interface does not allow is left out (the device says itself how it stands) */
    int skip = k >= nobj || dead[k];
    if (!skip) {
      int oc = obj[k]->open_count, ext = obj[k]->external_mode;
      if (!strcmp (c, "open") || !strcmp (c, "ext")) skip = ext; else if (!strcmp (c, "unext")) skip = !ext;
      else if (!strcmp (c, "destroy")) skip = ext && oc; else if (strcmp (c, "uncache")) skip = ext || !oc || !nfd[p];
    }
    if (skip) { fprintf (out, "{\"c\":\"%s\",\"skip\":1}\n", copy); fflush (out); for (int i = 0; i < 128; i++) qn[i] = qp[i] = 0; return; }
    if (!strcmp (c, "open")) ret = ped_device_open (obj[k]);
    else if (!strcmp (c, "close")) ret = ped_device_close (obj[k]);
    else if (!strcmp (c, "ext")) ret = ped_device_begin_external_access (obj[k]);
    else if (!strcmp (c, "unext")) ret = ped_device_end_external_access (obj[k]);
    else if (!strcmp (c, "uncache")) { ped_device_cache_remove (obj[k]); ret = 1; }
    else if (!strcmp (c, "destroy")) { dead[k] = 1; ped_device_destroy (obj[k]); ret = 1; }
    else if (!strcmp (c, "sync")) ret = ped_device_sync (obj[k]);
    else if (!strcmp (c, "syncf")) ret = ped_device_sync_fast (obj[k]);
    else if (!strcmp (c, "read")) { int s = num (), n = num (); memset (buf, 0xee, sizeof buf); ret = ped_device_read (obj[k], buf, s, n); nb = (n + 1) * PER; }
    else if (!strcmp (c, "write")) { int s = num (), n = num (), t = num (); memset (buf, 0xaa, sizeof buf); put_cells (buf, t, n * PER); ret = ped_device_write (obj[k], buf, s, n); }
    else if (!strcmp (c, "check")) { int s = num (), n = num (); char *b = malloc (n * 512); ret = ped_device_check (obj[k], b, s, n); free (b); }
    else if (c[0] == 'g') {
      PedGeometry g; int gs = num (), gl = num (); ped_geometry_init (&g, obj[k], gs, gl); int o = num (), n = num ();
      if (!strcmp (c, "gread")) { memset (buf, 0xee, sizeof buf); ret = ped_geometry_read (&g, buf, o, n); nb = (n + 1) * PER; }
      else if (!strcmp (c, "gwrite")) { int t = num (); memset (buf, 0xaa, sizeof buf); put_cells (buf, t, n * PER); ret = ped_geometry_write (&g, buf, o, n); }
      else if (!strcmp (c, "gsync")) ret = ped_geometry_sync (&g);
      else if (!strcmp (c, "gsyncf")) ret = ped_geometry_sync_fast (&g);
      else if (!strcmp (c, "gcheck")) { int bs = num (), gr = num (); char *b = malloc (bs * 512); ret = ped_geometry_check (&g, b, bs, o, gr, n, NULL); free (b); }
      else { fprintf (out, "{\"c\":\"unknown\"}\n"); return; }
    } else { fprintf (out, "{\"c\":\"unknown\"}\n"); return; }
  }
  fprintf (out, "{\"c\":\"%s\",\"ok\":%d,\"ret\":%lld,\"k\":%d,\"p\":%d,\"x\":%d,\"lost\":%d,\"ign\":%d,\"bug\":%d,\"pend\":%d,\"ow\":%d,\"or\":%d,\"of\":%d,\"io\":%d", copy, ret != 0, ret, k, p, nx, lost, ign, bugs, ped_exception, ow, orr, of, io);
  if (k >= 0 && !dead[k]) fprintf (out, ",\"d\":[%d,%d,%d]", obj[k]->open_count, obj[k]->external_mode, obj[k]->read_only); else fprintf (out, ",\"d\":[0,0,0]");
  fprintf (out, ",\"list\":[%s],\"nfd\":[%d,%d,%d],\"un\":[%d,%d,%d],\"wr\":[%d,%d,%d],\"buf\":[", list, nfd[0], nfd[1], nfd[2], unsynced[0], unsynced[1], unsynced[2], wrbytes[0], wrbytes[1], wrbytes[2]);
  for (int i = 0; i < nb; i++) fprintf (out, "%s%d", i ? "," : "", cell (buf + i * CELL));
  fprintf (out, "],\"cont\":[");
  for (int i = 0; i < 3; i++) {
    char b[NS * 512]; FILE *f = fopen (path[i], "r"); memset (b, 0, sizeof b); int n = fread (b, 1, sizeof b, f); int more = fgetc (f) != EOF; fclose (f);
    fprintf (out, "%s[", i ? "," : ""); for (int j = 0; j < NS * PER; j++) fprintf (out, "%s%d", j ? "," : "", cell (b + j * CELL)); fprintf (out, "%s]", more || n < NS * 512 ? ",-9" : "");
  }
  fprintf (out, "]}\n"); fflush (out);
  for (int i = 0; i < 128; i++) qn[i] = qp[i] = 0;
}

int main (int argc, char **argv)
{
  out = stdout;
  size_t cap = 1 << 20, n = 0; char *in = malloc (cap);
  for (ssize_t r; (r = __real_read (0, in + n, cap - n - 1)) > 0; ) { n += r; if (n + 1 >= cap) in = realloc (in, cap *= 2); }
  in[n] = 0; char *p = in;
  while (*p) {
    char *e = strchr (p, '\n'); if (!e) break; *e = 0;
    if (!strncmp (p, "begin", 5)) {
      char *body = e + 1, *fin = strstr (body, "\nend\n"); char *stop = fin ? fin + 1 : in + n;
      fprintf (out, "{\"c\":\"%s\"}\n", p); fflush (out);
      snprintf (dir, sizeof dir, "%s/vdevXXXXXX", getenv ("VERIF_DIR") ? getenv ("VERIF_DIR") : "/tmp"); if (!mkdtemp (dir)) return 3;
      char rp[4200]; if (realpath (dir, rp)) snprintf (dir, sizeof dir, "%s", rp);
      for (int i = 0; i < 3; i++) {
        sprintf (path[i], "%s/f%d", dir, i); char b[NS * 512]; put_cells (b, 900 + i, NS * PER);
        FILE *f = fopen (path[i], "w"); fwrite (b, 1, sizeof b, f); fclose (f);
      }
      sprintf (path[3], "%s/l0", dir); symlink (path[0], path[3]);
      pid_t pid = fork ();
      if (!pid) {
        alarm (5); ped_exception_set_handler (handler);
        char *q2 = body; while (q2 < stop) { char *ee = memchr (q2, '\n', stop - q2); if (!ee) break; *ee = 0; run (q2); q2 = ee + 1; }
        _exit (0);
      }
      int st; waitpid (pid, &st, 0);
      if (WIFSIGNALED (st)) fprintf (out, "{\"c\":\"crash\",\"ok\":0,\"sig\":%d}\n", WTERMSIG (st));
      for (int i = 0; i < NP; i++) unlink (path[i]);
      rmdir (dir);
      p = stop; if (fin) p += 4;
    } else p = e + 1;
  }
  fflush (out);
  return 0;
}
