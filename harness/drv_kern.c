// A table committed to a block device of a kernel that is kept here: the partitions it knows, which
// of them are in use, and what its BLKPG requests answer.  sysfs, the partitions' nodes and the
// mount tables lie in a scratch folder.  One history per process, one JSON line per command.
// LINK: -Wl,--wrap=open,--wrap=open64,--wrap=__open_2,--wrap=__open64_2,--wrap=openat,--wrap=fopen,--wrap=fopen64,--wrap=stat,--wrap=stat64,--wrap=lstat,--wrap=access,--wrap=ioctl,--wrap=close,--wrap=usleep,--wrap=nanosleep,--wrap=sleep,--wrap=opendir
#include <config.h>
#include <parted/parted.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>
#include <dirent.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/ioctl.h>
#include <sys/sysmacros.h>
#include <linux/hdreg.h>
#include <linux/blkpg.h>
#include <linux/fs.h>

#define MAXP 300
#define STUCK 1000000
typedef struct { int on; long long s, l; int b, mnt; } Kp;      /* in sectors of the device */
static Kp kp[MAXP];
static char dir[300], name[40], path[400], node[MAXP][420], what[MAXP];
static long long len; static int ss, range, sysfs, klim, on;
static PedDevice *dev; static PedDisk *dsk;
static int fdn[1024];             /* partition a descriptor lies on, plus one; 0: none */
static FILE *out;
static char ops[1 << 18]; static size_t on_; static int nops;
static char exc[8192]; static int nexc; static PedExceptionOption answers[64]; static int nans, ians; static char lastans = '-';

FILE *__real_fopen (const char *, const char *); int __real_open (const char *, int, ...); int __real_stat (const char *, struct stat *);
int __real_access (const char *, int); int __real_ioctl (int, unsigned long, ...); int __real_close (int); DIR *__real_opendir (const char *);
static const char *re (const char *p)
{
  static char b[4][700]; static int n;
  if (on && (!strncmp (p, "/sys/", 5) || !strncmp (p, "/proc/", 6) || !strcmp (p, "/etc/mtab"))) { char *r = b[n++ & 3]; snprintf (r, 700, "%s%s", dir, p); return r; }
  return p;
}
static int nodeof (const char *p) { if (on) for (int i = 1; i < MAXP; i++) if (kp[i].on && !strcmp (p, node[i])) return i; return on && !strcmp (p, path) ? 0 : -1; }
FILE *__wrap_fopen (const char *p, const char *m) { return __real_fopen (re (p), m); }
FILE *__wrap_fopen64 (const char *p, const char *m) { return __real_fopen (re (p), m); }
DIR *__wrap_opendir (const char *p) { return __real_opendir (re (p)); }
int __wrap_open (const char *p, int fl, ...)
{ va_list a; va_start (a, fl); int m = va_arg (a, int); va_end (a); int n = nodeof (p), fd = __real_open (re (p), fl, m); if (fd >= 0 && fd < 1024) fdn[fd] = n + 1; return fd; }
int __wrap_open64 (const char *p, int fl, ...) { va_list a; va_start (a, fl); int m = va_arg (a, int); va_end (a); return __wrap_open (p, fl, m); }
int __wrap___open_2 (const char *p, int fl) { return __wrap_open (p, fl, 0); }
int __wrap___open64_2 (const char *p, int fl) { return __wrap_open (p, fl, 0); }
int __wrap_openat (int d, const char *p, int fl, ...) { va_list a; va_start (a, fl); int m = va_arg (a, int); va_end (a); return __wrap_open (p, fl, m); }
int __wrap_close (int fd) { if (fd >= 0 && fd < 1024) fdn[fd] = 0; return __real_close (fd); }
int __wrap_stat (const char *p, struct stat *st)
{ int n = nodeof (p), r = __real_stat (re (p), st); if (!r && n >= 0) { st->st_mode = (st->st_mode & ~S_IFMT) | S_IFBLK; st->st_rdev = makedev (8, n); } return r; }
int __wrap_stat64 (const char *p, struct stat *st) { return __wrap_stat (p, st); }
int __wrap_lstat (const char *p, struct stat *st) { return __wrap_stat (p, st); }
int __wrap_access (const char *p, int m) { return __real_access (re (p), m); }
int __wrap_usleep (useconds_t u) { return 0; }
int __wrap_nanosleep (const struct timespec *a, struct timespec *b) { return 0; }
unsigned __wrap_sleep (unsigned s) { return 0; }

static void put (const char *f, const char *fmt, ...)
{
  char p[900]; snprintf (p, sizeof p, "%s%s", dir, f); FILE *o = __real_fopen (p, "w"); if (!o) { fprintf (stderr, "cannot write %s\n", p); _exit (7); }
  va_list a; va_start (a, fmt); vfprintf (o, fmt, a); va_end (a); fclose (o);
}
static void mk (const char *f) { char p[900]; snprintf (p, sizeof p, "%s%s", dir, f); mkdir (p, 0700); }
static void zap (const char *f) { char p[900]; snprintf (p, sizeof p, "%s%s", dir, f); if (unlink (p)) rmdir (p); }
static void show (int n)      /* the kernel's partition n as sysfs and its node */
{
  char f[300], *b = strrchr (node[n], '/') + 1;
  if (kp[n].on) {
    put (node[n] + strlen (dir), "x");
    if (sysfs) {
      snprintf (f, sizeof f, "/sys/block/%s/%s", name, b); mk (f);
      snprintf (f, sizeof f, "/sys/block/%s/%s/start", name, b); put (f, "%lld\n", kp[n].s * (ss / 512));
      snprintf (f, sizeof f, "/sys/block/%s/%s/size", name, b); put (f, "%lld\n", kp[n].l * (ss / 512));
    }
  } else {
    unlink (node[n]);
    if (sysfs) { snprintf (f, sizeof f, "/sys/block/%s/%s/start", name, b); zap (f); snprintf (f, sizeof f, "/sys/block/%s/%s/size", name, b); zap (f); snprintf (f, sizeof f, "/sys/block/%s/%s", name, b); zap (f); }
  }
}
static void mounts (void)
{
  char p[900]; FILE *o[3]; static const char *fs[] = {"/proc/mounts", "/proc/swaps", "/etc/mtab"};
  for (int i = 0; i < 3; i++) { snprintf (p, sizeof p, "%s%s", dir, fs[i]); o[i] = __real_fopen (p, "w"); }
  fprintf (o[0], "rootfs / rootfs rw 0 0\n"); fprintf (o[1], "Filename Type Size Used Priority\n");
  for (int i = 0; i < MAXP; i++) if (kp[i].mnt) fprintf (o[kp[i].mnt - 1], "%s /m%d ext4 rw 0 0\n", i ? node[i] : path, i);
  for (int i = 0; i < 3; i++) fclose (o[i]);
}
static int overlap (int n, long long s, long long l) { for (int i = 1; i < MAXP; i++) if (i != n && kp[i].on && s < kp[i].s + kp[i].l && kp[i].s < s + l) return 1; return 0; }
/* what the kernel does: block/ioctl.c and block/partitions/core.c */
static int request (int op, int n, long long s, long long l)
{
  if (klim < 1) return EINVAL;
  if (n <= 0) return EINVAL;
  int is = n < MAXP && kp[n].on;
  if (op == BLKPG_DEL_PARTITION) {
    if (!is) return ENXIO;
    if (kp[n].mnt) return EBUSY;
    if (kp[n].b) { if (kp[n].b < STUCK) kp[n].b--; return EBUSY; }
    memset (&kp[n], 0, sizeof kp[n]); show (n); return 0;
  }
  if (s < 0 || l <= 0 || s % ss || l % ss) return EINVAL;
  s /= ss; l /= ss;
  if (op == BLKPG_ADD_PARTITION) {
    if (s >= len || s + l > len || n > klim || n >= MAXP) return EINVAL;
    if (is || overlap (n, s, l)) return EBUSY;
    kp[n].on = 1; kp[n].s = s; kp[n].l = l; show (n); return 0;
  }
  if (!is) return ENXIO;
  if (kp[n].s != s) return EINVAL;
  if (overlap (n, s, l)) return EBUSY;
  kp[n].l = l; show (n); return 0;
}
int __wrap_ioctl (int fd, unsigned long r, ...)
{
  va_list a; va_start (a, r); void *arg = va_arg (a, void *); va_end (a);
  int n = fd >= 0 && fd < 1024 ? fdn[fd] - 1 : -1;
  if (!on || n < 0) return __real_ioctl (fd, r, arg);
  if (r == BLKPG) {
    struct blkpg_ioctl_arg *x = arg; struct blkpg_partition *p = x->data; int e = n ? EINVAL : request (x->op, p->pno, p->start, p->length);
    if (e == EINVAL && x->op == BLKPG_DEL_PARTITION && klim < 1) ; else if (e != ENXIO && on_ < sizeof ops - 200 && (e != EBUSY || x->op != BLKPG_DEL_PARTITION || p->pno >= MAXP || what[p->pno] != 1)) {
      on_ += sprintf (ops + on_, "%s[\"%s\",%d,%lld,%lld,\"%s\"]", nops++ ? "," : "", x->op == BLKPG_ADD_PARTITION ? "add" : x->op == BLKPG_DEL_PARTITION ? "del" : "res", p->pno, p->start / ss, p->length / ss, e == 0 ? "ok" : e == EBUSY ? "busy" : e == EINVAL ? "inval" : "none");
      if (e == EBUSY && x->op == BLKPG_DEL_PARTITION) what[p->pno] = 1; }
    if (e) { errno = e; return -1; } return 0;
  }
  if (r == HDIO_GETGEO && n > 0) { struct hd_geometry *g = arg; memset (g, 0, sizeof *g); g->start = kp[n].s * (ss / 512); return 0; }
  if (r == BLKGETSIZE64 && n > 0) { *(unsigned long long *) arg = kp[n].l * ss; return 0; }
  if (r == BLKFLSBUF) return 0;
  errno = ENOTTY; return -1;
}

static PedExceptionOption handler (PedException *e)
{
  int o = e->options; PedExceptionOption a = PED_EXCEPTION_UNHANDLED;
  if (ians < nans) a = answers[ians++];
  if (a == PED_EXCEPTION_UNHANDLED || !(o & a)) a = o & PED_EXCEPTION_CANCEL ? PED_EXCEPTION_CANCEL : o & PED_EXCEPTION_NO ? PED_EXCEPTION_NO : PED_EXCEPTION_UNHANDLED;
  /* the partitions a message names: numbers before " on ", or nodes */
  char *m = e->message, *p; char *x = exc + strlen (exc);
  x += sprintf (x, "%s{\"a\":\"%c\",\"l\":%d,\"n\":[", nexc++ ? "," : "", a == PED_EXCEPTION_IGNORE ? 'i' : 'c', (p = strstr (m, " on ")) != NULL && !strncmp (m, "Partition", 9));
  lastans = a == PED_EXCEPTION_IGNORE ? 'i' : 'c'; const char *sep = "";
  if (p && !strncmp (m, "Partition", 9)) for (char *q = m; q < p; ) { if (*q >= '0' && *q <= '9') { x += sprintf (x, "%s%ld", sep, strtol (q, &q, 10)); sep = ","; } else q++; }
  else { char *q = strstr (m, path); if (q) { q += strlen (path); if (*q == 'p') q++; if (*q >= '0' && *q <= '9') x += sprintf (x, "%d", atoi (q)); } }
  sprintf (x, "]}"); return a;
}
static char *tok (void) { char *t = strtok (NULL, " \n"); return t ? t : (char *) ""; }
static long long num (void) { return strtoll (tok (), NULL, 0); }

static void run (char *line)
{
  char copy[400]; snprintf (copy, sizeof copy, "%s", line);
  char *c = strtok (line, " \n"); if (!c || *c == '#') return;
  ops[0] = exc[0] = 0; on_ = nops = nexc = 0; nans = ians = 0; lastans = '-'; memset (what, 0, sizeof what);
  int ok = 1, nop = 0;
  if (strcmp (c, "kdev") && !dev) { fprintf (out, "{\"c\":\"%s\",\"ok\":0,\"nop\":1,\"none\":1}\n", copy); fflush (out); return; }
  if (!strcmp (c, "kdev")) {
    snprintf (name, sizeof name, "%s", tok ()); len = num (); ss = num (); int ty = num (); range = num (); sysfs = num ();
    mk ("/sys"); mk ("/sys/block"); mk ("/proc"); mk ("/etc"); mk ("/dev"); char f[200]; snprintf (f, sizeof f, "/sys/block/%s", name); mk (f);
    put ("/proc/mounts", ""); put ("/proc/swaps", ""); put ("/etc/mtab", ""); put ("/proc/partitions", ""); put ("/proc/devices", "");
    if (range >= 0) { snprintf (f, sizeof f, "/sys/block/%s/ext_range", name); put (f, "%d\n", range); }
    klim = range < 0 ? 64 : range - 1;       /* the device itself counts as one */
    snprintf (path, sizeof path, "%s/dev/%s", dir, name); snprintf (f, sizeof f, "/dev/%s", name); put (f, ""); truncate (path, len * ss);
    int dg = name[strlen (name) - 1] >= '0' && name[strlen (name) - 1] <= '9';
    char b[10]; sprintf (b, "%d", ss); setenv ("PARTED_SECTOR_SIZE", b, 1);
    dev = ped_device_get (path); ok = dev != NULL;
    if (dev) dev->type = ty;
    int pp = dg || ty == PED_DEVICE_DAC960 || ty == PED_DEVICE_CPQARRAY || ty == PED_DEVICE_ATARAID;
    for (int i = 1; i < MAXP; i++) snprintf (node[i], sizeof node[i], "%s%s%d", path, pp ? "p" : "", i);
    on = 1;
  }
  else if (!strcmp (c, "kpart")) { int n = num (); long long s = num (), l = num (); if (n < 1 || n > klim || n >= MAXP || kp[n].on || s < 0 || l < 1 || s + l > len || overlap (n, s, l)) nop = 1; else { kp[n].on = 1; kp[n].s = s; kp[n].l = l; kp[n].b = num (); show (n); } }
  else if (!strcmp (c, "kuse")) { int n = num (); if (n < 1 || n >= MAXP || !kp[n].on) nop = 1; else kp[n].b = num (); }
  else if (!strcmp (c, "mount")) { int n = num (); if (n < 0 || n >= MAXP || (n && !kp[n].on)) nop = 1; else { kp[n].mnt = num (); mounts (); } }
  else if (!strcmp (c, "new")) { PedDiskType *t = ped_disk_type_get (tok ()); if (dsk) ped_disk_destroy (dsk); dsk = ped_disk_new_fresh (dev, t); ok = dsk != NULL; }
  else if (!strcmp (c, "devbusy")) ok = ped_device_is_busy (dev);
  else if (!dsk) { nop = 1; ok = 0; }
  else if (!strcmp (c, "add")) { char *t = tok (); long long s = num (), e = num (); ok = 0;
    PedPartition *p = ped_partition_new (dsk, *t == 'x' ? PED_PARTITION_EXTENDED : *t == 'l' ? PED_PARTITION_LOGICAL : 0, NULL, s, e);
    PedConstraint *k = ped_constraint_any (dev); if (p) { ok = ped_disk_add_partition (dsk, p, k); if (!ok) ped_partition_destroy (p); } ped_constraint_destroy (k); }
  else if (!strcmp (c, "rm")) { PedPartition *p = ped_disk_get_partition (dsk, num ()); ok = p && ped_disk_delete_partition (dsk, p); }
  else if (!strcmp (c, "geom")) { PedPartition *p = ped_disk_get_partition (dsk, num ()); long long s = num (), e = num (); PedConstraint *k = ped_constraint_any (dev); ok = p && ped_disk_set_partition_geom (dsk, p, k, s, e); ped_constraint_destroy (k); }
  else if (!strcmp (c, "dflag")) { PedDiskFlag f = ped_disk_flag_get_by_name (tok ()); ok = f && ped_disk_is_flag_available (dsk, f) && ped_disk_set_flag (dsk, f, num ()); }
  else if (!strcmp (c, "busy")) { PedPartition *p = ped_disk_get_partition (dsk, num ()); nop = !p; ok = p && ped_partition_is_busy (p); }
  else if (!strcmp (c, "commit") || !strcmp (c, "os")) {
    for (char *p = tok (); *p; p++) answers[nans++] = *p == 'i' ? PED_EXCEPTION_IGNORE : PED_EXCEPTION_CANCEL;
    ped_exception_fetch_all ();
    int dv = ped_disk_commit_to_dev (dsk); ped_exception_catch (); ped_exception_leave_all ();
    if (!dv) { nop = 1; ok = 0; }      /* a table that cannot be written is not made known either */
    else { exc[0] = on_ = nops = nexc = ians = 0; lastans = '-'; ok = *c == 'c' ? ped_disk_commit (dsk) : ped_disk_commit_to_os (dsk); }
  } else { fprintf (out, "{\"c\":\"unknown\",\"ok\":0}\n"); return; }
  fprintf (out, "{\"c\":\"%s\",\"ok\":%d,\"nop\":%d,\"last\":\"%c\",\"ops\":[%s],\"x\":[%s],\"k\":[", copy, ok, nop, lastans, ops, exc);
  const char *sep = ""; for (int i = 1; i < MAXP; i++) if (kp[i].on) { fprintf (out, "%s[%d,%lld,%lld,%d]", sep, i, kp[i].s, kp[i].l, kp[i].b >= STUCK || kp[i].mnt ? 2 : kp[i].b > 0); sep = ","; }
  fprintf (out, "],\"m\":["); sep = ""; for (int i = 0; i < MAXP; i++) if (kp[i].mnt) { fprintf (out, "%s%d", sep, i); sep = ","; }
  fprintf (out, "],\"lim\":%d", klim);
  if (dsk) {
    int ms = 0; ped_disk_get_max_supported_partition_count (dsk, &ms);
    fprintf (out, ",\"lab\":\"%s\",\"ms\":%d,\"p\":[", dsk->type->name, ms); sep = "";
    for (PedPartition *p = NULL; (p = ped_disk_next_partition (dsk, p)); ) if (ped_partition_is_active (p)) { fprintf (out, "%s[%d,%d,%lld,%lld]", sep, p->num, p->type, (long long) p->geom.start, (long long) p->geom.length); sep = ","; }
    fprintf (out, "]");
  } else fprintf (out, ",\"lab\":\"\",\"ms\":0,\"p\":[]");
  int fds = 0; for (int i = 0; i < 1024; i++) fds += fdn[i] != 0;
  fprintf (out, ",\"fds\":%d}\n", fds); fflush (out);
}
static void rmtree (const char *d)
{
  DIR *h = __real_opendir (d); if (!h) return;
  for (struct dirent *e; (e = readdir (h)); ) { if (!strcmp (e->d_name, ".") || !strcmp (e->d_name, "..")) continue;
    char p[1200]; snprintf (p, sizeof p, "%s/%s", d, e->d_name); if (unlink (p)) { rmtree (p); } }
  closedir (h); rmdir (d);
}
int main (void)
{
  out = stdout;
  size_t cap = 1 << 20, n = 0; char *in = malloc (cap);
  for (ssize_t r; (r = read (0, in + n, cap - n - 1)) > 0; ) { n += r; if (n + 1 >= cap) in = realloc (in, cap *= 2); }
  in[n] = 0; char *p = in;
  while (*p) {
    char *e = strchr (p, '\n'); if (!e) break; *e = 0;
    if (!strncmp (p, "begin", 5)) {
      char *body = e + 1, *fin = strstr (body, "\nend\n"), *stop = fin ? fin + 1 : in + n;
      fprintf (out, "{\"c\":\"%s\"}\n", p); fflush (out);
      snprintf (dir, sizeof dir, "%s/kernXXXXXX", getenv ("VERIF_DIR") ? getenv ("VERIF_DIR") : "/tmp"); if (!mkdtemp (dir)) return 3;
      char rp[4200]; if (realpath (dir, rp)) snprintf (dir, sizeof dir, "%s", rp);
      pid_t pid = fork ();
      if (!pid) { alarm (20); ped_exception_set_handler (handler);
        char *q = body; while (q < stop) { char *ee = memchr (q, '\n', stop - q); if (!ee) break; *ee = 0; run (q); q = ee + 1; }
        _exit (0); }
      int st; waitpid (pid, &st, 0);
      if (WIFSIGNALED (st)) fprintf (out, "{\"c\":\"crash\",\"ok\":0,\"sig\":%d}\n", WTERMSIG (st));
      rmtree (dir); p = stop; if (fin) p += 4;
    } else p = e + 1;
  }
  fflush (out); return 0;
}
