/* An architecture for libparted whose devices live in memory: sparse contents over a
   computed background, a journal of writes, and injection of faults.  Included by drivers. */
#include <config.h>
#include <parted/parted.h>
#include <parted/crc32.h>
#include "architecture.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <stdbool.h>

typedef struct { int64_t sec; unsigned char *data; } Cell;
typedef struct { Cell *tab; size_t cap, n; } Store;
typedef struct { int64_t start, count; unsigned char *data; } Wr;

typedef struct {
  uint64_t bg;           /* background seed; 0 = zeroes */
  Store st;
  Wr *j; size_t jn, jcap; int jdata;   /* journal */
  long nread, nwrite, nsync, nopen, nclose;
  long fail_read, fail_write, fail_sync; /* countdown: 1 = next fails; 0 = never */
  int fail_sticky;
  int64_t bad_lo, bad_hi; /* reads inside fail */
  int stop_writes;       /* after that many writes drop silently; -1 off */
} MemDev;
#define MD(d) ((MemDev *) (d)->arch_specific)

static uint64_t mix64 (uint64_t x)
{ x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31); }

static Cell *store_slot (Store *s, int64_t sec)
{
  size_t i = mix64 (sec) & (s->cap - 1);
  while (s->tab[i].data && s->tab[i].sec != sec) i = (i + 1) & (s->cap - 1);
  return &s->tab[i];
}
static void store_init (Store *s) { s->cap = 256; s->n = 0; s->tab = calloc (s->cap, sizeof (Cell)); }
static void store_free (Store *s)
{ for (size_t i = 0; i < s->cap; i++) free (s->tab[i].data); free (s->tab); s->tab = 0; }
static void store_put (Store *s, int64_t sec, const void *d, size_t ss)
{
  if (s->n * 2 >= s->cap) {
    Store t = { calloc (s->cap * 2, sizeof (Cell)), s->cap * 2, s->n };
    for (size_t i = 0; i < s->cap; i++)
      if (s->tab[i].data) *store_slot (&t, s->tab[i].sec) = s->tab[i];
    free (s->tab); *s = t;
  }
  Cell *c = store_slot (s, sec);
  if (!c->data) { c->sec = sec; c->data = malloc (ss); s->n++; }
  memcpy (c->data, d, ss);
}
static void bg_sector (const PedDevice *dev, int64_t sec, unsigned char *out)
{
  MemDev *m = MD (dev);
  if (!m->bg) { memset (out, 0, dev->sector_size); return; }
  uint64_t x = mix64 (m->bg * 1000003 + sec);
  for (long i = 0; i < dev->sector_size; i += 8) { x = mix64 (x); memcpy (out + i, &x, 8); }
}
static void mem_get (const PedDevice *dev, int64_t sec, unsigned char *out)
{
  Cell *c = store_slot (&MD (dev)->st, sec);
  if (c->data) memcpy (out, c->data, dev->sector_size); else bg_sector (dev, sec, out);
}
static void mem_put (PedDevice *dev, int64_t sec, const void *d)
{ store_put (&MD (dev)->st, sec, d, dev->sector_size); }
static uint64_t bytes_hash (const unsigned char *p, size_t n)
{ uint64_t h = 1469598103934665603ULL; for (size_t i = 0; i < n; i++) h = (h ^ p[i]) * 1099511628211ULL; return h; }

static uint64_t mem_digest (const PedDevice *dev)   /* order independent; ignores cells equal to the background */
{
  MemDev *m = MD (dev); uint64_t h = 0; unsigned char b[dev->sector_size];
  for (size_t i = 0; i < m->st.cap; i++) if (m->st.tab[i].data) {
    bg_sector (dev, m->st.tab[i].sec, b);
    if (memcmp (b, m->st.tab[i].data, dev->sector_size))
      h += mix64 (bytes_hash (m->st.tab[i].data, dev->sector_size) ^ mix64 (m->st.tab[i].sec));
  }
  return h;
}
static void mem_jclear (PedDevice *dev)
{ MemDev *m = MD (dev); for (size_t i = 0; i < m->jn; i++) free (m->j[i].data); m->jn = 0; }

static PedDevice *m_new (const char *path) { return NULL; }
static void m_destroy (PedDevice *dev)
{ mem_jclear (dev); free (MD (dev)->j); store_free (&MD (dev)->st); free (dev->arch_specific); free (dev->path); free (dev->model); free (dev); }
static int m_is_busy (PedDevice *dev) { return 0; }
static int m_open (PedDevice *dev) { MD (dev)->nopen++; return 1; }
static int m_refresh_open (PedDevice *dev) { return 1; }
static int m_close (PedDevice *dev) { MD (dev)->nclose++; return 1; }
static int m_refresh_close (PedDevice *dev) { return 1; }
static int fire (long *cd, int sticky)
{ if (!*cd) return 0; if (*cd > 1) { --*cd; return 0; } if (!sticky) *cd = 0; return 1; }
static long stray_io;   /* accesses outside the device */
static long io_errs, io_ign, io_lostw; static long io_lost;    /* transfers that failed for good */
static int m_io_error (const char *what)
{
  PedExceptionOption o = ped_exception_throw (PED_EXCEPTION_ERROR, PED_EXCEPTION_RETRY_IGNORE_CANCEL, "I/O error during %s", what);
  if (o == PED_EXCEPTION_UNHANDLED) ped_exception_catch ();
  int r = o == PED_EXCEPTION_IGNORE ? 1 : o == PED_EXCEPTION_RETRY ? 2 : 0;
  io_errs++; if (r == 1) io_ign++;
  if (!r) { io_lost++; if (strncmp (what, "read", 4)) io_lostw++; }
  return r;
}
static int m_read (const PedDevice *dev, void *buf, PedSector s, PedSector c)
{
  MemDev *m = MD (dev);
  m->nread++;
  if (s < 0 || c < 0 || s + c > dev->length) {
    stray_io++; return m_io_error ("read past the end") == 1; }
  if (m->bad_hi >= m->bad_lo && s <= m->bad_hi && s + c - 1 >= m->bad_lo)
    return m_io_error ("read") == 1;
  while (fire (&m->fail_read, m->fail_sticky)) { int r = m_io_error ("read"); if (r != 2) return r; }
  for (PedSector i = 0; i < c; i++) mem_get (dev, s + i, (unsigned char *) buf + i * dev->sector_size);
  return 1;
}
static int m_write (PedDevice *dev, const void *buf, PedSector s, PedSector c)
{
  MemDev *m = MD (dev);
  m->nwrite++;
  if (s < 0 || c < 0 || s + c > dev->length) { stray_io++; return m_io_error ("write past the end") == 1; }
  while (fire (&m->fail_write, m->fail_sticky)) { int r = m_io_error ("write"); if (r != 2) return r; }
  if (m->jn == m->jcap) m->j = realloc (m->j, (m->jcap = m->jcap * 2 + 16) * sizeof (Wr));
  Wr *w = &m->j[m->jn++];
  w->start = s; w->count = c; w->data = NULL;
  if (m->jdata) { w->data = malloc (c * dev->sector_size); memcpy (w->data, buf, c * dev->sector_size); }
  for (PedSector i = 0; i < c; i++) mem_put (dev, s + i, (const unsigned char *) buf + i * dev->sector_size);
  return 1;
}
static int m_sync (PedDevice *dev)
{ MemDev *m = MD (dev); m->nsync++;
  while (fire (&m->fail_sync, m->fail_sticky)) { int r = m_io_error ("sync"); if (r != 2) return r; }
  return 1; }
static PedSector m_check (PedDevice *dev, void *buf, PedSector s, PedSector c) { return c; }
static void m_probe_all (void) {}
static PedDeviceArchOps mem_dev_ops = {
  ._new = m_new, .destroy = m_destroy, .is_busy = m_is_busy, .open = m_open, .refresh_open = m_refresh_open,
  .close = m_close, .refresh_close = m_refresh_close, .read = m_read, .write = m_write, .sync = m_sync,
  .sync_fast = m_sync, .check = m_check, .probe_all = m_probe_all };
static char *m_part_path (const PedPartition *p) { char b[64]; snprintf (b, 64, "/mem/p%d", p->num); return strdup (b); }
static int m_part_busy (const PedPartition *p) { return 0; }
static int m_disk_commit (PedDisk *d) { return 1; }
static PedDiskArchOps mem_disk_ops = { .partition_get_path = m_part_path, .partition_is_busy = m_part_busy, .disk_commit = m_disk_commit };
static PedArchitecture mem_arch = { .disk_ops = &mem_disk_ops, .dev_ops = &mem_dev_ops };

static PedDevice *mem_device (const char *path, int64_t len, int ss, int heads, int secs, uint64_t bg)
{
  PedDevice *d = calloc (1, sizeof *d);
  d->path = strdup (path); d->model = strdup ("mem");
  d->type = PED_DEVICE_FILE; d->sector_size = ss; d->phys_sector_size = ss; d->length = len;
  int64_t cyl = len / (heads * (int64_t) secs);
  d->hw_geom.heads = heads; d->hw_geom.sectors = secs; d->hw_geom.cylinders = cyl > 0x7fffffff ? 0x7fffffff : cyl;
  d->bios_geom = d->hw_geom;
  MemDev *m = calloc (1, sizeof *m); d->arch_specific = m;
  m->bg = bg; m->bad_lo = 0; m->bad_hi = -1; m->stop_writes = -1;
  store_init (&m->st);
  ped_device_open (d);
  return d;
}
static void mem_install (void) { ped_architecture = &mem_arch; }
