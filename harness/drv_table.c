// Interprets table commands on libparted over memory devices; one JSON line per command.
// Input: lines; "begin ID" ... "end" brackets one history, which runs in a child process.
#include "memdev.h"
#include <signal.h>
#include <sys/wait.h>
#include <uuid/uuid.h>
#include <ctype.h>

/* deterministic identifiers */
static uint64_t uuid_ctr = 1;
void uuid_generate (uuid_t out)
{ uint64_t a = mix64 (uuid_ctr * 2), b = mix64 (uuid_ctr * 2 + 1); uuid_ctr++;
  memcpy (out, &a, 8); memcpy (out + 8, &b, 8); out[6] = (out[6] & 0x0f) | 0x40; out[8] = (out[8] & 0x3f) | 0x80; }
void uuid_generate_random (uuid_t out) { uuid_generate (out); }

#define ND 8
static PedDevice *dev[ND];
static PedDisk *dsk[ND]; static int dskdev[ND];
static int attrs = 0, watch = 0;
static int balanced (void);
static PedExceptionOption answers[64]; static int nans, ians;   /* scripted answers; then default policy */
static int policy = 0;  /* 0: unhandled/cancel, 1: ignore/yes/ok/fix, 2: no/cancel */
static int nexc; static char exclast[300]; static int exctype, excopts; static int excerr;

static PedExceptionOption handler (PedException *e)
{
  nexc++; exctype = e->type; excopts = e->options;
  if (e->type >= PED_EXCEPTION_ERROR) excerr++;
  snprintf (exclast, sizeof exclast, "%s", e->message);
  for (char *p = exclast; *p; p++) if (*p == '"' || *p == '\\' || (unsigned char) *p < 32 || (unsigned char) *p > 126) *p = ' ';
  if (ians < nans) return answers[ians++];
  int o = e->options;
  if (policy == 1) {
    if (o & PED_EXCEPTION_FIX) return PED_EXCEPTION_FIX;
    if (o & PED_EXCEPTION_YES) return PED_EXCEPTION_YES;
    if (o & PED_EXCEPTION_OK) return PED_EXCEPTION_OK;
    if (o & PED_EXCEPTION_IGNORE) return PED_EXCEPTION_IGNORE;
  } else if (policy == 3) {  /* decline repairs, go on */
    if (o & PED_EXCEPTION_IGNORE) return PED_EXCEPTION_IGNORE;
    if (o & PED_EXCEPTION_NO) return PED_EXCEPTION_NO;
    if (o & PED_EXCEPTION_OK) return PED_EXCEPTION_OK;
  } else if (policy == 2) {
    if (o & PED_EXCEPTION_NO) return PED_EXCEPTION_NO;
    if (o & PED_EXCEPTION_CANCEL) return PED_EXCEPTION_CANCEL;
    if (o & PED_EXCEPTION_OK) return PED_EXCEPTION_OK;
  }
  if (o & PED_EXCEPTION_CANCEL) return PED_EXCEPTION_CANCEL;
  if (o & PED_EXCEPTION_NO) return PED_EXCEPTION_NO;
  return PED_EXCEPTION_UNHANDLED;
}

static void hexs (const unsigned char *p, size_t n) { for (size_t i = 0; i < n; i++) printf ("%02x", p[i]); }

static void put_state (int k)
{
  PedDisk *d = dsk[k];
  if (!d) { printf ("null"); return; }
  printf ("{\"lab\":\"%s\",\"len\":%lld,\"p\":[", d->type->name, (long long) d->dev->length);
  const char *sep = "";
  for (PedPartition *p = ped_disk_next_partition (d, NULL); p; p = ped_disk_next_partition (d, p)) {
    printf ("%s[%d,%d,%lld,%lld]", sep, p->num, p->type, (long long) p->geom.start, (long long) p->geom.end); sep = ",";
    if (p->geom.length != p->geom.end - p->geom.start + 1) printf (",[-9,0,0,0]");
  }
  printf ("]");
  if (attrs) {
    printf (",\"df\":["); sep = "";
    for (PedDiskFlag f = ped_disk_flag_next (0); f; f = ped_disk_flag_next (f))
      if (ped_disk_is_flag_available (d, f) && ped_disk_get_flag (d, f)) { printf ("%s\"%s\"", sep, ped_disk_flag_get_name (f)); sep = ","; }
    printf ("],\"a\":["); sep = "";
    for (PedPartition *p = ped_disk_next_partition (d, NULL); p; p = ped_disk_next_partition (d, p)) {
      if (!ped_partition_is_active (p)) continue;
      printf ("%s{\"n\":%d,\"t\":%d,\"s\":%lld,\"e\":%lld,\"fs\":\"%s\",\"fl\":[", sep, p->num, p->type, (long long) p->geom.start, (long long) p->geom.end, p->fs_type ? p->fs_type->name : "-"); sep = ",";
      const char *s2 = "";
      for (PedPartitionFlag f = ped_partition_flag_next (0); f; f = ped_partition_flag_next (f))
        if (ped_partition_is_flag_available (p, f) && ped_partition_get_flag (p, f)) { printf ("%s\"%s\"", s2, ped_partition_flag_get_name (f)); s2 = ","; }
      printf ("],\"av\":["); s2 = "";
      for (PedPartitionFlag f = ped_partition_flag_next (0); f; f = ped_partition_flag_next (f))
        if (ped_partition_is_flag_available (p, f)) { printf ("%s\"%s\"", s2, ped_partition_flag_get_name (f)); s2 = ","; }
      printf ("],\"nm\":\"");
      if (ped_disk_type_check_feature (d->type, PED_DISK_TYPE_PARTITION_NAME)) {
        const char *nm = ped_partition_get_name (p); hexs ((const unsigned char *) nm, strlen (nm)); }
      printf ("\",\"ti\":%d", ped_disk_type_check_feature (d->type, PED_DISK_TYPE_PARTITION_TYPE_ID) ? ped_partition_get_type_id (p) : -1);
      printf (",\"tu\":\"");
      if (ped_disk_type_check_feature (d->type, PED_DISK_TYPE_PARTITION_TYPE_UUID)) { uint8_t *u = ped_partition_get_type_uuid (p); if (u) hexs (u, 16); free (u); }
      printf ("\",\"u\":\"");
      if (ped_disk_type_check_feature (d->type, PED_DISK_TYPE_PARTITION_UUID)) { uint8_t *u = ped_partition_get_uuid (p); if (u) hexs (u, 16); free (u); }
      printf ("\"}");
    }
    printf ("],\"du\":\"");
    if (ped_disk_type_check_feature (d->type, PED_DISK_TYPE_DISK_UUID)) { uint8_t *u = ped_disk_get_uuid (d); if (u) hexs (u, 16); free (u); }
    printf ("\"");
  }
  int me = -1; ped_disk_get_max_supported_partition_count (d, &me);
  printf (",\"mp\":%d,\"ms\":%d,\"pc\":%d,\"lp\":%d,\"nc\":%d}", ped_disk_get_max_primary_partition_count (d), me,
          ped_disk_get_primary_partition_count (d), ped_disk_get_last_partition_num (d), d->needs_clobber);
}

static char *tok (void) { char *t = strtok (NULL, " \n"); return t ? t : (char *) ""; }
static long long num (void) { return strtoll (tok (), NULL, 0); }

/* cspec: any | exact S E | range SL SH EL EH [SO SG EO EG MIN MAX] | none */
static PedConstraint *cspec (PedDevice *d)
{
  char *t = tok ();
  if (!strcmp (t, "none")) return NULL;
  if (!strcmp (t, "any")) return ped_constraint_any (d);
  if (!strcmp (t, "exact")) { long long s = num (), e = num (); PedGeometry *g = ped_geometry_new (d, s, e - s + 1); if (!g) return NULL;
    PedConstraint *c = ped_constraint_exact (g); ped_geometry_destroy (g); return c; }
  long long sl = num (), sh = num (), el = num (), eh = num (), so = num (), sg = num (), eo = num (), eg = num (), mn = num (), mx = num ();
  PedAlignment sa, ea; ped_alignment_init (&sa, so, sg); ped_alignment_init (&ea, eo, eg);
  PedGeometry *a = ped_geometry_new (d, sl, sh - sl + 1), *b = ped_geometry_new (d, el, eh - el + 1);
  if (!a || !b) return NULL;
  PedConstraint *c = ped_constraint_new (&sa, &ea, a, b, mn, mx);
  ped_geometry_destroy (a); ped_geometry_destroy (b); return c;
}
static PedFileSystemType *fsget (const char *t) { return !strcmp (t, "-") ? NULL : ped_file_system_type_get (t); }
static char *unhex (const char *h)
{ size_t n = strlen (h) / 2; char *r = malloc (n + 1); for (size_t i = 0; i < n; i++) { unsigned x; sscanf (h + 2 * i, "%2x", &x); r[i] = x; } r[n] = 0; return r; }
static int ptype (const char *t) { return !strcmp (t, "l") ? PED_PARTITION_LOGICAL : !strcmp (t, "x") ? PED_PARTITION_EXTENDED : PED_PARTITION_NORMAL; }

static void put_list (PedDevice *d)
{ /* sectors written since jclear, merged ranges */
  MemDev *m = MD (d);
  printf ("["); const char *sep = "";
  for (size_t i = 0; i < m->jn; i++) { printf ("%s[%lld,%lld]", sep, (long long) m->j[i].start, (long long) (m->j[i].start + m->j[i].count - 1)); sep = ","; }
  printf ("]");
}

/* independent decoder of what a GPT looks like on the device */
static uint32_t crc_of (const unsigned char *p, size_t n)
{ uint32_t c = ~0u; for (size_t i = 0; i < n; i++) { c ^= p[i]; for (int b = 0; b < 8; b++) c = c >> 1 ^ (c & 1 ? 0xedb88320u : 0); } return ~c; }
static uint64_t le (const unsigned char *p, int n) { uint64_t v = 0; for (int i = n; i--;) v = v << 8 | p[i]; return v; }
static long long small (uint64_t v) { return v > 2000000000ull ? -1 : (long long) v; }
static char *guidhex (char *o, const unsigned char *g)
{ static const int ord[] = {3,2,1,0,5,4,7,6,8,9,10,11,12,13,14,15}; for (int i = 0; i < 16; i++) o += sprintf (o, "%02x", g[ord[i]]); return o; }
static char *gpt_header (PedDevice *d, long long lba, char *o)
{
  if (lba < 0 || lba >= d->length) return o + sprintf (o, "{\"in\":0}");
  size_t ss = d->sector_size; unsigned char h[ss], z[ss]; mem_get (d, lba, h);
  uint32_t hs = le (h + 12, 4); int szok = hs >= 92 && hs <= ss; memcpy (z, h, ss); memset (z + 16, 0, 4);
  uint64_t el = le (h + 72, 8), cnt = le (h + 80, 4), es = le (h + 84, 4); int aok = 0; unsigned char *a = NULL;
  uint64_t bytes = cnt * es;
  if (bytes < 4u << 20 && es && el < d->length && el + (bytes + ss - 1) / ss <= d->length) {
    a = calloc (bytes / ss + 2, ss); for (uint64_t i = 0; i * ss < bytes; i++) mem_get (d, el + i, a + i * ss);
    aok = crc_of (a, bytes) == le (h + 88, 4); }
  o += sprintf (o, "{\"in\":1,\"sig\":%d,\"rev\":%lld,\"szok\":%d,\"crc\":%d,\"my\":%lld,\"alt\":%lld,\"fu\":%lld,\"lu\":%lld,\"el\":%lld,\"cnt\":%lld,\"es\":%lld,\"acrc\":%d,\"dg\":\"",
    !memcmp (h, "EFI PART", 8), small (le (h + 8, 4)), szok, szok && crc_of (z, hs) == le (h + 16, 4), small (le (h + 24, 8)), small (le (h + 32, 8)), small (le (h + 40, 8)), small (le (h + 48, 8)), small (el), small (cnt), small (es), aok);
  o = guidhex (o, h + 56); o += sprintf (o, "\",\"ents\":["); const char *sep = "";
  if (aok) for (uint64_t i = 0; i < cnt; i++) { unsigned char *e = a + i * es; int any = 0; for (int j = 0; j < 16; j++) any |= e[j]; if (!any) continue;
    o += sprintf (o, "%s{\"n\":%d,\"s\":%lld,\"e\":%lld,\"tu\":\"", sep, (int) i + 1, small (le (e + 32, 8)), small (le (e + 40, 8))); sep = ",";
    o = guidhex (o, e); o += sprintf (o, "\",\"u\":\""); o = guidhex (o, e + 16);
    o += sprintf (o, "\",\"at\":[%d,%d,%d],\"nm\":\"", e[48] & 1, e[48] >> 2 & 1, e[55] >> 7);
    for (int j = 0; j < 36 && le (e + 56 + 2 * j, 2); j++) o += sprintf (o, "%02x", (int) le (e + 56 + 2 * j, 2)); o += sprintf (o, "\"}"); }
  free (a); return o + sprintf (o, "]}");
}
static void gptdec (PedDevice *d, char *o)
{
  unsigned char s0[d->sector_size], s1[d->sector_size]; mem_get (d, 0, s0); mem_get (d, 1, s1);
  int pm = 0; for (int i = 0; i < 4; i++) pm |= s0[446 + 16 * i + 4] == 0xee; pm = pm && s0[510] == 0x55 && s0[511] == 0xaa;
  o += sprintf (o, ",\"len\":%lld,\"ss\":%lld,\"pm\":%d,\"pb\":%d,\"P\":", (long long) d->length, (long long) d->sector_size, pm, s0[446] == 0x80);
  o = gpt_header (d, 1, o); uint64_t alt = le (s1 + 32, 8);
  o += sprintf (o, ",\"A\":"); o = gpt_header (d, alt < (uint64_t) d->length ? alt : -1, o);
  o += sprintf (o, ",\"E\":"); o = gpt_header (d, d->length - 1, o);
}

static void run (char *line)
{
  char copy[4096]; snprintf (copy, sizeof copy, "%s", line);
  char *c = strtok (line, " \n"); if (!c || *c == '#') return;
  nexc = 0; exclast[0] = 0; exctype = excopts = excerr = 0; nans = ians = 0;
  int sect = *c == '@'; if (sect) c++; io_lostw = io_lost = io_errs = io_ign = 0;
  int ok = 1, k = -1, di = -1; static char extra[1 << 19]; extra[0] = 0;
  int force_nostate = 0;
  #define D dsk[k]
  #define PARTN(n) (D ? ped_disk_get_partition (D, n) : NULL)
  if (*c == '!') { /* !<answers>: scripted answers for this command, e.g. !icr cmd ... */
    for (char *p = c + 1; *p; p++) answers[nans++] = *p == 'f' ? PED_EXCEPTION_FIX : *p == 'y' ? PED_EXCEPTION_YES : *p == 'n' ? PED_EXCEPTION_NO :
      *p == 'o' ? PED_EXCEPTION_OK : *p == 'r' ? PED_EXCEPTION_RETRY : *p == 'i' ? PED_EXCEPTION_IGNORE : *p == 'c' ? PED_EXCEPTION_CANCEL : PED_EXCEPTION_UNHANDLED;
    c = tok ();
  }
  if (sect) ped_exception_fetch_all ();
  { /* table commands on an empty slot do nothing */
    static const char *tc[] = {"limits","add","rm","delall","setgeom","max","maxgeom","minext","bysec","flag","dflag","name","system","typeid","typeuuid","dup","commit","commitfull","check","state","destroy",NULL};
    int is = 0; for (int i = 0; tc[i]; i++) is |= !strcmp (c, tc[i]);
    char *q = strstr (copy, c) + strlen (c); int kk = atoi (q);
    if (is && !dsk[kk]) { ok = 0; force_nostate = 1; k = kk; if (!strcmp (c, "dup")) { k = atoi (strchr (q + 1, ' ')); if (dsk[k]) ped_disk_destroy (dsk[k]); dsk[k] = NULL; } snprintf (extra, sizeof extra, ",\"nop\":2"); goto out; }
  }
  if (!strcmp (c, "dev")) { di = num (); long long len = num (); int ss = num (), h = num (), s = num (); uint64_t bg = strtoull (tok (), 0, 0);
    char nm[32]; snprintf (nm, 32, "/mem/%d", di); if (dev[di]) ped_device_destroy (dev[di]);
    dev[di] = mem_device (nm, len, ss, h, s, bg); }
  else if (!strcmp (c, "policy")) policy = num ();
  else if (!strcmp (c, "uuidctr")) uuid_ctr = num ();
  else if (!strcmp (c, "attrs")) attrs = num ();
  else if (!strcmp (c, "watch")) watch = num ();
  else if (!strcmp (c, "new")) { k = num (); di = num (); char *t = tok (); PedDiskType *ty = ped_disk_type_get (t);
    if (dsk[k]) ped_disk_destroy (dsk[k]); dskdev[k] = di; dsk[k] = ty ? ped_disk_new_fresh (dev[di], ty) : NULL; ok = dsk[k] != NULL; }
  else if (!strcmp (c, "read")) { k = num (); di = num (); if (dsk[k]) ped_disk_destroy (dsk[k]); dskdev[k] = di; dsk[k] = ped_disk_new (dev[di]); ok = dsk[k] != NULL; }
  else if (!strcmp (c, "probe")) { di = num (); PedDiskType *t = ped_disk_probe (dev[di]); ok = t != NULL; snprintf (extra, sizeof extra, ",\"ty\":\"%s\"", t ? t->name : "-"); }
  else if (!strcmp (c, "probeall")) { di = num (); char *p = extra; p += sprintf (p, ",\"tys\":["); const char *sep = "";
    for (PedDiskType *t = ped_disk_type_get_next (NULL); t; t = ped_disk_type_get_next (t)) { ped_exception_fetch_all (); int r = t->ops->probe (dev[di]); ped_exception_catch (); ped_exception_leave_all ();
      if (r) { p += sprintf (p, "%s\"%s\"", sep, t->name); sep = ","; } } sprintf (p, "]"); }
  else if (!strcmp (c, "clobber")) { di = num (); ok = ped_disk_clobber (dev[di]); }
  else if (!strcmp (c, "add")) { k = num (); int pt = ptype (tok ()); PedFileSystemType *fs = fsget (tok ()); long long s = num (), e = num ();
    PedConstraint *cs = cspec (D->dev); PedPartition *p = ped_partition_new (D, pt, fs, s, e); ok = 0;
    if (p) { ok = ped_disk_add_partition (D, p, cs);
      if (ok) { snprintf (extra, sizeof extra, ",\"pn\":%d,\"gs\":%lld,\"ge\":%lld", p->num, (long long) p->geom.start, (long long) p->geom.end);
        if (attrs) ped_partition_set_system (p, fs); }
      else { snprintf (extra, sizeof extra, ",\"pn\":%d,\"gs\":%lld,\"ge\":%lld", p->num, (long long) p->geom.start, (long long) p->geom.end); ped_partition_destroy (p); } }
    if (cs) ped_constraint_destroy (cs); }
  else if (!strcmp (c, "limits")) { k = num (); int sup = -1; ok = ped_disk_get_max_supported_partition_count (D, &sup);
    snprintf (extra, sizeof extra, ",\"ms\":\"%llu\",\"ml\":\"%llu\",\"sup\":%d", (unsigned long long) ped_disk_max_partition_start_sector (D), (unsigned long long) ped_disk_max_partition_length (D), sup); }
  else if (!strcmp (c, "rm")) { k = num (); PedPartition *p = PARTN (num ()); ok = p && ped_disk_delete_partition (D, p); if (!p) snprintf (extra, sizeof extra, ",\"nop\":1"); }
  else if (!strcmp (c, "delall")) { k = num (); ok = ped_disk_delete_all (D); }
  else if (!strcmp (c, "setgeom")) { k = num (); PedPartition *p = PARTN (num ()); long long s = num (), e = num (); PedConstraint *cs = cspec (D->dev);
    ok = p && ped_disk_set_partition_geom (D, p, cs, s, e); if (p) snprintf (extra, sizeof extra, ",\"gs\":%lld,\"ge\":%lld", (long long) p->geom.start, (long long) p->geom.end); else snprintf (extra, sizeof extra, ",\"nop\":1"); if (cs) ped_constraint_destroy (cs); }
  else if (!strcmp (c, "max")) { k = num (); PedPartition *p = PARTN (num ()); PedConstraint *cs = cspec (D->dev);
    ok = p && ped_disk_maximize_partition (D, p, cs); if (p) snprintf (extra, sizeof extra, ",\"gs\":%lld,\"ge\":%lld", (long long) p->geom.start, (long long) p->geom.end); else snprintf (extra, sizeof extra, ",\"nop\":1"); if (cs) ped_constraint_destroy (cs); }
  else if (!strcmp (c, "maxgeom")) { k = num (); PedPartition *p = PARTN (num ()); PedConstraint *cs = cspec (D->dev);
    PedGeometry *g = p ? ped_disk_get_max_partition_geometry (D, p, cs) : NULL; ok = g != NULL;
    snprintf (extra, sizeof extra, ",\"gs\":%lld,\"ge\":%lld%s", g ? (long long) g->start : -1LL, g ? (long long) g->end : -1LL, p ? "" : ",\"nop\":1"); if (g) ped_geometry_destroy (g); if (cs) ped_constraint_destroy (cs); }
  else if (!strcmp (c, "minext")) { k = num (); ok = ped_disk_minimize_extended_partition (D); }
  else if (!strcmp (c, "bysec")) { k = num (); long long s = num (); PedPartition *p = ped_disk_get_partition_by_sector (D, s);
    snprintf (extra, sizeof extra, ",\"sec\":%lld,\"r\":[%d,%d,%lld,%lld]", s, p ? p->num : -2, p ? p->type : -1, p ? (long long) p->geom.start : -1LL, p ? (long long) p->geom.end : -1LL); }
  else if (!strcmp (c, "flag")) { k = num (); PedPartition *p = PARTN (num ()); PedPartitionFlag f = ped_partition_flag_get_by_name (tok ()); int v = num ();
    if (!p || !f) { ok = 0; snprintf (extra, sizeof extra, ",\"nop\":1"); } else { int av = ped_partition_is_flag_available (p, f); snprintf (extra, sizeof extra, ",\"avail\":%d", av); ok = ped_partition_set_flag (p, f, v); } }
  else if (!strcmp (c, "dflag")) { k = num (); PedDiskFlag f = ped_disk_flag_get_by_name (tok ()); int v = num ();
    if (!f) { ok = 0; } else { int av = ped_disk_is_flag_available (D, f); snprintf (extra, sizeof extra, ",\"avail\":%d", av); ok = ped_disk_set_flag (D, f, v); } }
  else if (!strcmp (c, "name")) { k = num (); PedPartition *p = PARTN (num ()); char *nm = unhex (tok ());
    if (!p || !ped_disk_type_check_feature (D->type, PED_DISK_TYPE_PARTITION_NAME)) { ok = 0; snprintf (extra, sizeof extra, ",\"nop\":1"); } else ok = ped_partition_set_name (p, nm); free (nm); }
  else if (!strcmp (c, "system")) { k = num (); PedPartition *p = PARTN (num ()); PedFileSystemType *fs = fsget (tok ());
    if (!p) { ok = 0; snprintf (extra, sizeof extra, ",\"nop\":1"); } else ok = ped_partition_set_system (p, fs); }
  else if (!strcmp (c, "typeid")) { k = num (); PedPartition *p = PARTN (num ()); int v = num ();
    if (!p || !ped_disk_type_check_feature (D->type, PED_DISK_TYPE_PARTITION_TYPE_ID)) { ok = 0; snprintf (extra, sizeof extra, ",\"nop\":1"); } else ok = ped_partition_set_type_id (p, v); }
  else if (!strcmp (c, "typeuuid")) { k = num (); PedPartition *p = PARTN (num ()); char *u = unhex (tok ());
    if (!p || !ped_disk_type_check_feature (D->type, PED_DISK_TYPE_PARTITION_TYPE_UUID)) { ok = 0; snprintf (extra, sizeof extra, ",\"nop\":1"); } else ok = ped_partition_set_type_uuid (p, (uint8_t *) u); free (u); }
  else if (!strcmp (c, "dup")) { int k0 = num (); k = num (); if (dsk[k]) ped_disk_destroy (dsk[k]); dskdev[k] = dskdev[k0]; dsk[k] = ped_disk_duplicate (dsk[k0]); ok = dsk[k] != NULL; }
  else if (!strcmp (c, "destroy")) { k = num (); if (D) ped_disk_destroy (D); D = NULL; force_nostate = 1; }
  else if (!strcmp (c, "commit")) { k = num (); mem_jclear (D->dev); ok = ped_disk_commit_to_dev (D); }
  else if (!strcmp (c, "commitfull")) { k = num (); mem_jclear (D->dev); ok = ped_disk_commit (D); }
  else if (!strcmp (c, "check")) { k = num (); ok = ped_disk_check (D); }
  else if (!strcmp (c, "state")) { k = num (); }
  else if (!strcmp (c, "fsprobe")) { di = num (); long long s = num (), n = num (); PedGeometry *g = ped_geometry_new (dev[di], s, n); PedFileSystemType *t = g ? ped_file_system_probe (g) : NULL;
    snprintf (extra, sizeof extra, ",\"fs\":\"%s\"", t ? t->name : "-"); if (g) ped_geometry_destroy (g); }
  else if (!strcmp (c, "jclear")) { di = num (); mem_jclear (dev[di]); MD (dev[di])->jdata = num (); }
  else if (!strcmp (c, "jlist")) { di = num (); }
  else if (!strcmp (c, "fail")) { di = num (); char *w = tok (); long n = num (); int st = num (); MemDev *m = MD (dev[di]); m->fail_sticky = st;
    if (*w == 'r') m->fail_read = n; else if (*w == 'w') m->fail_write = n; else m->fail_sync = n; }
  else if (!strcmp (c, "badread")) { di = num (); MD (dev[di])->bad_lo = num (); MD (dev[di])->bad_hi = num (); }
  else if (!strcmp (c, "poke")) { di = num (); long long s = num (), off = num (); char *h = tok (); char *b = unhex (h); unsigned char buf[dev[di]->sector_size]; mem_get (dev[di], s, buf); memcpy (buf + off, b, strlen (h) / 2); mem_put (dev[di], s, buf); free (b); }
  else if (!strcmp (c, "xor")) { di = num (); long long s = num (), off = num (); int x = num (); unsigned char buf[dev[di]->sector_size]; mem_get (dev[di], s, buf); buf[off] ^= x; mem_put (dev[di], s, buf); }
  else if (!strcmp (c, "peek")) { di = num (); long long s = num (), off = num (), n = num (); unsigned char buf[dev[di]->sector_size]; mem_get (dev[di], s, buf); char *p = extra; p += sprintf (p, ",\"hex\":\""); for (int i = 0; i < n; i++) p += sprintf (p, "%02x", buf[off + i]); sprintf (p, "\""); }
  else if (!strcmp (c, "gptdec")) { di = num (); gptdec (dev[di], extra); }
  else if (!strcmp (c, "gptset")) { /* gptset DEV LBA OFF BYTES VALUE: a header field, and the header's checksum made to match */
    di = num (); long long lba = num (); int off = num (), n = num (); unsigned long long v = strtoull (tok (), 0, 0); unsigned char b[dev[di]->sector_size]; mem_get (dev[di], lba, b);
    for (int i = 0; i < n; i++) b[off + i] = v >> 8 * i; uint32_t hs = le (b + 12, 4); memset (b + 16, 0, 4); uint32_t q = crc_of (b, hs < dev[di]->sector_size ? hs : dev[di]->sector_size);
    for (int i = 0; i < 4; i++) b[16 + i] = q >> 8 * i; mem_put (dev[di], lba, b); }
  else if (!strcmp (c, "copy")) { di = num (); long long a = num (), b = num (), n = num (); unsigned char buf[dev[di]->sector_size]; for (long long i = 0; i < n; i++) { mem_get (dev[di], a + i, buf); mem_put (dev[di], b + i, buf); } }
  else if (!strcmp (c, "crash")) { /* crash SRC DST N: DST = SRC's device as it was at jclear + first N sector writes. Only valid with a snapshot; see snap */
    ok = 0; }
  else if (!strcmp (c, "snap")) { /* snap A B: device B becomes a copy of device A */ int a = num (); di = num (); PedDevice *s = dev[a]; char nm[32]; snprintf (nm, 32, "/mem/%d", di); if (dev[di]) ped_device_destroy (dev[di]);
    dev[di] = mem_device (nm, s->length, s->sector_size, s->bios_geom.heads, s->bios_geom.sectors, MD (s)->bg);
    for (size_t i = 0; i < MD (s)->st.cap; i++) if (MD (s)->st.tab[i].data) mem_put (dev[di], MD (s)->st.tab[i].sec, MD (s)->st.tab[i].data); }
  else if (!strcmp (c, "replay")) { /* replay A B N: apply the first N sector writes of A's journal to device B */ int a = num (); di = num (); long n = num (); MemDev *m = MD (dev[a]); long i = 0; size_t ss = dev[a]->sector_size;
    for (size_t j = 0; j < m->jn && i < n; j++) for (long q = 0; q < m->j[j].count && i < n; q++, i++) mem_put (dev[di], m->j[j].start + q, m->j[j].data + q * ss); snprintf (extra, sizeof extra, ",\"applied\":%ld", i); }
  else if (!strcmp (c, "jcount")) { di = num (); MemDev *m = MD (dev[di]); long n = 0; for (size_t j = 0; j < m->jn; j++) n += m->j[j].count; snprintf (extra, sizeof extra, ",\"n\":%ld", n); }
  else if (!strcmp (c, "setlen")) { di = num (); dev[di]->length = num (); }
  else if (!strcmp (c, "digest")) { di = num (); }
  else { ok = 0; snprintf (extra, sizeof extra, ",\"unknown\":1"); }
out:;
  int inside = nexc, pend = ped_exception; long lost = io_lost, ioe = io_errs, ioi = io_ign, low = io_lostw; if (sect) ped_exception_leave_all ();
  copy[strcspn (copy, "\n")] = 0;
  printf ("{\"c\":\"%s\",\"ok\":%d,\"x\":%d,\"xe\":%d,\"xt\":%d,\"xo\":%d,\"xm\":\"%s\"%s", copy, !!ok, nexc, excerr, exctype, excopts, exclast, extra);
  int dd = di >= 0 ? di : k >= 0 ? dskdev[k] : -1;
  if (dd >= 0 && dev[dd]) {
    uint64_t h = mem_digest (dev[dd]); printf (",\"dg\":\"%016llx\",\"nw\":%ld", (unsigned long long) h, MD (dev[dd])->nwrite);
    if (!strcmp (c, "jlist") || !strncmp (c, "commit", 6)) { printf (",\"wr\":"); put_list (dev[dd]); }
  }
  if (watch) { int n0 = nexc, b; if (ped_exception) ped_exception_catch (); b = balanced (); nexc = n0; printf (",\"sect\":%d,\"in\":%d,\"pend\":%d,\"bal\":%d,\"lost\":%ld,\"io\":%ld,\"ign\":%ld,\"lostw\":%ld", sect, inside, pend, b, lost, ioe, ioi, low); }
  if (stray_io) printf (",\"stray\":%ld", stray_io);
  if (k >= 0 && !force_nostate) { printf (",\"st\":"); put_state (k); }
  printf ("}\n");
  if (ped_exception) { ped_exception_catch (); }
}
/* after a command the next exception must reach the handler, once */
static int balanced (void)
{ nexc = 0; nans = ians = 0; PedExceptionOption r = ped_exception_throw (PED_EXCEPTION_INFORMATION, PED_EXCEPTION_CANCEL, "probe"); return nexc == 1 && r == PED_EXCEPTION_CANCEL && !ped_exception; }

int main (int argc, char **argv)
{
  mem_install ();
  ped_exception_set_handler (handler);
  setvbuf (stdout, NULL, _IOFBF, 1 << 20);
  size_t cap = 1 << 20, n = 0; char *in = malloc (cap);
  for (ssize_t r; (r = read (0, in + n, cap - n - 1)) > 0; ) { n += r; if (n + 1 >= cap) in = realloc (in, cap *= 2); }
  in[n] = 0;
  char *p = in;
  while (*p) {
    char *e = strchr (p, '\n'); if (!e) break; *e = 0;
    if (!strncmp (p, "begin", 5)) {
      char *body = e + 1; char *fin = strstr (body, "\nend\n"); char *stop = fin ? fin + 1 : in + n;
      printf ("{\"c\":\"%s\"}\n", p); fflush (stdout);
      pid_t pid = fork ();
      if (!pid) {
        alarm (20);
        char *q = body;
        while (q < stop) { char *ee = memchr (q, '\n', stop - q); if (!ee) break; *ee = 0; run (q); q = ee + 1; if (getenv ("VERIF_FLUSH")) fflush (stdout); }
        fflush (stdout); _exit (0);
      }
      int st; waitpid (pid, &st, 0);
      static int hangs;
      if (WIFSIGNALED (st) && WTERMSIG (st) == SIGALRM && ++hangs > 2) { printf ("{\"c\":\"stopped\",\"ok\":0}\n"); break; }
      if (WIFSIGNALED (st)) printf ("{\"c\":\"crash\",\"ok\":0,\"sig\":%d}\n", WTERMSIG (st));
      p = stop; if (fin) p += 4;
    } else { run (p); p = e + 1; }
  }
  fflush (stdout);
  return 0;
}
