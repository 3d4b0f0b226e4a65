// Alignments, geometries and constraints: one JSON line per command.
#include <config.h>
#include <parted/parted.h>
#include <parted/natmath.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#define NONE (-77777)
static FILE *out;
static PedDevice dev, dev2;
static long long K = 1, B = 0;
static int nx;
static PedExceptionOption handler (PedException *e) { nx++; return PED_EXCEPTION_CANCEL; }
static char *tok (void) { char *t = strtok (NULL, " \n"); return t ? t : (char *) ""; }
static long long num (void) { return strtoll (tok (), NULL, 0); }
static long long in (long long v) { return v * K + B; }
static long long back (long long v) { return (v - B) % K ? -99999 : (v - B) / K > 9999999 || (v - B) / K < -9999999 ? -88888 : (v - B) / K; }
static PedAlignment *al (long long o, long long g) { return ped_alignment_new (in (o), g * K); }
static void pal (PedAlignment *a)
{
  if (!a) { fprintf (out, "[-1,-1]"); return; }
  if (a->grain_size % K) { fprintf (out, "[0,-99999]"); return; }
  long long g = a->grain_size / K, o;
  if (!g) o = back (a->offset);
  else { o = (a->offset - B) % a->grain_size; if (o < 0) o += a->grain_size; o = o % K ? -99999 : o / K; }
  fprintf (out, "[%lld,%lld]", o, g);
}
static PedGeometry *geo (PedGeometry *g, long long a, long long b) { if (a > b) return NULL; ped_geometry_init (g, &dev, in (a), in (b) - in (a) + 1); return g; }
#define NC 16
static PedConstraint *con[NC];

static void run (char *line)
{
  char copy[512]; snprintf (copy, sizeof copy, "%s", line); copy[strcspn (copy, "\n")] = 0;
  char *c = strtok (line, " \n"); if (!c) return;
  nx = 0;
  fprintf (out, "{\"c\":\"%s\",\"ok\":1", copy);
  if (!strcmp (c, "len")) { dev.length = num (); }
  else if (!strcmp (c, "scale")) { K = num (); B = num (); dev.length = B + 1000 * K; }
  else if (!strcmp (c, "rnd")) { long long s = num () * K, g = num () * K;
    long long u = ped_round_up_to (s, g), d = ped_round_down_to (s, g), n = ped_round_to_nearest (s, g);
    fprintf (out, ",\"r\":[%lld,%lld,%lld]", u % K ? -99999 : u / K, d % K ? -99999 : d / K, n % K ? -99999 : n / K); }
  else if (!strcmp (c, "gcd")) { long long g = ped_greatest_common_divisor (num () * K, num () * K); fprintf (out, ",\"r\":[%lld]", g % K ? -99999 : g / K); }
  else if (!strcmp (c, "al")) {
    long long o = num (), g = num (), lo = num (), hi = num (), a = num (), b = num ();
    PedAlignment *A = al (o, g), *D = ped_alignment_duplicate (A); PedGeometry G, *P = geo (&G, lo, hi);
    fprintf (out, ",\"al\":"); pal (D); 
    if (A) {
      fprintf (out, ",\"r\":[");
      for (long long s = a; s <= b; s++) {
        long long x[3] = { ped_alignment_align_up (A, P, in (s)), ped_alignment_align_down (A, P, in (s)), ped_alignment_align_nearest (A, P, in (s)) };
        for (int i = 0; i < 3; i++) x[i] = P && x[i] == -1 ? NONE : back (x[i]);
        fprintf (out, "%s[%lld,%lld,%lld,%d]", s > a ? "," : "", x[0], x[1], x[2], ped_alignment_is_aligned (A, P, in (s)));
      }
      fprintf (out, "]");
    } else fprintf (out, ",\"r\":[]");
    ped_alignment_destroy (A); ped_alignment_destroy (D);
  }
  else if (!strcmp (c, "meet")) { long long o = num (), g = num (), o2 = num (), g2 = num (); PedAlignment *A = al (o, g), *A2 = al (o2, g2), *R = ped_alignment_intersect (A, A2);
    fprintf (out, ",\"al\":"); pal (R); }
  else if (!strcmp (c, "geo")) {
    long long a = num (), b = num (), e = num (), d = num (); PedGeometry G, H; geo (&G, a, b); geo (&H, e, d);
    PedGeometry *R = ped_geometry_intersect (&G, &H), *D = ped_geometry_duplicate (&G);
    fprintf (out, ",\"meet\":[%lld,%lld],\"len\":%d,\"over\":%d,\"inside\":%d,\"eq\":%d,\"dup\":%d", R ? back (R->start) : 1, R ? back (R->end) : 0, R ? R->length == R->end - R->start + 1 : 1, ped_geometry_test_overlap (&G, &H),
      ped_geometry_test_inside (&G, &H), ped_geometry_test_equal (&G, &H), ped_geometry_test_equal (&G, D));
    PedGeometry X; ped_geometry_init (&X, &dev2, H.start, H.length);     /* the same place on another device */
    fprintf (out, ",\"other\":[%d,%d,%d,%d,%d]", ped_geometry_intersect (&G, &X) != NULL, ped_geometry_test_overlap (&G, &X), ped_geometry_test_inside (&G, &X), ped_geometry_test_equal (&G, &X), ped_geometry_map (&G, &X, X.start) >= 0);
    fprintf (out, ",\"map\":[");
    for (long long s = -1; s <= d - e + 1 && K == 1; s++) fprintf (out, "%s%lld", s > -1 ? "," : "", (long long) ped_geometry_map (&G, &H, s));
    fprintf (out, "],\"sec\":[");
    for (long long s = a - 2; s <= b + 2; s++) fprintf (out, "%s%d", s > a - 2 ? "," : "", ped_geometry_test_sector_inside (&G, in (s)));
    PedGeometry S = G; int r1 = ped_geometry_set_start (&S, in (e)); fprintf (out, "],\"ss\":[%d,%lld,%lld,%d]", r1, back (S.start), back (S.end), S.length == S.end - S.start + 1);
    S = G; r1 = ped_geometry_set_end (&S, in (d)); fprintf (out, ",\"se\":[%d,%lld,%lld,%d]", r1, back (S.start), back (S.end), S.length == S.end - S.start + 1);
    if (R) ped_geometry_destroy (R); ped_geometry_destroy (D);
  }
  else if (!strncmp (c, "con", 3) || !strncmp (c, "c_", 2)) {
    int i = num (); PedConstraint *N = NULL;
    if (!strcmp (c, "con")) {
      long long so = num (), sg = num (), eo = num (), eg = num (), sl = num (), sh = num (), el = num (), eh = num (), mn = num (), mx = num ();
      PedAlignment *sa = al (so, sg), *ea = al (eo, eg); PedGeometry S, E; geo (&S, sl, sh); geo (&E, el, eh);
      N = ped_constraint_new (sa, ea, &S, &E, mn, mx);
    }
    else if (!strcmp (c, "c_meet")) { int a = num (), b = num (); N = ped_constraint_intersect (con[a], con[b]); }
    else if (!strcmp (c, "c_dup")) N = ped_constraint_duplicate (con[num ()]);
    else if (!strcmp (c, "c_any")) N = ped_constraint_any (&dev);
    else if (!strcmp (c, "c_min")) { long long a = num (), b = num (); PedGeometry G; N = ped_constraint_new_from_min (geo (&G, a, b)); }
    else if (!strcmp (c, "c_max")) { long long a = num (), b = num (); PedGeometry G; N = ped_constraint_new_from_max (geo (&G, a, b)); }
    else if (!strcmp (c, "c_minmax")) { long long a = num (), b = num (), e = num (), d = num (); PedGeometry G, H; geo (&G, a, b); geo (&H, e, d); N = ped_constraint_new_from_min_max (&G, &H); }
    else if (!strcmp (c, "c_exact")) { long long a = num (), b = num (); PedGeometry G; N = ped_constraint_exact (geo (&G, a, b)); }
    else if (!strcmp (c, "c_dev")) N = ped_device_get_constraint (&dev);
    con[i] = N;
    if (!N) fprintf (out, ",\"con\":[]");
    else {
      fprintf (out, ",\"con\":[{\"sa\":"); pal (N->start_align); fprintf (out, ",\"ea\":"); pal (N->end_align);
      fprintf (out, ",\"sl\":%lld,\"sh\":%lld,\"el\":%lld,\"eh\":%lld,\"mn\":%lld,\"mx\":%lld}]", back (N->start_range->start), back (N->start_range->end), back (N->end_range->start), back (N->end_range->end), N->min_size, N->max_size);
    }
    long long lo = num (), n = num ();
    if (n == 0) { lo = 0; n = dev.length; }
    fprintf (out, ",\"lo\":%lld,\"n\":%lld,\"sol\":[", lo, n);
    for (long long s = lo; N && s < lo + n; s++) for (long long e = s; e < lo + n; e++) { PedGeometry G; geo (&G, s, e); fprintf (out, "%s%d", s > lo || e > s ? "," : "", ped_constraint_is_solution (N, &G)); }
    fprintf (out, "],\"near\":[");
    for (long long s = lo; s < lo + n; s++) for (long long e = s; e < lo + n; e++) {
      PedGeometry G; geo (&G, s, e); PedGeometry *R = ped_constraint_solve_nearest (N, &G);
      fprintf (out, "%s[%lld,%lld]", s > lo || e > s ? "," : "", R ? back (R->start) : NONE, R ? back (R->end) : NONE); if (R) ped_geometry_destroy (R);
    }
    PedGeometry *R = ped_constraint_solve_max (N);
    fprintf (out, "],\"max\":[%lld,%lld]", R ? back (R->start) : NONE, R ? back (R->end) : NONE); if (R) ped_geometry_destroy (R);
  }
  else fprintf (out, ",\"unknown\":1");
  fprintf (out, ",\"x\":%d,\"pend\":%d}\n", nx, ped_exception); fflush (out);
}

int main (int argc, char **argv)
{
  out = stdout; dev.length = dev2.length = 10; dev.sector_size = dev2.sector_size = 512;
  size_t cap = 1 << 20, n = 0; char *in_ = malloc (cap);
  for (ssize_t r; (r = read (0, in_ + n, cap - n - 1)) > 0; ) { n += r; if (n + 1 >= cap) in_ = realloc (in_, cap *= 2); }
  in_[n] = 0; char *p = in_;
  while (*p) {
    char *e = strchr (p, '\n'); if (!e) break; *e = 0;
    if (!strncmp (p, "begin", 5)) {
      char *body = e + 1, *fin = strstr (body, "\nend\n"); char *stop = fin ? fin + 1 : in_ + n;
      fprintf (out, "{\"c\":\"%s\"}\n", p); fflush (out);
      pid_t pid = fork ();
      if (!pid) {
        alarm (20); ped_exception_set_handler (handler);
        char *q = body; while (q < stop) { char *ee = memchr (q, '\n', stop - q); if (!ee) break; *ee = 0; run (q); q = ee + 1; }
        _exit (0);
      }
      int st; waitpid (pid, &st, 0);
      if (WIFSIGNALED (st)) fprintf (out, "{\"c\":\"crash\",\"ok\":0,\"sig\":%d}\n", WTERMSIG (st));
      p = stop; if (fin) p += 4;
    } else p = e + 1;
  }
  fflush (out);
  return 0;
}
