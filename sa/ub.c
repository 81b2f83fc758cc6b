/* an upper bound of a linear form: multiples of facts are subtracted until the bounds of single symbols settle it
   (the same search as Ub in engine.py; anything that does not fit 127 bits counts as unbounded, which loses bounds and never invents one) */
#include <stdint.h>
#include <string.h>
#include <stdlib.h>

typedef __int128 num;
#define MAXN 12
#define LIM (((num)1) << 125)
#define INFV (((num)1) << 126)

struct form { num c; int n; int32_t s[MAXN]; num k[MAXN]; };
struct fact { num c; int n, op; int32_t *s; num *k; };
struct occ { int f, i; };
struct memo { uint64_t h; int used, depth; struct form l; num best; };

static int32_t *ids; static int idcap;
static num *lo, *hi;
static struct fact *F; static int nf;
static int *first; static struct occ *occs;
static struct memo *M; static unsigned mcap, mcnt;
static num target; static int has_target;

static uint64_t hash(const struct form *l, int depth)
{
    uint64_t h = 1469598103934665603ull ^ (uint64_t)depth;
    h = (h ^ (uint64_t)l->c) * 1099511628211ull; h = (h ^ (uint64_t)(l->c >> 64)) * 1099511628211ull;
    for (int i = 0; i < l->n; i++) {
        h = (h ^ (uint64_t)l->s[i]) * 1099511628211ull;
        h = (h ^ (uint64_t)l->k[i]) * 1099511628211ull;
        h ^= h >> 29;
    }
    return h | 1;
}

static int same(const struct form *a, const struct form *b)
{
    return a->c == b->c && a->n == b->n && !memcmp(a->s, b->s, a->n * sizeof *a->s) && !memcmp(a->k, b->k, a->n * sizeof *a->k);
}

static struct memo *slot(const struct form *l, int depth)
{
    uint64_t h = hash(l, depth);
    unsigned i = (unsigned)(h >> 1) & (mcap - 1);
    while (M[i].used && !(M[i].h == h && M[i].depth == depth && same(&M[i].l, l))) i = (i + 1) & (mcap - 1);
    M[i].h = h;
    return &M[i];
}

static void grow(void)
{
    struct memo *o = M; unsigned oc = mcap;
    mcap *= 2; M = calloc(mcap, sizeof *M);
    for (unsigned i = 0; i < oc; i++) if (o[i].used) { struct memo *x = slot(&o[i].l, o[i].depth); *x = o[i]; }
    free(o);
}

static num top(const struct form *l)
{
    num h = l->c, t;
    for (int i = 0; i < l->n; i++) {
        num b = l->k[i] < 0 ? lo[l->s[i]] : hi[l->s[i]];
        if (b >= LIM || b <= -LIM) return INFV;
        if (__builtin_mul_overflow(l->k[i], b, &t) || __builtin_add_overflow(h, t, &h) || h >= LIM || h <= -LIM) return INFV;
    }
    return h;
}

static num run(const struct form *l, int depth, num best)
{
    struct memo *m = slot(l, depth);
    if (m->used) return m->best;
    int room = depth == 3 ? l->n + 1 : l->n;
    if (room > MAXN) room = MAXN;
    for (int p = 0; p < l->n; p++) {
        int s = l->s[p];
        num a = l->k[p];
        for (int o = first[s]; o < first[s + 1]; o++) {
            const struct fact *g = &F[occs[o].f];
            num c = g->k[occs[o].i];
            if (a % c) continue;
            num k = a / c, t;
            if (k < 0 && g->op != 1) continue;
            struct form d; int i = 0, j = 0, bad = 0;
            d.n = 0;
            while (i < l->n || j < g->n) {          /* both are sorted by symbol */
                num v; int y;
                if (j >= g->n || (i < l->n && l->s[i] < g->s[j])) { y = l->s[i]; v = l->k[i]; i++; }
                else {
                    if (__builtin_mul_overflow(k, g->k[j], &t)) { bad = 1; break; }
                    y = g->s[j];
                    v = 0;
                    if (i < l->n && l->s[i] == y) { v = l->k[i]; i++; }
                    j++;
                    if (__builtin_sub_overflow(v, t, &v)) { bad = 1; break; }
                }
                if (!v) continue;
                if (d.n >= room) { bad = 1; break; }
                d.s[d.n] = y; d.k[d.n] = v; d.n++;
            }
            if (bad || __builtin_mul_overflow(k, g->c, &t) || __builtin_sub_overflow(l->c, t, &d.c)) continue;
            num r = top(&d);
            if (depth > 1 && d.n && (!has_target || r > target)) r = run(&d, depth - 1, r);
            if (r < best) {
                best = r;
                if (has_target && best <= target) return best;
            }
        }
    }
    if (mcnt * 2 > mcap) grow();
    m = slot(l, depth);
    if (!m->used) { m->used = 1; m->depth = depth; m->l = *l; mcnt++; }
    m->best = best;
    return best;
}

static num rd(const char *p) { num v; memcpy(&v, p, 16); return v; }
static int32_t r32(const char *p) { int32_t v; memcpy(&v, p, 4); return v; }

/* pool: count, then per symbol: id (4), pad (4), lo (16), hi (16)
   facts and form: count of terms (4), op (4), const (16), then per term: id (4), pad (4), factor (16) */
static int have;

void ub_load(const char *pool, int np, const char *facts, int nfacts)
{
    static int32_t *sbuf; static num *kbuf;
    int maxid = 0, terms = 0;
    for (int i = 0; i < np; i++) { int x = r32(pool + i * 40); if (x > maxid) maxid = x; }
    if (maxid >= idcap) {
        ids = realloc(ids, sizeof *ids * (maxid + 1024));
        memset(ids + idcap, -1, sizeof *ids * (maxid + 1024 - idcap));
        idcap = maxid + 1024;
    }
    lo = realloc(lo, sizeof *lo * (np + 1)); hi = realloc(hi, sizeof *hi * (np + 1));
    memset(ids, -1, sizeof *ids * idcap);
    for (int i = 0; i < np; i++) { const char *p = pool + i * 40; ids[r32(p)] = i; lo[i] = rd(p + 8); hi[i] = rd(p + 24); }
    const char *p = facts;
    for (int i = 0; i < nfacts; i++) { int n = r32(p); terms += n; p += 24 + 24 * n; }
    F = realloc(F, sizeof *F * (nfacts + 1)); sbuf = realloc(sbuf, sizeof *sbuf * (terms + 1)); kbuf = realloc(kbuf, sizeof *kbuf * (terms + 1));
    first = realloc(first, sizeof *first * (np + 2)); occs = realloc(occs, sizeof *occs * (terms + 1));
    memset(first, 0, sizeof *first * (np + 2));
    int t = 0; nf = nfacts; p = facts;
    for (int i = 0; i < nfacts; i++) {
        struct fact *f = &F[i];
        f->n = r32(p); f->op = r32(p + 4); f->c = rd(p + 8); f->s = sbuf + t; f->k = kbuf + t; p += 24;
        for (int j = 0; j < f->n; j++, p += 24) {
            int x = ids[r32(p)]; num k = rd(p + 8); int q = j;
            while (q > 0 && f->s[q - 1] > x) { f->s[q] = f->s[q - 1]; f->k[q] = f->k[q - 1]; q--; }
            f->s[q] = x; f->k[q] = k;
            first[x + 1]++;
        }
        t += f->n;
    }
    for (int i = 0; i < np; i++) first[i + 1] += first[i];
    int *at = malloc(sizeof *at * (np + 1));
    memcpy(at, first, sizeof *at * (np + 1));
    for (int i = 0; i < nf; i++) for (int j = 0; j < F[i].n; j++) { struct occ *o = &occs[at[F[i].s[j]]++]; o->f = i; o->i = j; }
    free(at);
    have = 0;
}

/* 0: a number is in out; 1: no bound; 2: the form cannot be handled here */
int ub_run(const char *form, int depth, const char *best, int ht, const char *tg, char *out)
{
    struct form l;
    memset(&l, 0, sizeof l);
    l.n = r32(form); l.c = rd(form + 8);
    if (l.n > MAXN) return 2;
    const char *p = form + 24;
    for (int j = 0; j < l.n; j++, p += 24) {
        int x = r32(p) < idcap ? ids[r32(p)] : -1, q = j; num k = rd(p + 8);
        if (x < 0) return 2;
        while (q > 0 && l.s[q - 1] > x) { l.s[q] = l.s[q - 1]; l.k[q] = l.k[q - 1]; q--; }
        l.s[q] = x; l.k[q] = k;
    }
    num b = rd(best), g = rd(tg);
    if (!have || has_target != ht || (ht && target != g)) {
        if (!M) { mcap = 1024; M = calloc(mcap, sizeof *M); }
        else if (mcap > 65536) { free(M); mcap = 1024; M = calloc(mcap, sizeof *M); }
        else memset(M, 0, sizeof *M * mcap);
        mcnt = 0; has_target = ht; target = g; have = 1;
    }
    num r = run(&l, depth, b);
    if (r >= LIM) return 1;
    memcpy(out, &r, 16);
    return 0;
}
