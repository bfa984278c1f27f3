/* Fourier-Motzkin elimination with integer tightening over dense rows (the
   same algorithm as fm_infeasible in lin.py, which is used when this cannot be
   compiled or a number does not fit). */

#include <stdint.h>
#include <stdlib.h>
#include <string.h>

typedef __int128 num;

#define MAXV 64
#define CAP 600

typedef struct {
    num c;
    int64_t t[MAXV];
    uint64_t used;
} row;

static num gcd(num a, num b)
{
    if (a < 0) {
        a = -a;
    }
    if (b < 0) {
        b = -b;
    }
    while (b != 0) {
        num r = a % b;
        a = b;
        b = r;
    }
    return a;
}

static num floordiv(num a, num b)
{
    num q = a / b;
    if (a % b != 0 && ((a < 0) != (b < 0))) {
        q--;
    }
    return q;
}

typedef struct {
    row *r;
    int n;
    int32_t hash[4096];
} table;

static uint32_t hash_row(const row *r)
{
    uint64_t h = r->used * 0x9e3779b97f4a7c15ull;
    for (uint64_t u = r->used; u; u &= u - 1) {
        int v = __builtin_ctzll(u);
        h = (h ^ (uint64_t)r->t[v]) * 0x9e3779b97f4a7c15ull;
        h ^= h >> 29;
    }
    return (uint32_t)(h >> 32) & 4095;
}

static int same(const row *a, const row *b)
{
    if (a->used != b->used) {
        return 0;
    }
    for (uint64_t u = a->used; u; u &= u - 1) {
        int v = __builtin_ctzll(u);
        if (a->t[v] != b->t[v]) {
            return 0;
        }
    }
    return 1;
}

static int put(table *t, const row *r, int cap)
{
    uint32_t h = hash_row(r);
    while (t->hash[h] >= 0) {
        row *o = &t->r[t->hash[h]];
        if (same(o, r)) {
            if (r->c < o->c) {
                o->c = r->c;
            }
            return 0;
        }
        h = (h + 1) & 4095;
    }
    if (t->n >= cap) {
        return -1;
    }
    t->hash[h] = t->n;
    t->r[t->n++] = *r;
    return 0;
}


static int64_t gcd64(int64_t a, int64_t b)
{
    return (int64_t)gcd(a, b);
}

static num load(const int64_t *p)
{
    return (num)(((unsigned __int128)(uint64_t)p[1] << 64) | (uint64_t)p[0]);
}

typedef struct {
    num lo[MAXV];
    num hi[MAXV];
    uint64_t haslo;
    uint64_t hashi;
} box;

/* p * mp + n * mn without variable w; 0: a row, 1: nothing new, 2: a
   contradiction, -1: does not fit */
static int combine(const row *p, const row *n, int w, const box *bx, row *r)
{
    int64_t g = gcd64(p->t[w], n->t[w]);
    int64_t mp = -(n->t[w] / g), mn = p->t[w] / g, d = 0;

    r->used = 0;
    for (uint64_t u = p->used | n->used; u; u &= u - 1) {
        int v = __builtin_ctzll(u);
        int64_t x = 0, y = 0;
        if ((p->used >> v & 1) && __builtin_mul_overflow(p->t[v], mp, &x)) {
            return -1;
        }
        if ((n->used >> v & 1) && __builtin_mul_overflow(n->t[v], mn, &y)) {
            return -1;
        }
        if (__builtin_add_overflow(x, y, &x) || x == INT64_MIN) {
            return -1;
        }
        if (x) {
            r->used |= 1ull << v;
            r->t[v] = x;
            d = gcd64(d, x);
        }
    }
    num x, y;
    if (__builtin_mul_overflow(p->c, (num)mp, &x)
        || __builtin_mul_overflow(n->c, (num)mn, &y)
        || __builtin_add_overflow(x, y, &r->c)) {
        return -1;
    }
    if (!r->used) {
        return r->c < 0 ? 2 : 1;
    }
    if (d > 1) {
        for (uint64_t u = r->used; u; u &= u - 1) {
            r->t[__builtin_ctzll(u)] /= d;
        }
        r->c = floordiv(r->c, d);
    }
    if (r->used & (r->used - 1)) {
        num l = r->c;
        for (uint64_t u = r->used; u; u &= u - 1) {
            int v = __builtin_ctzll(u);
            if (!((r->t[v] > 0 ? bx->haslo : bx->hashi) >> v & 1)) {
                return 0;
            }
            num k;
            if (__builtin_mul_overflow((num)r->t[v], r->t[v] > 0 ? bx->lo[v]
                                       : bx->hi[v], &k)
                || __builtin_add_overflow(l, k, &l)) {
                return 0;
            }
        }
        if (l >= 0) {
            return 1;
        }
    }
    return 0;
}

#define ROWS 1600

/* nrows rows of nv coefficients, their constants (two words each), bounds
   (two words each, present as given by the masks) and the row of the goal.
   Returns 1: no solution, 0: a point, -1: no answer, -2: does not fit. */
int fm(int nrows, int nv, const int64_t *coef, const int64_t *con,
       const int64_t *lo, const int64_t *hi, uint64_t haslo, uint64_t hashi,
       const int64_t *goal, int64_t *point)
{
    if (nv > MAXV || nrows + 1 > ROWS - CAP) {
        return -2;
    }
    static table ta, tb;
    static row ra[ROWS], rb[ROWS];
    static row *saved;
    static int capsaved;
    table *a = &ta, *b = &tb;
    int nsaved = 0;
    int order[MAXV], first[MAXV], count[MAXV], nsteps = 0;
    int res = -1;
    box bx;

    bx.haslo = haslo;
    bx.hashi = hashi;
    for (int v = 0; v < nv; v++) {
        bx.lo[v] = load(&lo[2 * v]);
        bx.hi[v] = load(&hi[2 * v]);
    }
    a->r = ra;
    b->r = rb;
    a->n = 0;
    memset(a->hash, -1, sizeof(a->hash));
    for (int i = -1; i < nrows; i++) {
        const int64_t *c;
        row r;
        r.used = 0;
        if (i < 0) {
            if (goal == NULL) {
                continue;
            }
            c = goal;
            r.c = load(&goal[nv]);
        } else {
            c = &coef[i * nv];
            r.c = load(&con[2 * i]);
        }
        for (int v = 0; v < nv; v++) {
            if (c[v]) {
                r.t[v] = c[v];
                r.used |= 1ull << v;
            }
        }
        if (!r.used) {
            if (r.c < 0) {
                res = 1;
                goto out;
            }
            continue;
        }
        put(a, &r, ROWS);
    }
    /* the goal and one row */
    if (goal != NULL && a->n > 0) {
        const row *g = &a->r[0];
        for (int i = 1; i < a->n; i++) {
            const row *r = &a->r[i];
            num h = 0;
            int ok = !__builtin_add_overflow(g->c, r->c, &h);
            for (uint64_t u = ok ? g->used | r->used : 0; u; u &= u - 1) {
                int v = __builtin_ctzll(u);
                int64_t x = (g->used >> v & 1) ? g->t[v] : 0;
                num k;
                if (((r->used >> v & 1)
                     && __builtin_add_overflow(x, r->t[v], &x))) {
                    ok = 0;
                    break;
                }
                if (x == 0) {
                    continue;
                }
                if (!((x > 0 ? hashi : haslo) >> v & 1)
                    || __builtin_mul_overflow((num)x, x > 0 ? bx.hi[v]
                                              : bx.lo[v], &k)
                    || __builtin_add_overflow(h, k, &h)) {
                    ok = 0;
                    break;
                }
            }
            if (ok && h < 0) {
                res = 1;
                goto out;
            }
        }
    }
    while (a->n) {
        int pos[MAXV] = {0}, neg[MAXV] = {0};
        for (int i = 0; i < a->n; i++) {
            for (uint64_t u = a->r[i].used; u; u &= u - 1) {
                int v = __builtin_ctzll(u);
                if (a->r[i].t[v] > 0) {
                    pos[v]++;
                } else {
                    neg[v]++;
                }
            }
        }
        int best = -1;
        long bc = 0;
        for (int v = 0; v < nv; v++) {
            if (pos[v] || neg[v]) {
                long c = (long)pos[v] * neg[v] - pos[v] - neg[v];
                if (best < 0 || c < bc) {
                    best = v;
                    bc = c;
                }
            }
        }
        b->n = 0;
        memset(b->hash, -1, sizeof(b->hash));
        order[nsteps] = best;
        first[nsteps] = nsaved;
        if (nsaved + a->n > capsaved) {
            capsaved = (nsaved + a->n) * 2;
            saved = realloc(saved, sizeof(row) * capsaved);
        }
        int start = nsaved;
        for (int i = 0; i < a->n; i++) {
            if (a->r[i].used >> best & 1) {
                saved[nsaved++] = a->r[i];
            } else {
                put(b, &a->r[i], ROWS);
            }
        }
        count[nsteps++] = nsaved - start;
        for (int i = start; i < nsaved; i++) {
            if (saved[i].t[best] <= 0) {
                continue;
            }
            for (int j = start; j < nsaved; j++) {
                if (saved[j].t[best] >= 0) {
                    continue;
                }
                row r;
                switch (combine(&saved[i], &saved[j], best, &bx, &r)) {
                case 2:
                    res = 1;
                    goto out;
                case -1:
                    res = -2;
                    goto out;
                case 0:
                    if (put(b, &r, CAP) != 0) {
                        goto out;
                    }
                }
            }
        }
        table *x = a;
        a = b;
        b = x;
    }
    /* a point */
    {
        num val[MAXV];
        uint64_t known = 0;
        for (int s = nsteps - 1; s >= -1; s--) {
            int w = s >= 0 ? order[s] : -1;
            num l = 0, h = 0;
            int hl = 0, hh = 0;
            for (int i = s >= 0 ? first[s] : 0;
                 s >= 0 && i < first[s] + count[s]; i++) {
                const row *r = &saved[i];
                num x = r->c;
                for (uint64_t u = r->used; u; u &= u - 1) {
                    int v = __builtin_ctzll(u);
                    num k;
                    if (v == w) {
                        continue;
                    }
                    if (!(known >> v & 1)) {
                        known |= 1ull << v;
                        val[v] = haslo >> v & 1 ? bx.lo[v]
                            : (hashi >> v & 1) && bx.hi[v] < 0 ? bx.hi[v] : 0;
                    }
                    if (__builtin_mul_overflow((num)r->t[v], val[v], &k)
                        || __builtin_add_overflow(x, k, &x)) {
                        goto out;
                    }
                }
                if (r->t[w] > 0) {
                    x = -floordiv(x, r->t[w]);
                    if (!hl || x > l) {
                        l = x;
                        hl = 1;
                    }
                } else {
                    x = floordiv(x, -(num)r->t[w]);
                    if (!hh || x < h) {
                        h = x;
                        hh = 1;
                    }
                }
            }
            if (hl && hh && l > h) {
                goto out;
            }
            if (w >= 0) {
                val[w] = hl ? l : hh && h < 0 ? h : 0;
                known |= 1ull << w;
            }
        }
        for (int v = 0; v < nv; v++) {
            num x = known >> v & 1 ? val[v]
                : haslo >> v & 1 ? bx.lo[v]
                : (hashi >> v & 1) && bx.hi[v] < 0 ? bx.hi[v] : 0;
            if (x > INT64_MAX || x < INT64_MIN) {
                goto out;
            }
            point[v] = (int64_t)x;
        }
        res = 0;
    }
out:
    return res;
}
