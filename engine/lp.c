/* Exact rational feasibility of { A x + b >= 0, lo <= x <= hi } (general simplex, Bland's rule).
   returns 1 infeasible, 0 feasible, 2 gave up (overflow / iteration limit). Entailment core of the polyhedral domain. */
#include <stdint.h>
#include <stdlib.h>
typedef __int128 I;
typedef struct { I n, d; } Q;
static int ovf;
static I gcdI(I a, I b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { I t = a % b; a = b; b = t; } return a; }
static Q mk(I n, I d) { if (d < 0) { n = -n; d = -d; } if (d != 1) { I g = gcdI(n, d); if (g > 1) { n /= g; d /= g; } } Q q = { n, d }; return q; }
static I mulI(I a, I b) { I r; if (__builtin_mul_overflow(a, b, &r)) { ovf = 1; return 0; } return r; }
static I addI(I a, I b) { I r; if (__builtin_add_overflow(a, b, &r)) { ovf = 1; return 0; } return r; }
static Q qmul(Q a, Q b) {
    if (a.n == 0 || b.n == 0) { Q z = {0,1}; return z; }
    if (a.d == 1 && b.d == 1) { Q r = { mulI(a.n, b.n), 1 }; return r; }
    I g1 = gcdI(a.n, b.d), g2 = gcdI(b.n, a.d);
    Q r = { mulI(a.n / g1, b.n / g2), mulI(a.d / g2, b.d / g1) }; return r; }
static Q qinv(Q a) { return a.n < 0 ? (Q){ -a.d, -a.n } : (Q){ a.d, a.n }; }
static Q qadd(Q a, Q b) {
    if (a.n == 0) return b; if (b.n == 0) return a;
    if (a.d == 1 && b.d == 1) { Q r = { addI(a.n, b.n), 1 }; return r; }
    return mk(addI(mulI(a.n, b.d), mulI(b.n, a.d)), mulI(a.d, b.d)); }
static Q qneg(Q a) { Q r = { -a.n, a.d }; return r; }
static Q qsub(Q a, Q b) { return qadd(a, qneg(b)); }
static int qcmp(Q a, Q b) { if (a.d == b.d) return a.n < b.n ? -1 : a.n > b.n; I l = mulI(a.n, b.d), r = mulI(b.n, a.d); return l < r ? -1 : l > r; }

int lp_check(int nv, int nr, const int64_t *A, const int64_t *b, const int8_t *hl, const int64_t *lo, const int8_t *hh, const int64_t *hi) {
    int n = nv + nr, res = 2;
    ovf = 0;
    Q *T = malloc(sizeof(Q) * (size_t)(nr * nv + 1)), *val = malloc(sizeof(Q) * n), *L = malloc(sizeof(Q) * n), *H = malloc(sizeof(Q) * n);
    char *HL = calloc(n, 1), *HH = calloc(n, 1); int *rowv = malloc(sizeof(int) * (nr + 1)), *colv = malloc(sizeof(int) * (nv + 1));
    for (int j = 0; j < nv; j++) {
        colv[j] = j; HL[j] = hl[j]; HH[j] = hh[j]; L[j] = (Q){ lo[j], 1 }; H[j] = (Q){ hi[j], 1 };
        if (HL[j] && HH[j] && qcmp(L[j], H[j]) > 0) { res = 1; goto done; }
        val[j] = HL[j] ? L[j] : HH[j] && hi[j] < 0 ? H[j] : (Q){ 0, 1 };
    }
    for (int i = 0; i < nr; i++) {
        int v = nv + i; rowv[i] = v; HL[v] = 1; L[v] = (Q){ -(I)b[i], 1 };
        Q s = { 0, 1 };
        for (int j = 0; j < nv; j++) { T[i * nv + j] = (Q){ A[i * nv + j], 1 }; if (A[i * nv + j]) s = qadd(s, qmul(T[i * nv + j], val[j])); }
        val[v] = s;
    }
    for (int it = 0; it < 3000 && !ovf; it++) {
        int r = -1, low = 0;
        for (int i = 0; i < nr; i++) {
            int v = rowv[i];
            int bl = HL[v] && qcmp(val[v], L[v]) < 0, bh = HH[v] && qcmp(val[v], H[v]) > 0;
            if ((bl || bh) && (r < 0 || v < rowv[r])) { r = i; low = bl; }
        }
        if (ovf) break;
        if (r < 0) { res = 0; goto done; }
        int xi = rowv[r], c = -1;
        for (int j = 0; j < nv; j++) {
            Q a = T[r * nv + j]; if (a.n == 0) continue;
            int xj = colv[j]; int up = (a.n > 0) == low;
            int ok = up ? !(HH[xj] && qcmp(val[xj], H[xj]) >= 0) : !(HL[xj] && qcmp(val[xj], L[xj]) <= 0);
            if (ok && (c < 0 || xj < colv[c])) c = j;
        }
        if (c < 0) { res = ovf ? 2 : 1; goto done; }
        int xj = colv[c]; Q target = low ? L[xi] : H[xi];
        Q a = T[r * nv + c], ia = qinv(a);
        Q theta = qmul(qsub(target, val[xi]), ia);
        val[xi] = target; val[xj] = qadd(val[xj], theta);
        for (int i = 0; i < nr; i++) if (i != r && T[i * nv + c].n) val[rowv[i]] = qadd(val[rowv[i]], qmul(T[i * nv + c], theta));
        /* pivot */
        for (int j = 0; j < nv; j++) if (j != c && T[r * nv + j].n) T[r * nv + j] = qneg(qmul(T[r * nv + j], ia));
        T[r * nv + c] = ia;
        for (int i = 0; i < nr; i++) if (i != r && T[i * nv + c].n) {
            Q f = T[i * nv + c];
            for (int j = 0; j < nv; j++) if (j != c && T[r * nv + j].n) T[i * nv + j] = qadd(T[i * nv + j], qmul(f, T[r * nv + j]));
            T[i * nv + c] = qmul(f, ia);
        }
        rowv[r] = xj; colv[c] = xi;
    }
done:
    free(T); free(val); free(L); free(H); free(HL); free(HH); free(rowv); free(colv);
    return ovf ? 2 : res;
}
