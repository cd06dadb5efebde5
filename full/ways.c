/* ways TABLES OUT: ways through bison's automaton. For every state that texts lead to, one text that leads there; and for each way
   the terminals read after it that show an entry of the table (state, terminal) not shown before. TABLES also has `yield` lines:
   short texts and the nonterminals they can be. Writes `way t...` and `new t...` lines. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static int fin, last, ntok, pninf, tninf;
static int *pact, *defact, *pgoto, *defgoto, *table, *check, *r1, *r2, nstates;
static int *ints(const char *s, int *n) {
  int cap = 1024, k = 0, *v = malloc(cap * sizeof *v);
  char *e;
  for (;;) {
    long x = strtol(s, &e, 10);
    if (e == s) break;
    if (k == cap) v = realloc(v, (cap *= 2) * sizeof *v);
    v[k++] = x;
    s = e;
  }
  if (n) *n = k;
  return v;
}
enum { ERR, SHIFT, RED, ACC };
static int act(int s, int t, int *x) {
  if (s == fin) return ACC;
  int n = pact[s];
  if (n != pninf) {
    n += t;
    if (n >= 0 && n <= last && check[n] == t) {
      int v = table[n];
      if (v > 0) return *x = v, SHIFT;
      if (v == 0 || v == tninf) return ERR;
      return *x = -v, RED;
    }
  }
  return (*x = defact[s]) ? RED : ERR;
}
static int go(int s, int lhs) {
  int l = lhs - ntok, n = pgoto[l] + s;
  return n >= 0 && n <= last && check[n] == s ? table[n] : defgoto[l];
}
struct st { int n, v[4000]; };
static int step(struct st *s, int t) {
  int x;
  for (;;) switch (act(s->v[s->n - 1], t, &x)) {
    case SHIFT: s->v[s->n++] = x; return s->n < 3900;
    case RED: s->n -= r2[x]; { int g = go(s->v[s->n - 1], r1[x]); s->v[s->n++] = g; } break;
    case ACC: return 1;
    default: return 0;
  }
}
/* the states t makes the stack (of which base are kept) pass through; calls back on each; 1 if t is read */
static int run(const struct st *s, int t, int floor, void (*f)(int state, int depth)) {
  int base = s->n, top[4000], k = 0, x;
  for (;;) {
    int state = k ? top[k - 1] : s->v[base - 1];
    if (f) f(state, base + k);
    switch (act(state, t, &x)) {
      case SHIFT: case ACC: return 1;
      case ERR: return 0;
      default: {
        int n = r2[x], m = n < k ? n : k;
        if (n - m > base - floor) return 0;
        k -= m;
        base -= n - m;
        state = k ? top[k - 1] : s->v[base - 1];
        top[k++] = go(state, r1[x]);
      }
    }
  }
}
struct q { int *stack, n, *way, m; } *queue;
static int nq;
static char *known;
static struct q cur;
static int *yv, yn;
static int depth_wanted;
static void push(int s, const int *more, int k) {
  if (known[s]) return;
  known[s] = 1;
  struct q *q = &queue[nq++];
  q->n = cur.n + 1;
  q->stack = malloc(q->n * sizeof(int));
  memcpy(q->stack, cur.stack, cur.n * sizeof(int));
  q->stack[cur.n] = s;
  q->m = cur.m + k;
  q->way = malloc((q->m + 1) * sizeof(int));
  memcpy(q->way, cur.way, cur.m * sizeof(int));
  memcpy(q->way + cur.m, more, k * sizeof(int));
}
static void arrived(int s, int depth) { if (depth == depth_wanted) push(s, yv, yn); }
static unsigned char *shown;
static int fresh, tnow, nshown;
static void look(int s, int depth) {
  unsigned char *b = &shown[(size_t)s * ntok + tnow];
  (void)depth;
  if (!*b) fresh = 1;
}
static void mark(int s, int depth) {
  unsigned char *b = &shown[(size_t)s * ntok + tnow];
  (void)depth;
  if (!*b) nshown++;
  *b = 1;
}
int main(int c, char **a) {
  FILE *f = fopen(a[1], "r"), *o = fopen(a[2], "w");
  if (c < 3 || !f || !o) return 2;
  char *l = 0;
  size_t cap = 0;
  struct y { int *t, n, *of, k; } *ys = malloc(20000 * sizeof *ys);
  int ny = 0;
  while (getline(&l, &cap, f) > 0) {
    char *p = strchr(l, ' ');
    if (!p) continue;
    *p++ = 0;
#define ONE(n, x) if (!strcmp(l, n)) x = atoi(p)
    ONE("YYFINAL", fin); ONE("YYLAST", last); ONE("YYNTOKENS", ntok); ONE("YYPACT_NINF", pninf); ONE("YYTABLE_NINF", tninf);
#define VEC(n, x) if (!strcmp(l, n)) x = ints(p, 0)
    if (!strcmp(l, "yypact")) pact = ints(p, &nstates);
    VEC("yydefact", defact); VEC("yypgoto", pgoto); VEC("yydefgoto", defgoto); VEC("yytable", table); VEC("yycheck", check); VEC("yyr1", r1); VEC("yyr2", r2);
    if (!strcmp(l, "yield") && ny < 20000) {
      char *m = strchr(p, ':');
      if (!m) continue;
      *m++ = 0;
      ys[ny].of = ints(p, &ys[ny].k);
      ys[ny].t = ints(m, &ys[ny].n);
      ny++;
    }
  }
  known = calloc(nstates, 1);
  shown = calloc((size_t)nstates, ntok);
  queue = calloc(nstates + 1, sizeof *queue);
  int zero = 0, ways = 0, targets = 0;
  queue[0].stack = &zero; queue[0].n = 1; queue[0].way = malloc(4); queue[0].m = 0;
  nq = 1;
  known[0] = 1;
  static struct st st, real;
  char *viable = malloc(ntok);
  for (int i = 0; i < nq; i++) {
    cur = queue[i];
    int s = cur.stack[cur.n - 1], x;
    st.n = cur.n;
    memcpy(st.v, cur.stack, cur.n * sizeof(int));
    for (int t = 0; t < ntok; t++) {
      viable[t] = t > 2 && run(&st, t, 1, 0);
      if (t > 2 && act(s, t, &x) == SHIFT) push(x, &t, 1);
    }
    for (int j = 0; j < ny; j++) {
      struct y *y = &ys[j];
      if (y->n && !viable[y->t[0]]) continue;
      int any = 0;
      for (int k = 0; k < y->k && !any; k++) any = !known[go(s, y->of[k])];
      if (!any) continue;
      st.n = cur.n;
      memcpy(st.v, cur.stack, cur.n * sizeof(int));
      int ok = 1;
      for (int k = 0; k < y->n && ok; k++) ok = step(&st, y->t[k]);
      if (!ok) continue;
      depth_wanted = cur.n + 1;
      yv = y->t;
      yn = y->n;
      /* only what stands on the stack below is still there counts: the floor is what was there before */
      for (int t = 0; t < ntok; t++) {
        int top = st.v[st.n - 1];
        if (act(top, t, &x) == RED) run(&st, t, cur.n, arrived);
      }
    }
    real.n = 1;
    real.v[0] = 0;
    int ok = 1;
    for (int k = 0; k < cur.m && ok; k++) ok = step(&real, cur.way[k]);
    if (!ok) continue;
    int first = 1;
    for (int t = 0; t < ntok; t++) {
      if (t == 1 || t == 2) continue;
      tnow = t;
      fresh = 0;
      if (!run(&real, t, 1, look) || !fresh) continue;
      run(&real, t, 1, mark);
      if (first) {
        fprintf(o, "way");
        for (int k = 0; k < cur.m; k++) fprintf(o, " %d", cur.way[k]);
        fprintf(o, "\nnew");
        first = 0;
        ways++;
      }
      fprintf(o, " %d", t);
      targets++;
    }
    if (!first) fprintf(o, "\n");
  }
  fprintf(o, "reached %d %d %d\n", nq, nstates, nshown);
  fprintf(stderr, "%d of %d states, %d ways, %d targets, %d entries\n", nq, nstates, ways, targets, nshown);
  return fclose(o) != 0;
}
