/* Library driven by the simulator.  Every function reports entering, yielding
 * and leaving through a hook, which is where the simulator switches tasks. */
#include <stddef.h>
#include <string.h>

typedef int (*hook_t)(int ev, int fn, long arg);
static hook_t hook;
void simlib_set_hook(hook_t h) { hook = h; }

/* calls made without releasing the interpreter: nothing else runs meanwhile */
extern int PyGILState_Check(void) __attribute__((weak));
int simlib_gil_held;

#define ENTER(f, a) do { \
    if (PyGILState_Check && PyGILState_Check()) simlib_gil_held++; \
    if (hook) hook(0, f, (long)(a)); } while (0)
#define LEAVE(f, a) do { if (hook) hook(1, f, (long)(a)); } while (0)
#define YIELD(f) do { if (hook) hook(2, f, 0); } while (0)

typedef struct sl_point { int x; int y; } sl_point;
union sl_u;
struct sl_b;
struct sl_a { struct sl_b *b; int n; struct sl_point p[3]; };
struct sl_b { struct sl_a a; struct sl_b *next; union sl_u *u; };
union sl_u { int i; float f; struct sl_b *b; sl_point pt; };
struct sl_leaf { int q[2][3]; char tag; };
typedef struct sl_node { struct sl_node *next; union sl_u val; struct sl_leaf leaf; double value; } sl_node;
typedef int (*sl_cb)(int x);

static volatile int state;

int sl_add(int a, int b) { int r; ENTER(1, a); r = a + b; YIELD(1); LEAVE(1, r); return r; }

int sl_acc(int x)
{
    int s, r;
    ENTER(2, x);
    s = state;
    YIELD(2);
    state = r = s + x;
    YIELD(2);
    r = state;
    LEAVE(2, r);
    return r;
}

int sl_state(void)
{
    int r;
    ENTER(22, 0);
    YIELD(22);
    r = state;
    YIELD(22);
    LEAVE(22, r);
    return r == state ? 77 : -77;
}

void sl_nop(void) { ENTER(23, 0); YIELD(23); LEAVE(23, 0); }
int sl_gain(int a) { ENTER(24, a); YIELD(24); LEAVE(24, a); return a + 24; }
int slx_gain(int a) { ENTER(25, a); YIELD(25); LEAVE(25, a); return a + 25; }
int pick(int a) { ENTER(26, a); YIELD(26); LEAVE(26, a); return a + 26; }

long sl_work(int n)
{
    int i;
    long r = 0;
    ENTER(3, n);
    for (i = 0; i < n; i++) { r += i + 1; YIELD(3); }
    LEAVE(3, r);
    return r;
}

int sl_call(sl_cb cb, int x)
{
    int r;
    ENTER(4, x);
    YIELD(4);
    r = cb(x);
    YIELD(4);
    LEAVE(4, r);
    return r + 1;
}

int sl_bump(int a, int *io)
{
    int v;
    ENTER(5, a);
    v = io ? *io : -1000;
    YIELD(5);
    if (io) *io = v + a;
    YIELD(5);
    v = io ? *io : -1;
    LEAVE(5, v);
    return 2 * a;
}

int sl_multi(int a, int *o1, double *o2, sl_point *o3)
{
    ENTER(6, a);
    if (o1) *o1 += a;
    YIELD(6);
    if (o2) *o2 += a * 0.5;
    YIELD(6);
    if (o3) { o3->x += a; YIELD(6); o3->y += -a; }
    LEAVE(6, a);
    return a + 7;
}

void sl_void(int a, long *out)
{
    ENTER(7, a);
    YIELD(7);
    if (out) *out += 3L * a;
    LEAVE(7, a);
}

int sl_pp(long a, void **h, int *status)
{
    ENTER(8, a);
    if (h) *h = (char *)*h + a;
    YIELD(8);
    if (status) *status += (int)(a % 97);
    LEAVE(8, a);
    return (int)(a % 13);
}

sl_point sl_mkpoint(int x, int y)
{
    sl_point p;
    ENTER(9, x);
    p.x = x;
    YIELD(9);
    p.y = y;
    LEAVE(9, y);
    return p;
}

int sl_sum(const int *arr, int n)
{
    int i, r = 0;
    ENTER(10, n);
    for (i = 0; i < n; i++) { r += arr[i]; if (i == 0) YIELD(10); }
    LEAVE(10, r);
    return r;
}

unsigned int sl_len(const char *s)
{
    unsigned int r;
    ENTER(11, 0);
    YIELD(11);
    r = s ? (unsigned int)strlen(s) : 12345u;
    LEAVE(11, r);
    return r;
}

int sl_nulls(void *p, int *q, sl_node *n)
{
    int r;
    ENTER(12, 0);
    YIELD(12);
    r = (p == NULL) | (q == NULL) << 1 | (n == NULL) << 2;
    LEAVE(12, r);
    return r;
}

double sl_scale(double f, sl_node *n)
{
    double r;
    ENTER(13, 0);
    if (n) { n->value = n->value * f + 1; YIELD(13); n->leaf.q[1][2] += 5; n->val.i += 2; }
    r = n ? n->value : -f;
    LEAVE(13, 0);
    return r;
}

int sl_color(int which) { ENTER(14, which); YIELD(14); LEAVE(14, 0); return which + 10; }

const char *sl_name(int i)
{
    static const char *names[] = {"alpha", "beta", "gamma", "delta"};
    ENTER(15, i);
    YIELD(15);
    LEAVE(15, i);
    return names[i & 3];
}

int slx_short(int a) { ENTER(16, a); YIELD(16); LEAVE(16, a); return a - 100; }
int sl_dual(int a) { ENTER(17, a); LEAVE(17, a); return a; }
double sl_mix(float f, double d, long l, short s, unsigned char c)
{
    double r;
    ENTER(18, 0);
    r = f + d * 2 + l * 3 + s * 4 + c * 5;
    YIELD(18);
    LEAVE(18, 0);
    return r;
}
int sl_pvec(sl_point *pts, int n, int *total)
{
    int i;
    ENTER(19, n);
    for (i = 0; i < n; i++) { if (total) *total += pts[i].x * pts[i].y; YIELD(19); }
    LEAVE(19, n);
    return n;
}
int sl_opt(int a, int *b, int c)
{
    ENTER(27, a);
    YIELD(27);
    if (b) *b += a;
    LEAVE(27, a);
    return a * 3 + c;
}
#ifndef VARIANT_B
int sl_only_a(int a) { ENTER(20, a); LEAVE(20, a); return a + 1; }
#else
int sl_only_b(int a) { ENTER(21, a); LEAVE(21, a); return a + 2; }
#endif
