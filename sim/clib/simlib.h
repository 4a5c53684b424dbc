/* what the simulated library offers, as the package sees it */
#define SL_VERSION 42
#define SL_LABEL "sim lib"
#define SL_RATIO 0.25
#define SL_FLAGS (SL_VERSION + 8)
#define SL_EMPTY

typedef struct sl_point { int x; int y; } sl_point;
typedef sl_point *sl_point_ptr;
union sl_u;
struct sl_b;
struct sl_a { struct sl_b *b; int n; struct sl_point p[3]; };
struct sl_b { struct sl_a a; struct sl_b *next; union sl_u *u; };
union sl_u { int i; float f; struct sl_b *b; sl_point pt; };
struct sl_leaf { int q[2][3]; char tag; };
typedef struct sl_node { struct sl_node *next; union sl_u val; struct sl_leaf leaf; double value; } sl_node;
typedef struct sl_node *sl_list;
typedef int (*sl_cb)(int x);
typedef sl_point *(*sl_pcb)(struct sl_b *b, const sl_node *n, unsigned long flags);

typedef int sl_mat[2][3];
typedef sl_mat *sl_mat_p;
typedef sl_point sl_pair[2];
typedef unsigned char sl_byte;
typedef sl_byte *sl_bytes;
typedef const volatile unsigned long sl_reg;

struct sl_grid { sl_mat m; sl_pair pts; sl_mat more[2]; int deep[2][2][2]; };
struct sl_cbs { sl_cb on_event; sl_pcb on_point; void *user; struct sl_cbs *chain; };

#pragma pack(push, 1)
struct sl_packed { char c; int i; double d; struct sl_point pt; };
#pragma pack(pop)
struct sl_aligned { char c; int i; double d; struct sl_packed in; };

enum sl_colors { SL_RED = 3, SL_GREEN, SL_BLUE = 10 };
typedef enum sl_colors sl_color_t;
struct sl_paint { sl_color_t fg; enum sl_colors bg; union { int raw; sl_byte b[4]; } u; };
struct sl_anon { int k; union { int i; float f; }; struct { short lo; short hi; }; };
typedef struct sl_anon sl_anon_t;

/* the second one is reached through three aliases */
typedef sl_node sl_alias1;
typedef sl_alias1 sl_alias2;
typedef sl_alias2 *sl_alias3;
typedef union sl_u sl_u_t;
struct slx_thing { int t; sl_alias3 n; };
typedef struct slx_thing slx_thing_t;
struct sl_self { struct sl_self *a; struct sl_self *b[2]; int v; };
struct sl_ring1 { struct sl_ring2 *r; int one; };
struct sl_ring2 { struct sl_ring3 *r; short two; };
struct sl_ring3 { struct sl_ring1 *r; struct sl_ring1 in; char three; };

/* cannot be built */
struct sl_bad { int before; unknown_t z; };
struct sl_uses_bad { struct sl_leaf l; struct sl_bad bad; struct sl_a tail; };
struct sl_late { int k; struct sl_uses_bad *ub; struct sl_leaf l; };
union sl_badu { struct sl_point p; unknown_t *z; };
typedef unknown_t sl_bad_t;
typedef struct sl_nowhere sl_fwd_only;
typedef enum sl_nowhere_e sl_fwd_enum;

int sl_add(int a, int b);
int sl_acc(int x);
int sl_state(void);
void sl_nop(void);
long sl_work(int n);
int sl_call(sl_cb cb, int x);
int sl_bump(int a, int *io);
int sl_multi(int a, int *o1, double *o2, sl_point *o3);
void sl_void(int a, long *out);
int sl_pp(long a, void **h, int *status);
sl_point sl_mkpoint(int x, int y);
int sl_sum(const int *arr, int n);
unsigned int sl_len(const char *s);
int sl_nulls(void *p, int *q, sl_node *n);
double sl_scale(double f, sl_node *n);
sl_color_t sl_color(enum sl_colors which);
const char *sl_name(int i);
int slx_short(int a);
double sl_mix(float f, double d, long l, short s, unsigned char c);
int sl_pvec(sl_point *pts, int n, int *total);
/* arguments with a default value may come by keyword only */
int sl_opt(int a, int *b = 0, int c = 4);
int sl_only_a(int a);
int sl_only_b(int a);

/* declared but not there, or impossible */
int sl_missing(int a, struct sl_ring1 *r);
int sl_badarg(int a, struct sl_bad *b, struct sl_grid *g);
unknown_t sl_badret(int a);

/* names which differ by a prefix only */
struct sl_twin { int big[4]; };
struct twin { char small; };
#define gain 3
int sl_gain(int a);
int slx_gain(int a);
int pick(int a);
#define sl_pick 4
#define slx_pick 5
typedef short other;
typedef double sl_other;
enum sl_level { SL_LOW, SL_HIGH };
typedef struct twin *slx_level;

/* one name, several kinds */
struct sl_dual { int d; };
int sl_dual(int a);
struct sl_tri { int t[3]; };
#define sl_tri 7
int sl_matrix[2][3];
sl_mat sl_table[4];
