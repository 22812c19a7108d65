/* Compiled as C and as C++: the same posts through both interfaces. */
#include <stdint.h>
#include <stdbool.h>
#define NVAL 4
#define TYPES(X) X(i8) X(u8) X(i16) X(u16) X(i32) X(u32) X(i64) X(u64) X(ll) X(ull) X(ch) X(bl) X(flt) X(dbl) X(ptr) X(str) X(mstr) X(l) X(ul) X(sh)
#define TYPES1(X, a) X(a,i8) X(a,u8) X(a,i16) X(a,u16) X(a,i32) X(a,u32) X(a,i64) X(a,u64) X(a,ll) X(a,ull) X(a,ch) X(a,bl) X(a,flt) X(a,dbl) X(a,ptr) X(a,str) X(a,mstr) X(a,l) X(a,ul) X(a,sh)
#define SOME(X) X(u8) X(i32) X(ull) X(dbl) X(ptr) X(str)
#define SOME1(X, a) X(a,u8) X(a,i32) X(a,ull) X(a,dbl) X(a,ptr) X(a,str)
#define SOME2(X, a, b) X(a,b,u8) X(a,b,i32) X(a,b,ull) X(a,b,dbl) X(a,b,ptr) X(a,b,str)
enum kind {
#define X(t) K_##t,
TYPES(X)
#undef X
NKIND };
struct vals { int8_t i8[NVAL]; uint8_t u8[NVAL]; int16_t i16[NVAL]; uint16_t u16[NVAL]; int32_t i32[NVAL]; uint32_t u32[NVAL]; int64_t i64[NVAL]; uint64_t u64[NVAL]; long long ll[NVAL]; unsigned long long ull[NVAL];
	char ch[NVAL]; bool bl[NVAL]; float flt[NVAL]; double dbl[NVAL]; void *ptr[NVAL]; const char *str[NVAL]; char *mstr[NVAL]; long l[NVAL]; unsigned long ul[NVAL]; short sh[NVAL]; };
#ifdef __cplusplus
extern "C" {
#endif
extern struct vals G;
void c_one(void *area, unsigned sect, int k, int v);
void c_two(void *area, unsigned sect, int k, int l, int v);
void c_three(void *area, unsigned sect, int k, int l, int m, int v);
void c_many(void *area, unsigned sect, int k, int n, int v);
int c_misc(void *area, unsigned sect, int what, int v);
#ifdef __cplusplus
}
#endif
#ifdef PRE
#define P1(x) PRE##x
#define R(v, i) (((v) + (i)) % NVAL)
void FN(one)(void *area, unsigned sect, int k, int v) { switch (k) {
#define X(t) case K_##t: hogl_post(area, sect, G.t[v]); break;
TYPES(X)
#undef X
} }
void FN(two)(void *area, unsigned sect, int k, int l, int v) { switch (k * NKIND + l) {
#define X(a, t) case K_##a * NKIND + K_##t: hogl_post(area, sect, G.a[v], G.t[R(v, 1)]); break;
#define Y(a) TYPES1(X, a)
Y(i8) Y(u8) Y(i16) Y(u16) Y(i32) Y(u32) Y(i64) Y(u64) Y(ll) Y(ull) Y(ch) Y(bl) Y(flt) Y(dbl) Y(ptr) Y(str) Y(mstr) Y(l) Y(ul) Y(sh)
#undef X
#undef Y
} }
void FN(three)(void *area, unsigned sect, int k, int l, int m, int v) { switch ((k * NKIND + l) * NKIND + m) {
#define X(a, b, t) case (K_##a * NKIND + K_##b) * NKIND + K_##t: hogl_post(area, sect, G.a[v], G.b[R(v, 1)], G.t[R(v, 2)]); break;
#define Z(a, b) SOME2(X, a, b)
#define Y(a) Z(a,u8) Z(a,i32) Z(a,ull) Z(a,dbl) Z(a,ptr) Z(a,str)
Y(u8) Y(i32) Y(ull) Y(dbl) Y(ptr) Y(str)
#undef X
#undef Y
#undef Z
} }
#define A(t, i) G.t[R(v, i)]
#define CASE(t, n, ...) case K_##t * 17 + n: hogl_post(area, sect, __VA_ARGS__); break;
void FN(many)(void *area, unsigned sect, int k, int n, int v) { switch (k * 17 + n) {
#define X(t) \
CASE(t,4,A(t,0),A(t,1),A(t,2),A(t,3)) \
CASE(t,5,A(t,0),A(t,1),A(t,2),A(t,3),A(t,4)) \
CASE(t,6,A(t,0),A(t,1),A(t,2),A(t,3),A(t,4),A(t,5)) \
CASE(t,7,A(t,0),A(t,1),A(t,2),A(t,3),A(t,4),A(t,5),A(t,6)) \
CASE(t,8,A(t,0),A(t,1),A(t,2),A(t,3),A(t,4),A(t,5),A(t,6),A(t,7)) \
CASE(t,9,A(t,0),A(t,1),A(t,2),A(t,3),A(t,4),A(t,5),A(t,6),A(t,7),A(t,8)) \
CASE(t,10,A(t,0),A(t,1),A(t,2),A(t,3),A(t,4),A(t,5),A(t,6),A(t,7),A(t,8),A(t,9)) \
CASE(t,11,A(t,0),A(t,1),A(t,2),A(t,3),A(t,4),A(t,5),A(t,6),A(t,7),A(t,8),A(t,9),A(t,10)) \
CASE(t,12,A(t,0),A(t,1),A(t,2),A(t,3),A(t,4),A(t,5),A(t,6),A(t,7),A(t,8),A(t,9),A(t,10),A(t,11)) \
CASE(t,13,A(t,0),A(t,1),A(t,2),A(t,3),A(t,4),A(t,5),A(t,6),A(t,7),A(t,8),A(t,9),A(t,10),A(t,11),A(t,12)) \
CASE(t,14,A(t,0),A(t,1),A(t,2),A(t,3),A(t,4),A(t,5),A(t,6),A(t,7),A(t,8),A(t,9),A(t,10),A(t,11),A(t,12),A(t,13)) \
CASE(t,15,A(t,0),A(t,1),A(t,2),A(t,3),A(t,4),A(t,5),A(t,6),A(t,7),A(t,8),A(t,9),A(t,10),A(t,11),A(t,12),A(t,13),A(t,14)) \
CASE(t,16,A(t,0),A(t,1),A(t,2),A(t,3),A(t,4),A(t,5),A(t,6),A(t,7),A(t,8),A(t,9),A(t,10),A(t,11),A(t,12),A(t,13),A(t,14),A(t,15))
X(i32) X(u64) X(dbl) X(ptr) X(str) X(ll)
#undef X
} }
int FN(misc)(void *area, unsigned sect, int what, int v) { int n = v; const int c = 5 + v; const double d = 0.5; const char *s = G.str[v]; char *const m = G.mstr[v]; volatile uint32_t vu = 77; 
	switch (what) {
	case 0: hogl_post(area, sect, "literal"); break;
	case 1: hogl_post(area, sect, "format %d and %s", c, s); break;
	case 2: hogl_post(area, sect, "%f", d, m); break;
	case 3: hogl_post(area, sect, n++, ++n, "x"); break; /* every argument is evaluated once */
	case 4: hogl_post(area, sect, "%p", hogl_pointer(&G)); break;
	case 5: hogl_post(area, sect, hogl_string(G.mstr[v])); break;
	case 6: hogl_post(area, sect, 1u, 2l, 3ul, 4ll, 5ull, 6.5f, 7.25, -1, 0xffffffffffull); break;
	case 7: hogl_post(area, sect, ""); break;
	case 8: hogl_post(area, sect, vu, s + (s ? 1 : 0)); break;
	case 9: if (v & 1) hogl_post(area, sect, 1); else hogl_post(area, sect, 2); break;
	case 10: hogl_post(area, sect + 0, v ? "a" : "bb", v > 1 ? 1.5 : 2.5); break;
	}
	return n;
}
#endif
