// Contract language of the abstract interpreter (never executed).
#ifndef VF_H
#define VF_H
#include <stddef.h>
#include <stdint.h>
extern "C" {
long vf_i64();
unsigned long vf_u64();
int vf_i32();
unsigned vf_u32();
unsigned char vf_u8();
bool vf_bool();
int vf_choice(int n);
long vf_range(long lo, long hi);
void vf_assume(bool);
void vf_check(bool, const char *);
void vf_reach(const char *);
void vf_end();
void vf_gen(const volatile void *, size_t);
void vf_round(const char *);
void vf_havoc(const volatile void *, size_t);
void vf_nowrite(const volatile void *, size_t, const char *);
void vf_noaccess(const volatile void *, size_t, const char *);
void vf_noplain(const volatile void *, size_t, const char *);
void vf_cb_load(const volatile void *, size_t, void (*)(void *, size_t));
void vf_cb_store(const volatile void *, size_t, void (*)(void *, size_t));
void vf_cb_any(const volatile void *, size_t, void (*)(void *, size_t));
void vf_cb_cas(const volatile void *, size_t, void (*)(void *, size_t));
void vf_cb_post(const volatile void *, size_t, void (*)(bool));
void vf_unwatch(const volatile void *);
void vf_unwatch_all();
void vf_atomic(const volatile void *, size_t);
void vf_volatile(const volatile void *, size_t);
void vf_vrange(const volatile void *, size_t, long lo, long hi);
void vf_opt(const char *, long);
bool vf_sameobj(const volatile void *, const volatile void *);
bool vf_alive(const volatile void *);
bool vf_isptr(const volatile void *);
void vf_kill(const volatile void *);
void vf_print(const char *, ...);
void vf_snap(int slot, const volatile void *, size_t);
bool vf_same(int slot, const volatile void *);
}
#define VF_STR2(x) #x
#define VF_STR(x) VF_STR2(x)
#define CHECK(c, l) vf_check((c), l)
#define ASSUME(c) vf_assume((c))
// an entry point of the analysis
#define ENTRY(n) extern "C" void vf_entry_##n()
#endif
