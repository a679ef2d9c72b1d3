// Vocabulary of the specification drivers.  Drivers are never executed: they
// are compiled to LLVM IR together with /repo's sources and analysed.
// Every parameter of a spec_* function stands for an arbitrary value of its
// type; reference parameters are distinct objects with arbitrary contents.
#ifndef VERIF_H
#define VERIF_H
#include <cstddef>
#include <cstdint>
#include <cstdlib>
extern "C" {
void vf_assume(bool c);
void vf_assert(bool c, const char* label);
void vf_refute(bool c, const char* label);
void vf_unreachable(const char* label);
void vf_reached(const char* label);
void vf_forbid_error(const char* label);
void vf_expect_error(const char* label);
void vf_allow_error();
void vf_readonly(const void* p, const char* label);
void vf_extent(const void* p, long bytes);
void vf_nonnull(const void* p);
void vf_opt(const char* name);
void vf_dump(...);
void vf_sink(...);
void vf_noleak(const char* label);
int vf_int();
int vf_bit();  // 0 or 1
double vf_double();
}
#define SPEC(name) extern "C" void spec_##name
// the call that follows is valid: it must return normally
#define VALID(label) vf_forbid_error(label)
// the call that follows is invalid: it must stop with a message and a failing status
#define INVALID(label) vf_expect_error(label)
#define MUST_STOP(label) vf_unreachable(label)
#define CHECK(c, label) vf_assert((c), label)
// follows from other specifications of the same property; the exact passes look for a counterexample
#define REFUTE(c, label) vf_refute((c), label)
#endif
