// Exhaustive enumeration of bounded choice trees over the real code.
// A scenario is a function that makes choices; it is run once for every
// sequence of choices (depth first), in forked workers, under ASAN.
#pragma once
#include <string>
#include <stdio.h>
#include <stdint.h>
namespace en {
int choose(int n, const char *what = "");      // every value 0..n-1 is explored
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void skip();                      // the choices made are not a case of the property
void eval(uint64_t n = 1);                     // further checks made in this execution
void note(const std::string &s);               // describes this case (samples, replay)
void outcome(const std::string &s);            // distinct observed outcomes are counted
long param(const char *name, long def);
std::string param_s(const char *name, const char *def);
extern bool replaying;
struct Reg { Reg(const char *n, void (*f)()); };
std::string hex(const void *p, size_t n);
}
#define EN_CHECK(c, ...) do { if (!(c)) en::fail(__VA_ARGS__); } while (0)
#define EN_SCENARIO(name) static void en_##name(); static en::Reg en_reg_##name(#name, en_##name); static void en_##name()
