// shared helpers of the native replay / bounded stand-in drivers: exe seed seconds replayfile
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <chrono>
#include <signal.h>
#include <unistd.h>
namespace vt
{
static uint64_t s_state = 88172645463325252ull;
static const char* s_replay = "";
static std::string s_current;
static long s_cases = 0;
static std::chrono::steady_clock::time_point s_end;
inline uint64_t rnd() { s_state ^= s_state << 13; s_state ^= s_state >> 7; s_state ^= s_state << 17; return s_state * 2685821657736338717ull; }
inline uint32_t rnd(uint32_t n) { return n ? (uint32_t)((rnd() >> 33) % n) : 0; }
inline int range(int a, int b) { return a + (int)rnd(b - a + 1); }
inline bool coin(int pct = 50) { return (int)rnd(100) < pct; }
inline void save(const char* why)
{
	FILE* f = fopen(s_replay, "w");
	if (f) { fprintf(f, "%s\ninput: %s\n", why, s_current.c_str()); fclose(f); }
}
inline std::string show(const std::string& s)
{
	std::string r = "\"";
	for (unsigned char c : s) { char b[8]; if (c < 32 || c > 126 || c == '"' || c == '\\') { snprintf(b, 8, "\\x%02x", c); r += b; } else r += c; }
	return r + "\"";
}
inline std::string fmt(const char* f, ...)
{
	char b[8192]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
// describes the case being executed: written to the replay file when a sanitizer stops the program
inline void now(const std::string& s) { s_current = s; s_cases++; }
[[noreturn]] inline void fail(const char* f, ...)
{
	char b[8192]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
	printf("FAILED: %s\n  case: %s\n", b, s_current.c_str()); fflush(stdout);
	save(b); _exit(1);
}
[[noreturn]] inline void error(const char* f, ...)
{
	char b[2000]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
	printf("DRIVER-ERROR: %s\n", b); fflush(stdout); _exit(3);
}
extern "C" void __asan_on_error() { save("sanitizer report"); }
inline void crashed(int sig) { save(sig == SIGALRM ? "no termination" : "crash"); printf("CRASH signal %d\n  case: %s\n", sig, s_current.c_str()); fflush(stdout); _exit(1); }
inline void init(int argc, char** argv)
{
	if (argc < 4) { fprintf(stderr, "usage: seed seconds replay\n"); exit(3); }
	s_state ^= strtoull(argv[1], nullptr, 10) * 0x9E3779B97F4A7C15ull; if (!s_state) s_state = 1;
	for (int i = 0; i < 8; i++) rnd();
	s_end = std::chrono::steady_clock::now() + std::chrono::milliseconds((long)(atof(argv[2]) * 1000));
	s_replay = argv[3];
	signal(SIGABRT, crashed); signal(SIGFPE, crashed); signal(SIGALRM, crashed);
	alarm((unsigned)atof(argv[2]) + 40);
}
inline bool more() { return std::chrono::steady_clock::now() < s_end; }
inline int done() { printf("CASES %ld\n", s_cases); fflush(stdout); _exit(0); }
// heap copy with exactly strlen+1 bytes: any over-read is reported
struct Str
{
	char* p; size_t n;
	Str(const std::string& s) { n = s.size(); p = (char*)malloc(n + 1); memcpy(p, s.data(), n); p[n] = 0; }
	~Str() { free(p); }
	operator char*() { return p; }
	std::string str() { return p; }
};
// random text over an alphabet of interesting fragments
inline std::string text(const std::vector<std::string>& frag, int maxn)
{
	std::string s; int n = rnd(maxn + 1);
	for (int i = 0; i < n; i++) { if (coin(80)) s += frag[rnd(frag.size())]; else { char c = (char)range(1, 255); s += c; } }
	return s;
}
}
