// Native runtime of the contract vocabulary (harness/vc.h).  Every contract is also an executable check on the real,
// natively compiled code: the arbitrary values are drawn from a generator (small scope enumeration, then biased random)
// or from a replay file.  Used (a) to look for a concrete failing input after the verifier refuted an obligation, (b) to
// replay one, (c) as the labelled bounded stand-in where the verifier has no answer.
#include "../harness/vc.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <deque>
#include <string>
#include <vector>
#include <chrono>
#include <dlfcn.h>
#include <unistd.h>
#include <csignal>
#include <sys/mman.h>
#include <sys/wait.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#define POISON(p, n) __asan_poison_memory_region(p, n)
#define UNPOISON(p, n) __asan_unpoison_memory_region(p, n)
#endif
#endif
#ifndef POISON
#define POISON(p, n) ((void)0)
#define UNPOISON(p, n) ((void)0)
#endif
namespace {
struct Reject {};
struct Fail {};
struct Shared {          // survives a crash of the child
	uint64_t runs, rejects, asserts, distinct; int failed; char label[256]; char sample[2048];
	uint32_t n; struct { char name[24]; uint64_t v; } ch[60000];
};
Shared* S;
enum Mode { ENUM, RANDOM, REPLAY } mode;
uint64_t rng = 88172645463325252ull;
uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng * 0x2545F4914F6CDD1Dull >> 7; }
uint64_t maxlen = 40;
std::vector<std::pair<uint32_t, uint32_t>> odo;   // (choice, domain) for enumeration
size_t odopos;
std::map<std::string, std::deque<uint64_t>> replay;
std::vector<uint64_t> recent;
std::set<std::string> covers;
struct Blk { size_t n; bool live; };
std::map<char*, Blk> blocks;
std::map<const void*, std::vector<uint8_t>> initial;
uint64_t fails_left; bool ever_failed;
uint64_t record(const char* name, uint64_t v)
{
	if (S->n < 60000) { auto& c = S->ch[S->n]; strncpy(c.name, name, 23); c.name[23] = 0; c.v = v; S->n++; }
	return v;
}
uint64_t enumerate(uint64_t dom)
{
	if (dom <= 1) return 0;
	if (odopos == odo.size()) odo.push_back({0, (uint32_t)dom});
	else odo[odopos].second = (uint32_t)dom;
	if (odo[odopos].first >= dom) odo[odopos].first = (uint32_t)dom - 1;
	return odo[odopos++].first;
}
bool next_odo()
{
	odo.resize(odopos < odo.size() ? odopos : odo.size());
	while (!odo.empty()) { if (odo.back().first + 1 < odo.back().second) { odo.back().first++; return true; } odo.pop_back(); }
	return false;
}
uint64_t choose(const char* name, int bits)
{
	uint64_t m = bits == 64 ? ~0ull : (1ull << bits) - 1, v;
	if (mode == REPLAY) {
		auto it = replay.find(name);
		if (it != replay.end() && !it->second.empty()) { v = it->second.front() & m; it->second.pop_front(); return record(name, v); }
		return record(name, rnd() % 3);
	}
	if (mode == ENUM) { static const uint64_t d[] = {0, 1, 2, ~0ull}; return record(name, d[enumerate(bits == 1 ? 2 : 4)] & m); }
	uint64_t r = rnd() % 20;
	if (r < 6) v = rnd() % 4;
	else if (r < 9 && !recent.empty()) v = recent[rnd() % recent.size()] + (rnd() % 8 == 0 ? 1 : 0);
	else if (r < 11) v = m - rnd() % 3;
	else if (r < 12) v = (m >> 1) + rnd() % 3;
	else if (r < 14) v = (1ull << (rnd() % bits)) + (rnd() % 3) - 1;
	else if (r < 15 && bits == 8) v = "az09 \\\"%.,\t"[rnd() % 11];
	else if (r < 17) v = rnd() % 300;
	else v = rnd() ^ (rnd() << 30);
	v &= m; recent.push_back(v); if (recent.size() > 30) recent.erase(recent.begin());
	return record(name, v);
}
void end_run()
{
	for (auto& b : blocks) { UNPOISON(b.first, b.second.n); free(b.first); }
	blocks.clear(); initial.clear();
}
}
extern "C" {
uint8_t vc_u8(const char* n) { return (uint8_t)choose(n, 8); }
uint16_t vc_u16(const char* n) { return (uint16_t)choose(n, 16); }
uint32_t vc_u32(const char* n) { return (uint32_t)choose(n, 32); }
uint64_t vc_u64(const char* n) { return choose(n, 64); }
bool vc_bool(const char* n) { return choose(n, 1); }
uint64_t vc_len(const char* n)
{
	if (mode == REPLAY) { auto it = replay.find(n); uint64_t v = 0; if (it != replay.end() && !it->second.empty()) { v = it->second.front(); it->second.pop_front(); } if (v > 200000) throw Reject(); return record(n, v); }
	if (mode == ENUM) return record(n, enumerate(4));
	uint64_t r = rnd() % 10;
	return record(n, r < 7 ? rnd() % 6 : r < 9 ? rnd() % 20 : rnd() % (maxlen + 1));
}
uint64_t vc_below(const char* n, uint64_t m)
{
	if (m == 0) throw Reject();
	uint64_t v;
	if (mode == REPLAY) { auto it = replay.find(n); v = 0; if (it != replay.end() && !it->second.empty()) { v = it->second.front(); it->second.pop_front(); } if (v >= m) throw Reject(); }
	else if (mode == ENUM) v = m <= 64 ? enumerate(m) : (enumerate(4) * (m - 1) / 3);
	else v = rnd() % m;
	return record(n, v);
}
void vc_assume(bool c) { if (!c) throw Reject(); }
void vc_assert(bool c, const char* label) { S->asserts++; if (!c) { strncpy(S->label, label, 255); throw Fail(); } }
void vc_cover(const char* l) { covers.insert(l); }
void vc_unroll(uint64_t) {}
void vc_split(bool) {}
void vc_term(uint64_t) {}
uint64_t vc_maxlen() { return maxlen; }
void* vc_alloc(uint64_t n, uint32_t)
{
	if (n > (1ull << 31)) throw Reject();
	char* p = (char*)aligned_alloc(16, (n + 16 + 15) / 16 * 16);
	memset(p, 0xcd, n + 16);
	POISON(p + n, 16 - 0);
	blocks[p] = {n, true};
	return p;
}
void vc_free(void* q, uint64_t n)
{
	auto it = blocks.find((char*)q);
	vc_assert(it != blocks.end(), "memory: free of a pointer that was not allocated");
	vc_assert(it->second.live, "memory: double free");
	vc_assert(n == 0 || n == it->second.n, "memory: deallocation size equals allocation size");
	it->second.live = false; POISON(q, it->second.n);
}
bool vc_live(const void* q)
{
	auto it = blocks.upper_bound((char*)q);
	if (it == blocks.begin()) return false;
	--it;
	return it->second.live && (char*)q < it->first + (it->second.n ? it->second.n : 1);
}
uint64_t vc_live_blocks() { uint64_t n = 0; for (auto& b : blocks) n += b.second.live; return n; }
bool vc_same_object(const void* p, const void* q)
{
	auto f = [](const void* x) { auto it = blocks.upper_bound((char*)x); if (it == blocks.begin()) return blocks.end(); return --it; };
	auto a = f(p), b = f(q);
	return a != blocks.end() && a == b;
}
void* vc_array(const char* name, uint64_t n, uint64_t es)
{
	uint64_t sz = n * es;
	if (sz > 400000) throw Reject();
	char* p = (char*)vc_alloc(sz, 16);
	for (uint64_t i = 0; i < n; ++i) {
		uint64_t v = choose(name, es >= 8 ? 64 : (int)es * 8);
		memcpy(p + i * es, &v, es >= 8 ? 8 : es);
		for (uint64_t j = 8; j < es; j += 4) { uint32_t w = (uint32_t)choose(name, 32); memcpy(p + i * es + j, &w, es - j < 4 ? es - j : 4); }
	}
	initial[p].assign((uint8_t*)p, (uint8_t*)p + sz);
	return p;
}
uint64_t vc_size(const void* q) { auto it = blocks.find((char*)q); return it == blocks.end() ? 0 : it->second.n; }
#define INI(T, b) T vc_inita##b(const void* a, uint64_t i, uint64_t off) { T v = 0; auto& x = initial[a]; uint64_t es = vc_inita_es(a); if (i * es + off + sizeof(T) <= x.size()) memcpy(&v, x.data() + i * es + off, sizeof(T)); return v; }
}
static std::map<const void*, uint64_t> esz;
static uint64_t vc_inita_es(const void* a) { auto it = esz.find(a); return it == esz.end() ? 1 : it->second; }
extern "C" {
INI(uint8_t, 8)
#undef INI
#define INI(T, b) T vc_inita##b(const void* a, uint64_t i, uint64_t off) { T v = 0; auto& x = initial[a]; if (i * sizeof(T) + off + sizeof(T) <= x.size()) memcpy(&v, x.data() + i * sizeof(T) + off, sizeof(T)); return v; }
INI(uint16_t, 16) INI(uint32_t, 32) INI(uint64_t, 64)
const char* vc_cstr(const char* name, uint64_t n)
{
	if (n > 400000) throw Reject();
	char* p = (char*)vc_alloc(n + 1, 1);
	for (uint64_t i = 0; i < n; ++i) { char c = (char)choose(name, 8); p[i] = c ? c : 'x'; }
	p[n] = 0;
	initial[p].assign((uint8_t*)p, (uint8_t*)p + n + 1);
	return p;
}
void* vc_opaque(const char* n) { return vc_alloc(64, 16); }
void vc_sym(void* p, uint64_t size, const char* name) { for (uint64_t i = 0; i < size; ++i) ((uint8_t*)p)[i] = vc_u8(name); }
}

static int run_one(void (*h)())
{
	S->n = 0; recent.clear();
	int r = 0;
	try { h(); } catch (Reject&) { r = 1; } catch (Fail&) { r = 2; }
	end_run();
	S->runs++; if (r == 1) S->rejects++;
	return r;
}
static void put_record(FILE* f) { for (uint32_t i = 0; i < S->n; ++i) fprintf(f, "%s=%llu\n", S->ch[i].name, (unsigned long long)S->ch[i].v); }

int main(int argc, char** argv)
{
	const char *name = nullptr, *rf = nullptr, *out = nullptr; double secs = 1; uint64_t seed = 1, maxruns = ~0ull;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto nx = [&] { return argv[++i]; };
		if (a == "--harness") name = nx(); else if (a == "--replay") rf = nx(); else if (a == "--out") out = nx();
		else if (a == "--seconds") secs = atof(nx()); else if (a == "--seed") seed = strtoull(nx(), 0, 10); else if (a == "--maxlen") maxlen = strtoull(nx(), 0, 10);
		else if (a == "--runs") maxruns = strtoull(nx(), 0, 10);
	}
	auto h = (void (*)())dlsym(RTLD_DEFAULT, name);
	if (!h) { printf("RESULT missing harness %s\n", name); return 3; }
	S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (rf) {
		FILE* f = fopen(rf, "r"); if (!f) return 3;
		char line[512];
		while (fgets(line, sizeof line, f)) { if (line[0] == '#') continue; char* e = strrchr(line, '='); if (!e) continue; *e = 0; replay[line].push_back(strtoull(e + 1, 0, 10)); }
		fclose(f); mode = REPLAY; rng ^= seed * 0x9E3779B97F4A7C15ull;
		auto keep = replay;
		for (int t = 0; t < (maxruns == ~0ull ? 1 : (int)maxruns); ++t) { replay = keep; int r = run_one(h); if (r == 2) { printf("FAILED %s\n", S->label); if (out) { FILE* o = fopen(out, "w"); put_record(o); fclose(o); } return 2; } }
		printf("PASSED\n"); return 0;
	}
	auto t0 = std::chrono::steady_clock::now();
	auto el = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
	fflush(stdout);
	pid_t pid = fork();
	if (pid == 0) {
		rng ^= seed * 0x9E3779B97F4A7C15ull; for (int i = 0; i < 8; ++i) rnd();
		mode = ENUM; bool exhausted = false;
		uint64_t n = 0;
		auto fin = [&](int r) { if (r == 2) { S->failed = 1; _exit(2); } };
		auto sample = [&] { char b[2048]; size_t p = 0; for (uint32_t i = 0; i < S->n && i < 24 && p + 64 < sizeof b; ++i) p += snprintf(b + p, sizeof b - p, "%s=%llu ", S->ch[i].name, (unsigned long long)S->ch[i].v); b[p] = 0; memcpy(S->sample, b, sizeof b); };
		std::set<uint64_t> seen;
		auto hash = [&] { uint64_t x = 1469598103934665603ull; for (uint32_t i = 0; i < S->n; ++i) x = (x ^ S->ch[i].v) * 1099511628211ull; return x; };
		// contracts may leak (objects in boxes are not destroyed): stop exploring before memory runs low
		auto full = [&] { if (n % 256) return false; long pages = 0, rss = 0; if (FILE* f = fopen("/proc/self/statm", "r")) { if (fscanf(f, "%ld %ld", &pages, &rss) != 2) rss = 0; fclose(f); } return rss > (2l << 30) / 4096; };
		while (el() < secs * 0.4 && n < maxruns / 2 && !full()) {
			odopos = 0; int r = run_one(h); fin(r); n++;
			if (r == 0 && seen.size() < 200000 && seen.insert(hash()).second) S->distinct++;
			if (!next_odo()) { exhausted = true; break; }
		}
		(void)exhausted; mode = RANDOM;
		while (el() < secs && n < maxruns && !full()) { int r = run_one(h); fin(r); n++; if (r == 0) { if (seen.size() < 200000 && seen.insert(hash()).second) S->distinct++; if (S->n) sample(); } }
		if (S->rejects == S->runs) _exit(4);
		_exit(0);
	}
	// watchdog: a single run that never ends
	int st = 0; uint64_t lastruns = ~0ull; double lastt = 0; bool hang = false;
	while (waitpid(pid, &st, WNOHANG) == 0) {
		usleep(2000);
		if (S->runs != lastruns) { lastruns = S->runs; lastt = el(); }
		else if (el() - lastt > 20) { hang = true; kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
	}
	bool crash = !hang && !(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) && (!WIFEXITED(st) || (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 2 && WEXITSTATUS(st) != 4));
	bool failed = WIFEXITED(st) && WEXITSTATUS(st) == 2 && S->failed;
	if (hang) strcpy(S->label, "does not terminate (20 s on one input)");
	if (crash) strcpy(S->label, "memory: invalid access or undefined behaviour (sanitizer)");
	if ((failed || crash || hang) && out) { FILE* o = fopen(out, "w"); put_record(o); fclose(o); }
	printf("RESULT %s runs=%llu rejects=%llu distinct=%llu asserts=%llu label=%s\n", failed ? "fail" : crash ? "crash" : hang ? "hang" : (WIFEXITED(st) && WEXITSTATUS(st) == 4 ? "vacuous" : "ok"),
		(unsigned long long)S->runs, (unsigned long long)S->rejects, (unsigned long long)S->distinct, (unsigned long long)S->asserts, S->label);
	printf("SAMPLE %s\n", S->sample);
	return 0;
}
