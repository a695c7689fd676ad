#include "core.h"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dirent.h>
#include <fcntl.h>
#include <malloc.h>
#include <poll.h>
#include <pthread.h>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <set>
#include <sstream>
#include <unordered_set>
#include <sanitizer/asan_interface.h>
#include <sanitizer/allocator_interface.h>
#include <execinfo.h>
extern "C" void __sanitizer_symbolize_pc(void* pc, const char* fmt, char* out, size_t n);

using std::string; using std::vector;

extern "C" const char* __asan_default_options()
{
	return "detect_leaks=0:exitcode=99:allocator_may_return_null=1:max_malloc_fill_size=67108864:quarantine_size_mb=64:"
		"detect_odr_violation=0:handle_abort=1:handle_sigill=1:handle_sigfpe=1:detect_stack_use_after_return=0:"
		"max_allocation_size_mb=1024:malloc_context_size=12:print_legend=0:allocation_stack_traces=0";
}

// ---- coverage: which edges of the code under test the runs reached -----------------------------
static vector<std::pair<uint8_t*, uint8_t*>>& covRanges() { static vector<std::pair<uint8_t*, uint8_t*>> r; return r; }
extern "C" void __sanitizer_cov_8bit_counters_init(uint8_t* s, uint8_t* e)
{
	for (auto& r : covRanges()) if (r.first == s) return;
	covRanges().push_back({s, e});
}

namespace sim
{
	// ---------------------------------------------------------------------------------------------
	struct Counter { char name[48]; uint64_t n; };
	struct Shared
	{
		uint64_t hash, traceHash, nlog;
		double simTime; int64_t clock;
		int violated; char cls[300]; char msg[16384];
		Counter cnt[192];
		uint64_t states[64]; uint32_t nstates;
		uint64_t nops; uint64_t progress;
		uint32_t loglen; char log[4 << 20];
	};
	static Shared* G = nullptr;
	static uint8_t* covShared = nullptr; static size_t covTotal = 0;

	string strf(const char* fmt, ...)
	{
		va_list ap; va_start(ap, fmt); va_list aq; va_copy(aq, ap);
		int n = vsnprintf(nullptr, 0, fmt, ap); va_end(ap);
		string s((size_t) n, 0); vsnprintf(&s[0], (size_t) n + 1, fmt, aq); va_end(aq);
		return s;
	}
	uint64_t hashBytes(const void* p, size_t n, uint64_t h)
	{
		const uint8_t* b = (const uint8_t*) p;
		for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
		return h;
	}
	void logs(const string& s)
	{
		G->hash = hashBytes(s.data(), s.size(), G->hash); ++G->nlog;
		if (G->loglen + s.size() + 1 < sizeof(G->log))
		{
			memcpy(G->log + G->loglen, s.data(), s.size()); G->loglen += (uint32_t) s.size(); G->log[G->loglen++] = '\n';
		}
	}
	void logf(const char* fmt, ...)
	{
		char buf[8192]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap); logs(buf);
	}
	void trace(const string& s)
	{
		G->traceHash = hashBytes(s.data(), s.size(), G->traceHash);
		if (G->nstates < 64) G->states[G->nstates++] = G->traceHash;
	}
	static void bump(char tag, const char* name, uint64_t n)
	{
		for (auto& c : G->cnt)
		{
			if (c.name[0] == 0) { c.name[0] = tag; snprintf(c.name + 1, sizeof(c.name) - 1, "%s", name); c.n = n; return; }
			if (c.name[0] == tag && strncmp(c.name + 1, name, sizeof(c.name) - 2) == 0) { c.n += n; return; }
		}
	}
	void fault(const char* kind, uint64_t n) { bump('F', kind, n); trace(string("F") + kind); logf("fault %s", kind); }
	void probe(const char* name, uint64_t n) { bump('P', name, n); }
	void simTimeAdvance(double s) { G->simTime += s; G->clock += (int64_t) s; }
	int64_t now() { return G->clock; }
	static int64_t driftMs, driftLeft;
	void setDrift(int64_t ms) { driftMs = ms; driftLeft = 0; }
	void drift() { driftLeft += driftMs; int64_t s = driftLeft / 1000; driftLeft %= 1000; if (s) { G->clock += s; G->simTime += (double) s; } }
	void setNow(int64_t t) { int64_t d = t - G->clock; G->simTime += (double) (d < 0 ? -d : d); G->clock = t; }

	static const int EXIT_VIOL = 66, EXIT_CRASH = 77;
	void violates(const string& cls, const string& msg)
	{
		G->violated = 1;
		snprintf(G->cls, sizeof G->cls, "%s", cls.c_str());
		snprintf(G->msg, sizeof G->msg, "%s", msg.c_str());
		logs("VIOLATION " + cls);
		_exit(EXIT_VIOL);
	}
	void violate(const string& cls, const char* fmt, ...)
	{
		char buf[16000]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
		violates(cls, buf);
	}

	// ---------------------------------------------------------------------------------------------
	static void flushCoverage()
	{
		size_t k = 0;
		for (auto& r : covRanges()) for (uint8_t* p = r.first; p < r.second; ++p, ++k) if (*p) covShared[k] = 1;
	}
	void crash() { logs("crash"); trace("crash"); flushCoverage(); _exit(EXIT_CRASH); }
	void setProgress(uint64_t v) { G->progress = v; }
	uint64_t progress() { return G->progress; }
	namespace disk { static void processDied(); }
	bool life(const std::function<void()>& fn)
	{
		trace("life");
		pid_t p = fork();
		if (p < 0) { perror("fork"); _exit(98); }
		if (p == 0) { fn(); flushCoverage(); _exit(0); }
		int st = 0;
		while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
		if (WIFEXITED(st))
		{
			if (WEXITSTATUS(st) == 0) return true;
			if (WEXITSTATUS(st) == EXIT_CRASH) { disk::processDied(); return false; }
			_exit(WEXITSTATUS(st));
		}
		// Pass the signal on.
		if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); kill(getpid(), WTERMSIG(st)); }
		_exit(98);
	}

	// ---------------------------------------------------------------------------------------------
	bool gCwdLost = false; Modules* modules = nullptr;
	namespace disk
	{
		void loseCwd(bool b) { gCwdLost = b; }
		const char* kindName[KIND_COUNT] = {"none", "open_fail", "read_eio", "read_short", "write_enospc", "write_eio", "close_fail",
			"crash_write", "seek_fail", "crash_open"};
		static const int MAXF = 64; static const size_t CAP = 4 << 20;
		struct DFile { char path[240]; int used; size_t len; };
		struct Arm { int kind; int64_t a, b; int64_t hits; int done; };
		struct Disk
		{
			DFile f[MAXF]; Arm arms[16]; int narms; uint64_t fired, firedHard; int64_t handles; int opens; int64_t opensTotal;
			uint64_t wcalls, wbytes;
		};
		static Disk* D = nullptr; static char* data = nullptr;
		static void processDied() { D->handles = 0; D->narms = 0; }
		static string lastOpen;
		static void setup()
		{
			D = (Disk*) mmap(nullptr, sizeof(Disk), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
			data = (char*) mmap(nullptr, MAXF * CAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		}
		string norm(const char* p)
		{
			string in = p;
			if (in.empty() || in[0] != '/') in = string(SIMDIR "/") + in;
			vector<string> parts; string cur;
			for (size_t i = 0; i <= in.size(); ++i)
			{
				if (i == in.size() || in[i] == '/')
				{
					if (cur == "..") { if (!parts.empty()) parts.pop_back(); }
					else if (!cur.empty() && cur != ".") parts.push_back(cur);
					cur.clear();
				}
				else cur += in[i];
			}
			string out; for (auto& s : parts) out += "/" + s;
			return out.empty() ? "/" : out;
		}
		static int find(const string& path)
		{
			for (int i = 0; i < MAXF; ++i) if (D->f[i].used && path == D->f[i].path) return i;
			return -1;
		}
		static int create(const string& path)
		{
			int i = find(path);
			if (i >= 0) return i;
			if (path.size() >= sizeof(D->f[0].path)) return -1;
			for (i = 0; i < MAXF; ++i) if (!D->f[i].used)
			{
				D->f[i].used = 1; D->f[i].len = 0; snprintf(D->f[i].path, sizeof D->f[i].path, "%s", path.c_str()); return i;
			}
			return -1;
		}
		void reset() { memset(D, 0, sizeof *D); }
		bool put(const string& p, const string& s)
		{
			int i = create(norm(p.c_str())); if (i < 0 || s.size() > CAP) return false;
			memcpy(data + i * CAP, s.data(), s.size()); D->f[i].len = s.size(); return true;
		}
		bool get(const string& p, string& s)
		{
			int i = find(norm(p.c_str())); if (i < 0) return false;
			s.assign(data + i * CAP, D->f[i].len); return true;
		}
		bool exists(const string& p) { return find(norm(p.c_str())) >= 0; }
		void erase(const string& p) { int i = find(norm(p.c_str())); if (i >= 0) D->f[i].used = 0; }
		vector<string> list() { vector<string> v; for (int i = 0; i < MAXF; ++i) if (D->f[i].used) v.push_back(D->f[i].path); std::sort(v.begin(), v.end()); return v; }
		int openHandles() { return (int) D->handles; }
		uint64_t writeCalls() { return D->wcalls; }
		uint64_t bytesWritten() { return D->wbytes; }
		void arm(Kind k, int64_t a, int64_t b) { if (D->narms < 16) { Arm& x = D->arms[D->narms++]; x.kind = k; x.a = a; x.b = b; x.hits = 0; x.done = 0; } }
		void heal() { D->narms = 0; }
		void disarm() { D->narms = 0; D->fired = 0; D->firedHard = 0; D->opens = 0; D->wcalls = 0; D->wbytes = 0; }
		uint64_t fired() { return D->fired; }
		uint64_t firedHard() { return D->firedHard; }
		const string& lastOpened() { return lastOpen; }
		int opensSinceDisarm() { return D->opens; }
		static void fire(int k) { ++D->fired; if (k != READ_SHORT) ++D->firedHard; fault(kindName[k]); }
		static Arm* armed(int kind) { for (int i = 0; i < D->narms; ++i) if (D->arms[i].kind == kind && !D->arms[i].done) return &D->arms[i]; return nullptr; }

		struct Handle { int idx; size_t pos; bool write; char path[240]; };

		static ssize_t cRead(void* c, char* buf, size_t n)
		{
			Handle* h = (Handle*) c; DFile& f = D->f[h->idx];
			size_t avail = h->pos < f.len ? f.len - h->pos : 0; if (n > avail) n = avail;
			if (Arm* a = armed(READ_EIO))
			{
				if ((int64_t) (h->pos + n) > a->a || n == 0)
				{
					if ((int64_t) h->pos >= a->a || n == 0) { fire(READ_EIO); errno = EIO; return -1; }
					n = (size_t) (a->a - (int64_t) h->pos);
				}
			}
			if (Arm* a = armed(READ_SHORT)) if (n > 0)
			{
				size_t m = 1 + (size_t) (hashBytes(&h->pos, sizeof h->pos, (uint64_t) a->a) % 4096);
				if (m < n) { n = m; if (a->hits++ == 0) fire(READ_SHORT); }
			}
			memcpy(buf, data + h->idx * CAP + h->pos, n); h->pos += n;
			return (ssize_t) n;
		}
		static ssize_t cWrite(void* c, const char* buf, size_t n)
		{
			Handle* h = (Handle*) c; DFile& f = D->f[h->idx]; size_t want = n; int err = 0, kind = 0;
			++D->wcalls;
			if (!h->write) { errno = EBADF; return 0; }
			if (Arm* a = armed(WRITE_EIO)) if (++a->hits == a->a) { a->done = 1; fire(WRITE_EIO); errno = EIO; return 0; }
			if (Arm* a = armed(WRITE_ENOSPC)) if ((int64_t) n > a->a) { n = (size_t) std::max<int64_t>(a->a, 0); a->a = 0; err = ENOSPC; kind = WRITE_ENOSPC; }
			Arm* cr = armed(CRASH_WRITE); bool die = false;
			if (cr && (int64_t) n > cr->a) { n = (size_t) std::max<int64_t>(cr->a, 0); die = true; }
			if (h->pos + n > CAP) { n = CAP - h->pos; err = ENOSPC; kind = 0; }
			memcpy(data + h->idx * CAP + h->pos, buf, n);
			if (h->pos > f.len) memset(data + h->idx * CAP + f.len, 0, h->pos - f.len);
			h->pos += n; if (h->pos > f.len) f.len = h->pos; D->wbytes += n;
			if (Arm* a = armed(WRITE_ENOSPC)) if (!err) a->a -= (int64_t) n;
			if (cr) cr->a -= (int64_t) n;
			if (die) { fire(CRASH_WRITE); crash(); }
			if (err) { if (kind) fire(kind); errno = err; return (ssize_t) (n > 0 && n < want ? n : 0); }
			return (ssize_t) n;
		}
		static int cSeek(void* c, off64_t* off, int whence)
		{
			Handle* h = (Handle*) c; int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t) h->pos : (int64_t) D->f[h->idx].len;
			if (!(whence == SEEK_CUR && *off == 0))
				if (Arm* a = armed(SEEK_FAIL)) if (++a->hits == a->a) { a->done = 1; fire(SEEK_FAIL); errno = EIO; return -1; }
			int64_t p = base + *off; if (p < 0) { errno = EINVAL; return -1; }
			h->pos = (size_t) p; *off = p; return 0;
		}
		static int cClose(void* c)
		{
			Handle* h = (Handle*) c; --D->handles; int rc = 0;
			if (h->write) if (Arm* a = armed(CLOSE_FAIL))
			{
				a->done = 1; fire(CLOSE_FAIL); DFile& f = D->f[h->idx];
				f.len -= std::min<size_t>(f.len, (size_t) a->a); errno = EIO; rc = -1;
			}
			delete h; return rc;
		}
		FILE* open(const char* path, const char* mode)
		{
			string p = norm(path); ++D->opens; lastOpen = p;
			if (Arm* a = armed(OPEN_FAIL)) if (++a->hits == a->b) { a->done = 1; fire(OPEN_FAIL); errno = a->a ? (int) a->a : EACCES; return nullptr; }
			bool wr = mode[0] == 'w' || mode[0] == 'a', rw = strchr(mode, '+') != nullptr;
			int i = find(p);
			if (i < 0) { if (!wr) { errno = ENOENT; return nullptr; } i = create(p); if (i < 0) { errno = ENOSPC; return nullptr; } }
			if (mode[0] == 'w')
			{
				D->f[i].len = 0;
				if (armed(CRASH_OPEN)) { fire(CRASH_OPEN); crash(); }
			}
			Handle* h = new Handle; h->idx = i; h->pos = mode[0] == 'a' ? D->f[i].len : 0; h->write = wr || rw;
			snprintf(h->path, sizeof h->path, "%s", p.c_str());
			cookie_io_functions_t io = {cRead, cWrite, cSeek, cClose};
			FILE* fp = fopencookie(h, mode, io);
			if (!fp) { delete h; return nullptr; }
			++D->handles;
			logf("open %s %s", p.c_str(), mode);
			return fp;
		}
	}

	// ---------------------------------------------------------------------------------------------
	static volatile int64_t gLive = 0, gBlocks = 0; static int gInHook = 0;
	struct Kept { size_t n; void* pc[20]; int depth; };
	static std::map<const volatile void*, Kept>* gKept = nullptr; static bool gKeeping = false; static int gKeepBusy = 0;
	static void onMalloc(const volatile void* p, size_t n)
	{
		if (gKeepBusy) return;
		if (gKeeping) { ++gKeepBusy; Kept k; k.n = n; k.depth = backtrace(k.pc, 20); (*gKept)[p] = k; --gKeepBusy; }
		gLive += (int64_t) n; ++gBlocks;
		if (gLive > (int64_t) 1200 << 20 && !gInHook) { gInHook = 1; violates("runaway-memory", "more than 1200 MB live on the heap"); }
	}
	static void onFree(const volatile void* p)
	{
		if (!p || gKeepBusy) return;
		if (gKeeping) { ++gKeepBusy; gKept->erase(p); --gKeepBusy; }
		gLive -= (int64_t) __sanitizer_get_allocated_size(p); --gBlocks;
	}
	// Names the places that allocated what is left after the work: slow, for the report of a violation that is already established.
	string keptBy(const std::function<void()>& work)
	{
		++gKeepBusy; gKept = new std::map<const volatile void*, Kept>; --gKeepBusy; gKeeping = true; work(); gKeeping = false;
		string out; int shown = 0;
		for (auto& b : *gKept)
		{
			if (++shown > 5) break; out += strf("\n  %zu bytes from", b.second.n);
			for (int i = 0, f = 0; i < b.second.depth && f < 8; ++i) { char buf[1024]; buf[0] = 0; __sanitizer_symbolize_pc((char*) b.second.pc[i] - 1, "%f|%s", buf, sizeof buf); string s = buf; if (s.find("/FCollada") == string::npos && s.find("libxml") == string::npos) continue; s.resize(s.find('|')); s = s.substr(0, s.find('(')); out += " < " + s; ++f; }
		}
		return out;
	}
	int64_t liveBytes() { return gLive; }
	int64_t liveBlocks() { return gBlocks; }
	static vector<void*> noise;
	void heapNoise(Rng& rng, int n)
	{
		for (int i = 0; i < n; ++i)
		{
			if (!noise.empty() && rng.chance(0.4)) { size_t k = rng.below(noise.size()); free(noise[k]); noise[k] = noise.back(); noise.pop_back(); }
			else noise.push_back(malloc(16 + rng.below(600)));
		}
	}

	// ---------------------------------------------------------------------------------------------
	namespace sched
	{
		extern "C" int __real_pthread_mutex_lock(pthread_mutex_t*);
		extern "C" int __real_pthread_mutex_unlock(pthread_mutex_t*);
		extern "C" int __real_pthread_mutex_trylock(pthread_mutex_t*);
		uint64_t stamp = 0;
		struct T { pthread_t th; pthread_cond_t cv; bool done; bool run; std::function<void()> body; pthread_mutex_t* waiting; int id; };
		static pthread_mutex_t big = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t mainCv = PTHREAD_COND_INITIALIZER;
		static vector<T*> ts; static bool active = false, allDone = false; static Rng* rng = nullptr; static int64_t permille = 0;
		static uint64_t nsteps = 0, nsw = 0; static thread_local int me = -1; static int curRun = -1;
		struct Own { int id; int depth; }; static std::map<pthread_mutex_t*, Own> owners;
		static bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 127) == PTHREAD_MUTEX_RECURSIVE_NP; }
		int current() { return active ? me : -1; }
		uint64_t steps() { return nsteps; }
		uint64_t switches() { return nsw; }
		static int pickNext(int self)
		{
			vector<int> c;
			for (auto* t : ts) if (!t->done && !(t->waiting && owners.count(t->waiting))) c.push_back(t->id);
			if (c.empty()) return -1;
			return c[rng->below(c.size())];
		}
		// Called by the running thread with `big` not held.
		static void switchTo(int next)
		{
			if (next == me) return;
			++nsw; trace(strf("sw%d", next));
			curRun = next;
			ts[(size_t) next]->run = true; ts[(size_t) me]->run = false;
			pthread_cond_signal(&ts[(size_t) next]->cv);
		}
		static void park() { while (!ts[(size_t) me]->run) pthread_cond_wait(&ts[(size_t) me]->cv, &big); }
		void yield(const char*)
		{
			if (!active || me < 0) return;
			++nsteps;
			if (nsteps > 2000000) violates("no-progress", "scheduler step budget exhausted");
			if ((int64_t) rng->below(1000) >= permille) return;
			__real_pthread_mutex_lock(&big);
			int n = pickNext(me); if (n >= 0 && n != me) { switchTo(n); park(); }
			__real_pthread_mutex_unlock(&big);
		}
		extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
		{
			if (!active || me < 0) return __real_pthread_mutex_lock(m);
			yield("lock");
			__real_pthread_mutex_lock(&big);
			while (owners.count(m))
			{
				if (owners[m].id == me) { if (!recursive(m)) violates("self-deadlock", "a thread locks a mutex that it already holds"); ++owners[m].depth; __real_pthread_mutex_unlock(&big); return 0; }
				ts[(size_t) me]->waiting = m; int n = pickNext(me);
				if (n < 0) violates("deadlock", "every thread waits for a mutex");
				switchTo(n); park();
			}
			ts[(size_t) me]->waiting = nullptr; owners[m] = Own{me, 1};
			__real_pthread_mutex_unlock(&big);
			return 0;
		}
		extern "C" int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
		{
			if (!active || me < 0) return __real_pthread_mutex_unlock(m);
			__real_pthread_mutex_lock(&big); { auto it = owners.find(m); if (it != owners.end() && --it->second.depth == 0) owners.erase(it); } __real_pthread_mutex_unlock(&big);
			yield("unlock");
			return 0;
		}
		extern "C" int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
		{
			if (!active || me < 0) return __real_pthread_mutex_trylock(m);
			yield("trylock");
			__real_pthread_mutex_lock(&big); auto it = owners.find(m); bool busy = it != owners.end() && !(it->second.id == me && recursive(m)); if (!busy) { if (it == owners.end()) owners[m] = Own{me, 1}; else ++it->second.depth; } __real_pthread_mutex_unlock(&big);
			return busy ? EBUSY : 0;
		}
		// Every edge of the library's error and log code is a point where the scheduler may switch threads.
		extern "C" __attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc() { if (active && me >= 0) yield("edge"); }
		static void* entry(void* p)
		{
			T* t = (T*) p; me = t->id;
			__real_pthread_mutex_lock(&big); park(); __real_pthread_mutex_unlock(&big);
			t->body();
			__real_pthread_mutex_lock(&big);
			t->done = true; t->run = false;
			int n = pickNext(me);
			if (n >= 0) { curRun = n; ts[(size_t) n]->run = true; pthread_cond_signal(&ts[(size_t) n]->cv); }
			else
			{
				bool rest = false; for (auto* x : ts) if (!x->done) rest = true;
				if (rest) violates("deadlock", "every remaining thread waits for a mutex");
				allDone = true; pthread_cond_signal(&mainCv);
			}
			me = -1;
			__real_pthread_mutex_unlock(&big);
			return nullptr;
		}
		void run(uint64_t seed, int64_t sw, const vector<std::function<void()>>& bodies)
		{
			Rng r(seed); rng = &r; permille = sw; ts.clear(); owners.clear(); allDone = false; nsteps = 0;
			for (size_t i = 0; i < bodies.size(); ++i)
			{
				T* t = new T; t->done = t->run = false; t->body = bodies[i]; t->waiting = nullptr; t->id = (int) i;
				pthread_cond_init(&t->cv, nullptr); ts.push_back(t);
			}
			active = true;
			for (auto* t : ts) if (pthread_create(&t->th, nullptr, entry, t) != 0) _exit(98);
			__real_pthread_mutex_lock(&big);
			int n = (int) r.below(ts.size()); ts[(size_t) n]->run = true; pthread_cond_signal(&ts[(size_t) n]->cv);
			while (!allDone) pthread_cond_wait(&mainCv, &big);
			__real_pthread_mutex_unlock(&big);
			for (auto* t : ts) pthread_join(t->th, nullptr);
			active = false; rng = nullptr;
			for (auto* t : ts) delete t; ts.clear();
		}
	}

	// ---------------------------------------------------------------------------------------------
	string Plan::text() const
	{
		std::ostringstream o;
		o << "scenario " << scenario << "\nseed " << seed << "\n";
		for (auto& op : ops) { o << "op " << op.name; for (auto v : op.a) o << ' ' << v; o << '\n'; }
		return o.str();
	}
	bool Plan::parse(const string& text, Plan& out)
	{
		std::istringstream in(text); string line;
		while (std::getline(in, line))
		{
			std::istringstream l(line); string k; l >> k;
			if (k == "scenario") l >> out.scenario;
			else if (k == "seed") l >> out.seed;
			else if (k == "op") { Op op; l >> op.name; int64_t v; while (l >> v) op.a.push_back(v); out.ops.push_back(op); }
		}
		return !out.scenario.empty();
	}
	static vector<Scenario>& scenarios() { static vector<Scenario> s; return s; }
	void registerScenario(const Scenario& s) { scenarios().push_back(s); }
	static const Scenario* findScenario(const string& id) { for (auto& s : scenarios()) if (id == s.id) return &s; return nullptr; }

	// ---- one run --------------------------------------------------------------------------------
	struct Result { bool violated = false; string cls, msg, err; uint64_t hash = 0, traceHash = 0; int status = 0; };

	static string crashClass(const string& err, int status)
	{
		string kind = strf("exit-%d", status);
		size_t p = err.find("ERROR: AddressSanitizer: ");
		if (p != string::npos)
		{
			size_t e = err.find_first_of(" \n:", p + 25); kind = err.substr(p + 25, e - p - 25);
			if (kind == "attempting") kind = "bad-free";
			if (kind == "SEGV" || kind == "stack-overflow" || kind == "ABRT" || kind == "FPE" || kind == "ILL" || kind == "TRAP" || kind == "BUS") {}
		}
		else if (WIFSIGNALED(status)) kind = WTERMSIG(status) == SIGXCPU || WTERMSIG(status) == SIGKILL ? "hang" : strf("signal-%d", WTERMSIG(status));
		// First frame inside the code under test.
		string frame; size_t q = p == string::npos ? 0 : p;
		if (kind != "hang") while ((q = err.find(" in ", q)) != string::npos)
		{
			size_t eol = err.find('\n', q); string l = err.substr(q + 4, eol - q - 4);
			if (l.find("/FCollada/") != string::npos || l.find("/FColladaPlugins/") != string::npos)
			{
				// A container or string helper says little: the first frame that is not one names the class.
				size_t paren = l.find('('); size_t sp = l.find(" /"); bool helper = l.find("/FMath/") != string::npos || l.find(".h:") != string::npos || l.find(".hpp:") != string::npos || l.find("/FUtils/FUString") != string::npos;
				if (frame.empty() || !helper) frame = l.substr(0, std::min(paren, sp));
				if (!helper) break;
			}
			q = eol == string::npos ? err.size() : eol;
		}
		if (kind == "stack-overflow") frame.clear();
		return "crash:" + kind + (frame.empty() ? "" : ":" + frame);
	}

	static int errFd = -1; static bool gVerbose = false;
	static Result runPlan(const Plan& plan, const Scenario* sc)
	{
		G->hash = 1469598103934665603ull; G->traceHash = 1469598103934665603ull; G->nlog = 0; G->loglen = 0; G->violated = 0; G->cls[0] = G->msg[0] = 0;
		memset(G->cnt, 0, sizeof G->cnt); G->nstates = 0; G->simTime = 0; G->clock = 1700000000; G->nops = plan.ops.size(); G->progress = 0;
		disk::reset();
		if (ftruncate(errFd, 0) != 0) {}
		lseek(errFd, 0, SEEK_SET);
		int pfd[2]; if (pipe(pfd) != 0) _exit(98);
		fflush(stdout);
		pid_t pid = fork();
		if (pid < 0) { perror("fork"); _exit(98); }
		if (pid == 0)
		{
			setpgid(0, 0); close(pfd[0]);
			dup2(errFd, 2); dup2(errFd, 1);
			struct rlimit rl = {20, 25}; setrlimit(RLIMIT_CPU, &rl);
			rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
			__sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
			sc->run(plan);
			flushCoverage();
			_exit(0);
		}
		close(pfd[1]);
		struct pollfd pf = {pfd[0], POLLIN, 0}; bool timedOut = false;
		while (true)
		{
			int n = poll(&pf, 1, 120000);
			if (n < 0 && errno == EINTR) continue;
			if (n == 0) { kill(-pid, SIGKILL); kill(pid, SIGKILL); timedOut = true; }
			break;
		}
		close(pfd[0]);
		int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
		kill(-pid, SIGKILL);
		Result r; r.status = st; r.hash = G->hash; r.traceHash = G->traceHash;
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !timedOut) return r;
		if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_VIOL && G->violated) { r.violated = true; r.cls = G->cls; r.msg = G->msg; return r; }
		string err; { lseek(errFd, 0, SEEK_SET); char buf[65536]; ssize_t n; while ((n = read(errFd, buf, sizeof buf)) > 0) { err.append(buf, (size_t) n); if (err.size() > (1u << 20)) break; } }
		r.violated = true; r.err = err; r.cls = timedOut ? "crash:hang" : crashClass(err, st);
		r.msg = strf("the process under simulation ended abnormally (status 0x%x)", st);
		size_t p = err.find("ERROR: AddressSanitizer"); if (p != string::npos) r.msg += "\n" + err.substr(p, 3000); else r.msg += "\n" + err.substr(0, 1500);
		return r;
	}

	static bool sameClass(const string& a, const string& b) { return a == b; }

	// ddmin over the operations, then argument shrinking, while the violation class persists.
	static Plan minimise(Plan p, const Scenario* sc, const string& cls, int budget, double secs)
	{
		struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
		auto left = [&]() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return budget > 0 && (double) (t.tv_sec - t0.tv_sec) < secs; };
		auto fails = [&](const Plan& q) { --budget; Result r = runPlan(q, sc); return r.violated && sameClass(r.cls, cls); };
		size_t chunk = std::max<size_t>(1, p.ops.size() / 2);
		while (left())
		{
			bool any = false;
			for (size_t i = 0; i < p.ops.size() && left();)
			{
				Plan q = p; q.ops.erase(q.ops.begin() + (long) i, q.ops.begin() + (long) std::min(p.ops.size(), i + chunk));
				if (q.ops.size() < p.ops.size() && fails(q)) { p = q; any = true; } else i += chunk;
			}
			if (chunk == 1) { if (!any) break; } else chunk = std::max<size_t>(1, chunk / 2);
		}
		for (size_t i = 0; i < p.ops.size() && left(); ++i) for (size_t k = 0; k < p.ops[i].a.size() && left(); ++k)
		{
			for (int64_t v : {(int64_t) 0, (int64_t) 1, p.ops[i].a[k] / 2})
			{
				if (v == p.ops[i].a[k]) continue;
				Plan q = p; q.ops[i].a[k] = v; if (fails(q)) { p = q; break; }
			}
		}
		return p;
	}

	static string jsonEsc(const string& s)
	{
		string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char) c; } else if (c < 32 || c > 126) o += strf("\\u%04x", c); else o += (char) c; }
		return o;
	}
	static void allocShared()
	{
		G = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		for (auto& r : covRanges()) covTotal += (size_t) (r.second - r.first);
		covShared = (uint8_t*) mmap(nullptr, covTotal + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		disk::setup();
		errFd = (int) memfd_create("simerr", 0);
	}
}

// ---- seams: link-time wraps ---------------------------------------------------------------------
extern "C"
{
	FILE* __wrap_fopen(const char* p, const char* m) { return sim::disk::open(p, m); }
	FILE* __wrap_fopen64(const char* p, const char* m) { return sim::disk::open(p, m); }
	time_t __wrap_time(time_t* t) { sim::drift(); time_t v = (time_t) sim::now(); if (t) *t = v; return v; }
	int __real_clock_gettime(clockid_t, struct timespec*);
	int __wrap_clock_gettime(clockid_t c, struct timespec* t) { if (c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE) return __real_clock_gettime(c, t); sim::drift(); t->tv_sec = (time_t) sim::now(); t->tv_nsec = 0; return 0; }
	int __wrap_gettimeofday(struct timeval* t, void*) { sim::drift(); if (t) { t->tv_sec = (time_t) sim::now(); t->tv_usec = 0; } return 0; }
	char* __wrap_getcwd(char* b, size_t n)
	{
		if (sim::gCwdLost) { errno = ENOENT; return nullptr; } const char* c = SIMDIR; if (!b) { b = (char*) malloc(n ? n : 64); n = n ? n : 64; }
		if (n < strlen(c) + 1) { errno = ERANGE; return nullptr; }
		return strcpy(b, c);
	}
	int __wrap_mkdir(const char* p, mode_t) { sim::logf("mkdir %s", p); return 0; }
	int __wrap_chdir(const char* p) { sim::logf("chdir %s", p); return 0; }
	int __wrap_remove(const char* p) { if (!sim::disk::exists(p)) { errno = ENOENT; return -1; } sim::disk::erase(p); return 0; }
	int __wrap_unlink(const char* p) { return __wrap_remove(p); }
	int __wrap_rename(const char* a, const char* b)
	{
		std::string d; if (!sim::disk::get(a, d)) { errno = ENOENT; return -1; }
		sim::disk::put(b, d); sim::disk::erase(a); return 0;
	}
	int __wrap_raise(int sig) { sim::logf("raise %d", sig); sim::violates("assert-trap", "an assertion stopped the process"); return 0; }
	// The folder of the program: a listing and loadable libraries made by the scenario.
	struct SimDir { size_t at = 0; struct dirent e; };
	DIR* __wrap_opendir(const char* p)
	{
		if (sim::modules) { sim::modules->listed.push_back(p); if (sim::modules->folder == p) { sim::fault("program folder listed"); return (DIR*) new SimDir(); } }
		errno = ENOENT; return nullptr;
	}
	struct dirent* __wrap_readdir(DIR* d)
	{
		SimDir* s = (SimDir*) d; if (!sim::modules || s->at >= sim::modules->names.size()) return nullptr;
		memset(&s->e, 0, sizeof s->e); snprintf(s->e.d_name, sizeof s->e.d_name, "%s", sim::modules->names[s->at].c_str()); s->e.d_type = sim::modules->names[s->at].back() == '/' ? DT_DIR : DT_REG; ++s->at; return &s->e;
	}
	int __wrap_closedir(DIR* d) { delete (SimDir*) d; return 0; }
	ssize_t __wrap_readlink(const char*, char* b, size_t n)
	{
		if (!sim::modules || sim::modules->exe.empty()) { errno = ENOENT; return -1; }
		size_t k = sim::modules->exe.size() < n ? sim::modules->exe.size() : n; memcpy(b, sim::modules->exe.data(), k); return (ssize_t) k;
	}
	void* __real_dlopen(const char*, int); void* __real_dlsym(void*, const char*); int __real_dlclose(void*);
	// (The sanitizer's own start goes through these before any scenario runs.)
	__attribute__((no_sanitize("address", "undefined"))) void* __wrap_dlopen(const char* p, int f) { if (!sim::modules) return __real_dlopen(p, f); if (!sim::modules->symbols.count(p)) return nullptr; ++sim::modules->loaded[p]; return &*sim::modules->symbols.find(p); }
	__attribute__((no_sanitize("address", "undefined"))) void* __wrap_dlsym(void* h, const char* n) { if (!sim::modules) return __real_dlsym(h, n); auto* m = (std::pair<const std::string, std::map<std::string, void*>>*) h; auto i = m->second.find(n); return i == m->second.end() ? nullptr : i->second; }
	int __wrap_dlclose(void* h) { if (!sim::modules) return __real_dlclose(h); auto* m = (std::pair<const std::string, std::map<std::string, void*>>*) h; --sim::modules->loaded[m->first]; return 0; }
}

extern "C" FILE* __real_fopen(const char*, const char*);
using namespace sim;
int main(int argc, char** argv)
{
	int pers = personality(0xffffffff);
	if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC"))
	{
		if (personality((unsigned long) pers | ADDR_NO_RANDOMIZE) >= 0) { setenv("SIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
	}
	setenv("TZ", "UTC", 1); setenv("USER", "simuser", 1); unsetenv("USERNAME");
	signal(SIGPIPE, SIG_IGN);
	string mode = argc > 1 ? argv[1] : "";
	allocShared();
	if (mode == "batch" && argc >= 9)
	{
		// batch <scenario> <seed> <worker> <nworkers> <runs> <maxsecs> <outdir> [tier]
		const Scenario* sc = findScenario(argv[2]); if (!sc) { fprintf(stderr, "unknown scenario\n"); return 3; }
		uint64_t base = strtoull(argv[3], nullptr, 10); int w = atoi(argv[4]), nw = atoi(argv[5]); int64_t runs = atoll(argv[6]); double maxs = atof(argv[7]);
		string out = argv[8]; int tier = argc > 9 ? atoi(argv[9]) : 0;
		struct timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0);
		std::map<string, uint64_t> cnt; std::unordered_set<uint64_t> traces, states; double simTime = 0; uint64_t n = 0, nops = 0, withFault = 0; 
		std::map<string, int> seen; uint64_t hashAll = 0; FILE* vf = nullptr;
		for (int64_t i = w; i < runs; i += nw)
		{
			clock_gettime(CLOCK_MONOTONIC, &t); if ((double) (t.tv_sec - t0.tv_sec) > maxs) break;
			Plan p; p.scenario = sc->id; p.seed = base * 1000003ull + (uint64_t) i; Rng rng(p.seed); sc->gen(rng, p, tier);
			Result r = runPlan(p, sc); ++n; nops += p.ops.size(); simTime += G->simTime; traces.insert(r.traceHash); hashAll ^= r.hash * (2 * (uint64_t) i + 1);
			for (uint32_t k = 0; k < G->nstates; ++k) states.insert(G->states[k]);
			bool f = false; for (auto& c : G->cnt) if (c.name[0]) { cnt[c.name] += c.n; if (c.name[0] == 'F') f = true; } if (f) ++withFault;
			if (getenv("SIM_HASHES")) printf("H %lld %016llx\n", (long long) i, (unsigned long long) r.hash);
			if (r.violated && seen[r.cls]++ == 0)
			{
				const char* kn = getenv("SIM_KNOWN"); bool isKnown = kn && (string("\n") + kn + "\n").find("\n" + string(sc->id) + " " + r.cls + "\n") != string::npos;
				Plan m = isKnown ? p : minimise(p, sc, r.cls, tier ? 1500 : 400, tier ? 120 : 30);
				Result r2 = runPlan(m, sc);
				string fn = out + strf("/viol-%s-%d-%d.plan", sc->id, w, (int) seen.size());
				vf = __real_fopen(fn.c_str(), "w");
				if (vf)
				{
					fprintf(vf, "# violation class: %s\n# seed index %lld (base %llu), %zu operations minimised to %zu\n", r2.cls.c_str(), (long long) i, (unsigned long long) base, p.ops.size(), m.ops.size());
					std::istringstream ms(r2.msg); string l; while (std::getline(ms, l)) fprintf(vf, "# %s\n", l.c_str());
					fprintf(vf, "class %s\nhash %016llx\n%s", r2.cls.c_str(), (unsigned long long) r2.hash, m.text().c_str()); fclose(vf);
				}
				printf("V {\"class\":\"%s\",\"file\":\"%s\",\"index\":%lld,\"msg\":\"%s\",\"ops\":%zu,\"min\":%zu}\n", jsonEsc(r2.cls).c_str(), jsonEsc(fn).c_str(), (long long) i, jsonEsc(r2.msg.substr(0, 600)).c_str(), p.ops.size(), m.ops.size());
				fflush(stdout);
				if (seen.size() > 12) break;
			}
		}
		clock_gettime(CLOCK_MONOTONIC, &t);
		{
			string fn = out + strf("/cov-%s-%d.bin", sc->id, w); FILE* cf = __real_fopen(fn.c_str(), "wb"); if (cf) { fwrite(covShared, 1, covTotal, cf); fclose(cf); }
			fn = out + strf("/traces-%s-%d.txt", sc->id, w); cf = __real_fopen(fn.c_str(), "w");
			if (cf) { for (auto h : traces) fprintf(cf, "t%016llx\n", (unsigned long long) h); for (auto h : states) fprintf(cf, "s%016llx\n", (unsigned long long) h); fclose(cf); }
		}
		printf("S {\"runs\":%llu,\"ops\":%llu,\"with_fault\":%llu,\"sim_time\":%.0f,\"wall\":%.2f,\"hash\":\"%016llx\",\"viol\":{", (unsigned long long) n, (unsigned long long) nops, (unsigned long long) withFault, simTime,
			(double) (t.tv_sec - t0.tv_sec) + 1e-9 * (double) (t.tv_nsec - t0.tv_nsec), (unsigned long long) hashAll);
		bool first = true; for (auto& s : seen) { printf("%s\"%s\":%d", first ? "" : ",", jsonEsc(s.first).c_str(), s.second); first = false; }
		printf("},\"counts\":{"); first = true;
		for (auto& c : cnt) { printf("%s\"%s\":%llu", first ? "" : ",", jsonEsc(c.first).c_str(), (unsigned long long) c.second); first = false; }
		printf("}}\n");
		return 0;
	}
	if ((mode == "replay" && argc >= 3) || (mode == "one" && argc >= 4))
	{
		Plan p; const char* lv = nullptr;
		if (mode == "replay")
		{
			FILE* f = __real_fopen(argv[2], "r"); if (!f) { perror(argv[2]); return 3; }
			string s; char buf[65536]; size_t n; while ((n = fread(buf, 1, sizeof buf, f)) > 0) s.append(buf, n); fclose(f);
			if (!Plan::parse(s, p)) return 3;
		}
		const Scenario* sc = findScenario(mode == "one" ? argv[2] : p.scenario); if (!sc) { fprintf(stderr, "unknown scenario\n"); return 3; }
		if (mode == "one") { p.scenario = sc->id; uint64_t base = argc > 4 ? strtoull(argv[4], nullptr, 10) : 1; p.seed = base * 1000003ull + strtoull(argv[3], nullptr, 10); Rng rng(p.seed); sc->gen(rng, p, argc > 5 ? atoi(argv[5]) : 0); }
		lv = getenv("SIM_VERBOSE"); gVerbose = lv != nullptr;
		if (gVerbose) printf("%s", p.text().c_str());
		Result r = runPlan(p, sc);
		if (const char* dd = getenv("SIM_DUMP")) for (auto& f : disk::list())
		{
			string d, n = f; disk::get(f, d); for (auto& c : n) if (c == '/') c = '_';
			FILE* o = __real_fopen((string(dd) + "/" + n).c_str(), "wb"); if (o) { fwrite(d.data(), 1, d.size(), o); fclose(o); }
		}
		if (gVerbose) { fwrite(G->log, 1, G->loglen, stdout); for (auto& c : G->cnt) if (c.name[0]) printf("count %s %llu\n", c.name, (unsigned long long) c.n); }
		printf("R {\"violated\":%s,\"class\":\"%s\",\"hash\":\"%016llx\",\"msg\":\"%s\"}\n", r.violated ? "true" : "false", jsonEsc(r.cls).c_str(), (unsigned long long) r.hash, jsonEsc(r.msg.substr(0, 4000)).c_str());
		if (gVerbose && r.violated) { printf("%s\n", r.msg.c_str()); if (getenv("SIM_ERR")) printf("%s\n", r.err.c_str()); }
		return r.violated ? 1 : 0;
	}
	fprintf(stderr, "usage: %s batch|replay|one ...\n", argv[0]);
	return 3;
}
