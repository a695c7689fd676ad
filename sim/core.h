// Deterministic simulator core: one integer (a plan) decides everything.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim
{
	// ---- randomness -------------------------------------------------------------------------
	struct Rng
	{
		uint64_t s;
		explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
		uint64_t next()
		{
			uint64_t z = (s += 0x9E3779B97F4A7C15ull);
			z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
			z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
			return z ^ (z >> 31);
		}
		uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
		int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t) below((uint64_t) (hi - lo + 1)); }
		bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
		template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
	};

	// ---- plans ------------------------------------------------------------------------------
	// A plan is the whole execution: the operations, their own seeds and the faults, in order.
	struct Op
	{
		std::string name;
		std::vector<int64_t> a;
		Op() {}
		Op(const std::string& n, std::vector<int64_t> args = {}) : name(n), a(std::move(args)) {}
		int64_t arg(size_t i, int64_t dflt = 0) const { return i < a.size() ? a[i] : dflt; }
	};
	struct Plan
	{
		std::string scenario;
		uint64_t seed = 0;
		std::vector<Op> ops;
		std::string text() const;
		static bool parse(const std::string& text, Plan& out);
	};

	struct Scenario
	{
		const char* id;
		void (*gen)(Rng& rng, Plan& plan, int tier);
		void (*run)(const Plan& plan);
	};
	void registerScenario(const Scenario& s);
	struct Reg { Reg(const char* id, void (*g)(Rng&, Plan&, int), void (*r)(const Plan&)) { registerScenario({id, g, r}); } };

	// ---- observation ------------------------------------------------------------------------
	void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
	void logs(const std::string& s);
	void trace(const std::string& s);                    // control-flow only: the interleaving/state measure
	void fault(const char* kind, uint64_t n = 1);        // a fault that actually fired
	void probe(const char* name, uint64_t n = 1);        // a rare condition that was reached
	void simTimeAdvance(double seconds);
	[[noreturn]] void violate(const std::string& cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
	[[noreturn]] void violates(const std::string& cls, const std::string& msg);
	std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
	uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
	inline uint64_t hashStr(const std::string& s) { return hashBytes(s.data(), s.size()); }

	// ---- process lives ----------------------------------------------------------------------
	// Runs fn in a process of its own. Only the simulated disk survives it. Returns true if it ran to its
	// end, false if the simulator crashed it (crash()). Anything else ends the run as a violation.
	bool life(const std::function<void()>& fn);
	[[noreturn]] void crash();
	void setProgress(uint64_t v);        // survives a crashed life
	uint64_t progress();

	// ---- simulated clock --------------------------------------------------------------------
	int64_t now();
	void setNow(int64_t t);
	void setDrift(int64_t ms);   // the clock moves by so much at every reading
	void drift();

	// ---- simulated disk ---------------------------------------------------------------------
	namespace disk
	{
		void reset();
		bool put(const std::string& path, const std::string& data);      // test-side write, no faults
		bool get(const std::string& path, std::string& data);            // test-side read, no faults
		bool exists(const std::string& path);
		void erase(const std::string& path);
		std::vector<std::string> list();
		void loseCwd(bool lost);                                           // the working directory was removed
		int openHandles();
		uint64_t writeCalls();                                             // write calls since disarm()
		uint64_t bytesWritten();

		enum Kind
		{
			NONE = 0,
			OPEN_FAIL,      // a=errno-ish, the nth open fails
			READ_EIO,       // read error once offset a has been reached
			READ_SHORT,     // legal: reads return at most a bytes at a time (buffer boundaries move)
			WRITE_ENOSPC,   // the disk has room for a more bytes, then ENOSPC
			WRITE_EIO,      // the nth write call fails
			CLOSE_FAIL,     // closing reports EIO; the data of the last a bytes is lost
			CRASH_WRITE,    // the process dies once a bytes have been written
			SEEK_FAIL,      // the nth seek fails
			CRASH_OPEN,     // the process dies right after the file was truncated by open
			KIND_COUNT
		};
		extern const char* kindName[KIND_COUNT];
		void arm(Kind k, int64_t a, int64_t b = 0);
		void disarm();
		void heal();          // no further faults; the counts stay
		uint64_t fired();     // faults fired since disarm()
		uint64_t firedHard(); // of those, the ones that lose data or fail a call
		const std::string& lastOpened();
		int opensSinceDisarm();
	}

	// ---- the program's folder and the libraries in it ----------------------------------------
	struct Modules
	{
		std::string exe;                      // where the program is; empty: the system does not tell
		std::string folder;                   // the folder that can be listed
		std::vector<std::string> names;       // what is in it
		std::map<std::string, std::map<std::string, void*>> symbols;   // by path; a file without an entry is no library
		std::map<std::string, int> loaded;    // dlopen calls minus dlclose calls, by path
		std::vector<std::string> listed;      // the folders that were asked for
	};
	extern Modules* modules;

	// ---- memory -----------------------------------------------------------------------------
	int64_t liveBytes();
	int64_t liveBlocks();
	std::string keptBy(const std::function<void()>& work);
	void heapNoise(Rng& rng, int n);   // perturbs heap addresses (iteration order of pointer-keyed maps)

	// ---- thread scheduler: real threads, one runs at a time, the plan decides which ---------
	namespace sched
	{
		void run(uint64_t seed, int64_t switchPermille, const std::vector<std::function<void()>>& bodies);
		void yield(const char* where);
		int current();              // -1 outside
		uint64_t steps();
		uint64_t switches();
		extern uint64_t stamp;      // global event sequence number
	}
}
#define SIMDIR "/simfs"
