// S16: delivery of events under re-entrant registration, removal and triggering. S17: delivery of errors between threads.
#include "model.h"
#include <algorithm>
#include <memory>
#include <set>
#include "FUtils/FUEvent.h"
#include "FUtils/FUError.h"
#include "FUtils/FUErrorLog.h"
#include "FUtils/FULogFile.h"
#include "FUtils/FUFile.h"
using namespace sim; using namespace model;
namespace
{
	// ---- S16 ---------------------------------------------------------------------------------------------------------
	// "reg <event> <key> <script>" "rel <event> <key>" "fire <event> <value>"; a script is a seed for what the handler does when called.
	void genEvents(Rng& r, Plan& p, int tier)
	{
		int n = (int) r.range(5, tier ? 60 : 40); bool wild = r.chance(0.7);
		for (int i = 0; i < n; ++i)
		{
			int x = (int) r.below(10); int64_t e = r.chance(0.8) ? 0 : 1;
			if (x < 5) p.ops.push_back(Op("reg", {e, (int64_t) r.below(6), wild && r.chance(0.5) ? r.range(1, 100000) : 0}));
			else if (x < 7) p.ops.push_back(Op("rel", {e, (int64_t) r.below(6)}));
			else p.ops.push_back(Op("fire", {e, (int64_t) r.below(1000)}));
		}
		p.ops.push_back(Op("fire", {0, 7}));
	}
	struct Registration { int id; int key; };
	struct Run { int ev; int value; std::vector<int> todo; size_t at; };
	FUEvent<int, std::string, Run*>* ev[2]; std::vector<Registration> regs[2]; std::vector<Run*> active; int nextReg = 0; int budget = 0; char keys[8];
	void fire(int e, int value);
	bool registered(int e, int id) { for (auto& r : regs[e]) if (r.id == id) return true; return false; }
	struct Handler
	{
		int e, id, key; uint64_t script; std::shared_ptr<std::string> mark; int64_t pad[3];
		void operator()(int value, std::string text, Run* run)
		{
			if (active.empty() || active.back()->ev != e) violate("call-outside-trigger", "a handler was called although its event is not being triggered");
			Run& r = *active.back();
			if (run != &r || value != r.value || text != strf("text%d", value)) violate("wrong-arguments", "a handler was called with other arguments than the trigger's");
			if (!registered(e, id)) violate("removed-handler-called", "a handler was called after its removal");
			while (r.at < r.todo.size() && r.todo[r.at] != id && !registered(e, r.todo[r.at])) ++r.at;
			if (r.at >= r.todo.size() || r.todo[r.at] != id)
			{
				bool known = false, before = false; for (size_t i = 0; i < r.todo.size(); ++i) if (r.todo[i] == id) { known = true; before = i < r.at; }
				violate(known ? before ? "called-twice" : "wrong-order" : "new-handler-called", known ? before ? "a handler was called twice in one delivery" : "handlers were called out of order or one was left out" : "a handler registered during the delivery was called in it");
			}
			++r.at; trace("call");
			act();
			if (*mark != strf("mark%d", id)) violate("handler-destroyed-while-running", "the state of a handler changed while it was running");
		}
		void act()
		{
			uint64_t s = script; if (!s) return;
			Rng g(s + (uint64_t) active.size() * 977);
			for (int k = (int) g.below(3); k >= 0 && budget > 0; --k)
			{
				--budget; int x = (int) g.below(9);
				if (x < 2) rel(e, key);                                          // itself
				else if (x < 4) rel(e, (int) g.below(6));                         // others
				else if (x < 6) reg(e, (int) g.below(6), g.chance(0.3) ? g.below(100000) : 0);
				else if (x < 7) rel(1 - e, (int) g.below(6));
				else if (active.size() < 4) { probe("triggered while being delivered"); fire(g.chance(0.8) ? e : 1 - e, (int) g.below(1000)); }
			}
		}
		static void reg(int e, int key, uint64_t script)
		{
			if (!active.empty()) probe("registered while being delivered");
			Handler h; h.e = e; h.id = nextReg++; h.key = key; h.script = script; h.mark = std::make_shared<std::string>(strf("mark%d", h.id));
			regs[e].push_back({h.id, key}); ev[e]->InsertHandler(&keys[key], h);
		}
		static void rel(int e, int key)
		{
			if (!active.empty()) probe("removed while being delivered");
			bool had = false; for (auto& r : regs[e]) if (r.key == key) had = true;
			if (!had) probe("removed what is not registered");
			// One registration, the oldest, per removal.
			auto f = std::find_if(regs[e].begin(), regs[e].end(), [&](const Registration& r) { return r.key == key; }); if (f != regs[e].end()) regs[e].erase(f);
			ev[e]->ReleaseHandler(&keys[key]);
			if (ev[e]->GetHandlerCount() != regs[e].size()) violate("handler-count", "%zu handlers are registered, the model has %zu", ev[e]->GetHandlerCount(), regs[e].size());
		}
	};
	void fire(int e, int value)
	{
		Run r; r.ev = e; r.value = value; r.at = 0; for (size_t i = regs[e].size(); i > 0; --i) r.todo.push_back(regs[e][i - 1].id);
		active.push_back(&r); trace(strf("fire%zu", r.todo.size()));
		(*ev[e])(value, strf("text%d", value), &r);
		active.pop_back();
		for (; r.at < r.todo.size(); ++r.at) if (registered(e, r.todo[r.at])) violate("handler-not-called", "a registered handler was not called");
	}
	void runEvents(const Plan& plan)
	{
		life([&]()
		{
			for (auto& e : ev) e = new FUEvent<int, std::string, Run*>();
			for (auto& o : plan.ops)
			{
				budget = 60; int e = (int) (o.arg(0) & 1);
				if (o.name == "reg") Handler::reg(e, (int) (o.arg(1) % 6), (uint64_t) o.arg(2)); else if (o.name == "rel") Handler::rel(e, (int) (o.arg(1) % 6)); else fire(e, (int) o.arg(1));
				for (int k = 0; k < 2; ++k) if (ev[k]->GetHandlerCount() != regs[k].size()) violate("handler-count", "%zu handlers are registered, the model has %zu", ev[k]->GetHandlerCount(), regs[k].size());
			}
			for (auto& e : ev) delete e;
		});
	}

	// ---- S17 ---------------------------------------------------------------------------------------------------------
	// Threads: "t <thread> <what> <a> <b>"; what: 0 raise, 1 add listener, 2 remove listener, 3 open log, 4 close log, 5 open collector, 6 close collector, 7 silence.
	void genErrors(Rng& r, Plan& p, int tier)
	{
		int nt = (int) r.range(1, 4); int n = (int) r.range(4, tier ? 50 : 30); bool re = r.chance(0.4);
		p.ops.push_back(Op("cfg", {(int64_t) r.below(1000000), r.chance(0.2) ? 0 : r.range(5, 400), (int64_t) r.below(6), (int64_t) r.below(3)}));
		for (int i = 0; i < n; ++i)
		{
			int x = (int) r.below(20); int64_t t = (int64_t) r.below((uint64_t) nt);
			if (x < 11) p.ops.push_back(Op("t", {t, 0, (int64_t) r.below(3), (int64_t) r.below(400), r.chance(0.1) ? (int64_t) 4294967295u : (int64_t) r.below(100000)}));
			else if (x < 14) p.ops.push_back(Op("t", {t, 1, (int64_t) r.below(3), re && r.chance(0.5) ? r.range(1, 4) : 0}));
			else if (x < 16) p.ops.push_back(Op("t", {t, 2, (int64_t) r.below(4)}));
			else if (x < 18) p.ops.push_back(Op("t", {t, r.chance(0.6) ? 3 : 4, (int64_t) r.below(3)}));
			else p.ops.push_back(Op("t", {t, r.chance(0.6) ? 5 : 6, (int64_t) r.below(3)}));
		}
	}
	struct Msg { int level; uint32 code, arg; uint64_t from, to; };
	struct Seen { int msg; };
	struct Listener
	{
		int level = 0, mode = 0; uint64_t addFrom = 0, addTo = 0, remFrom = ~0ull, remTo = ~0ull; std::vector<int> seen; bool inCall = false; FUErrorLog* log = nullptr; FUErrorSimpleHandler* col = nullptr; S file; S text; int minimum = 0; bool open = false; int owner = -1; bool reacted = false;
	};
	std::vector<Msg> msgs; std::vector<Listener*> lst; uint64_t tick = 0;
	std::vector<int> raising[8];
	void raise(int level, uint32 code, uint32 arg)
	{
		int th = std::max(0, sched::current()); int id = (int) msgs.size(); msgs.push_back({level, code, arg, ++tick, ~0ull}); raising[th].push_back(id);
		bool fatal = FUError::Error((FUError::Level) level, code, arg);
		raising[th].pop_back(); msgs[(size_t) id].to = ++tick;
		if (fatal != (level >= FUError::GetFatalityLevel())) violate("wrong-fatality", "Error answers %d for level %d, the fatality level is %d", fatal, level, (int) FUError::GetFatalityLevel());
	}
	void addListener(int level, int mode);
	void removeListener(Listener* l) { l->remFrom = ++tick; FUError::RemoveErrorCallback((FUError::Level) l->level, l); l->remTo = ++tick; l->open = false; }
	void onError(Listener* l, FUError::Level level, uint32 code, uint32 arg)
	{
		int th = std::max(0, sched::current()); ++tick; trace(strf("in%d", th));
		if (l->remTo != ~0ull) violate("removed-listener-called", "a listener was called after its removal had returned");
		if ((int) level != l->level) violate("wrong-level", "a listener of level %d was given a message of level %d", l->level, (int) level);
		if (raising[th].empty()) violate("no-message", "a listener was called on a thread that raised nothing");
		int id = raising[th].back(); Msg& m = msgs[(size_t) id];
		if (m.level != (int) level || m.code != code || m.arg != arg) violate("wrong-message", "a listener was given code %u line %u, the message was code %u line %u", code, arg, m.code, m.arg);
		if (std::find(l->seen.begin(), l->seen.end(), id) != l->seen.end()) violate("delivered-twice", "a message was delivered twice to a listener");
		l->seen.push_back(id);
		sched::yield("listener");
		if (l->mode && !l->reacted)
		{
			l->reacted = true; probe("listener reacts inside a delivery");
			if (l->mode == 1) raise(((int) level + 1) % 3, 900, 1);
			else if (l->mode == 2) removeListener(l);
			else if (l->mode == 3) addListener(l->level, 0);
			else raise((int) level, 901, 2);
		}
	}
	void addListener(int level, int mode)
	{
		Listener* l = new Listener(); l->level = level; l->mode = mode; l->owner = sched::current(); l->open = true; lst.push_back(l); l->addFrom = ++tick;
		FUError::AddErrorCallback((FUError::Level) level, l, [l](FUError::Level a, uint32 b, uint32 c) { onError(l, a, b, c); });
		l->addTo = ++tick;
	}
	S custom;
	S line(const Msg& m) { S s = strf("[%u] ", m.arg); if (m.level == FUError::WARNING_LEVEL) s += "Warning: "; else if (m.level == FUError::ERROR_LEVEL) s += "ERROR: "; return s + FUError::GetErrorString((FUError::Code) m.code); }
	// Which messages a text collector must hold, and in which order it may hold them.
	void checkText(Listener* l, const std::vector<S>& got, const char* what)
	{
		std::map<S, int> may, must; for (auto& m : msgs)
		{
			if (m.level < l->minimum) continue;
			bool before = m.to < l->addFrom, after = m.from > l->remTo; if (before || after) continue;
			++may[line(m)]; if (m.from > l->addTo && m.to < l->remFrom) ++must[line(m)];
		}
		std::map<S, int> have; for (auto& g : got) ++have[g];
		for (auto& h : have) if (!may.count(h.first)) violate("text-invented", "%s holds '%s', which nobody reported", what, h.first.substr(0, 200).c_str()); else if (h.second > may[h.first]) violate("text-repeated", "%s holds '%s' %d times, it was reported at most %d times", what, h.first.substr(0, 200).c_str(), h.second, may[h.first]);
		for (auto& m : must) if (have[m.first] < m.second) violate("text-lost", "%s holds '%s' %d times, it was reported %d times", what, m.first.substr(0, 200).c_str(), have[m.first], m.second);
		// Messages that do not overlap in time keep their order.
		std::map<S, std::pair<uint64_t, uint64_t>> span; std::map<S, int> times; for (auto& m : msgs) { S t = line(m); ++times[t]; span[t] = {m.from, m.to}; }
		for (size_t i = 0; i + 1 < got.size(); ++i) if (times[got[i]] == 1 && times[got[i + 1]] == 1 && span[got[i + 1]].second < span[got[i]].first) violate("text-reordered", "%s holds two messages in the wrong order", what);
	}
	std::vector<S> lines(const S& t, bool crlf)
	{
		std::vector<S> o; S c; for (size_t i = 0; i < t.size(); ++i) { if (t[i] == '\n') { if (!c.empty()) o.push_back(c); c.clear(); } else if (!(crlf && t[i] == '\r')) c += t[i]; }
		if (!c.empty()) o.push_back(c); return o;
	}
	void runErrors(const Plan& plan)
	{
		life([&]()
		{
			Op cfg; for (auto& o : plan.ops) if (o.name == "cfg") cfg = o;
			static const char* texts[] = {"a plain text", "100% of %s and %n and %d", "", "two words\twith a tab", "%", "%5000d"};
			custom = texts[cfg.arg(2) % 6]; if (cfg.arg(2) == 3) custom += S(3000, 'x'); FUError::SetCustomErrorString(custom.c_str());
			FUError::SetFatalityLevel((FUError::Level) (cfg.arg(3) % 3));
			std::vector<std::vector<const Op*>> per(4); for (auto& o : plan.ops) if (o.name == "t") per[(size_t) (o.arg(0) % 4)].push_back(&o);
			std::vector<std::function<void()>> bodies; int nfile = 0;
			std::vector<uint32> codes; for (int c = 0; c < 400; ++c) codes.push_back((uint32) c);
			auto body = [&](size_t th)
			{
				std::vector<Listener*> mine;
				auto find = [&](int64_t n, int kind) -> Listener* { std::vector<Listener*> c; for (auto* l : mine) if (l->open && (kind == 0 ? !l->log && !l->col : kind == 1 ? l->log != nullptr : l->col != nullptr)) c.push_back(l); return c.empty() ? nullptr : c[(size_t) n % c.size()]; };
				for (auto* o : per[th])
				{
					switch (o->arg(1))
					{
					case 0: raise((int) (o->arg(2) % 3), o->arg(3) >= 380 ? (uint32) FUError::ERROR_CUSTOM_STRING : codes[(size_t) (o->arg(3) % 400)], (uint32) o->arg(4)); break;
					case 1: { size_t n = lst.size(); addListener((int) (o->arg(2) % 3), (int) (o->arg(3) % 5)); mine.push_back(lst[n]); for (size_t k = n; k < lst.size(); ++k) if (lst[k]->owner == (int) th) mine.back() = lst[k]; break; }
					case 2: { Listener* l = find(o->arg(2), 0); if (l && l->remFrom == ~0ull) removeListener(l); break; }
					case 3: { Listener* l = new Listener(); l->minimum = (int) (o->arg(2) % 3); l->file = strf(SIMDIR "/log%d.txt", nfile++); l->open = true; lst.push_back(l); mine.push_back(l); l->addFrom = ++tick; l->log = new FUErrorLog(l->file.c_str(), (FUError::Level) l->minimum); l->addTo = ++tick; break; }
					case 4: { Listener* l = find(o->arg(2), 1); if (l) { l->remFrom = ++tick; delete l->log; l->log = nullptr; l->remTo = ++tick; l->open = false; } break; }
					case 5: { Listener* l = new Listener(); l->minimum = 0; l->open = true; lst.push_back(l); mine.push_back(l); l->addFrom = ++tick; l->col = new FUErrorSimpleHandler((FUError::Level) (o->arg(2) % 3)); l->addTo = ++tick; l->level = (int) (o->arg(2) % 3); break; }
					default: break;
					}
					sched::yield("between");
				}
			};
			size_t used = 0; for (size_t i = 0; i < per.size(); ++i) if (!per[i].empty()) used = i + 1;
			if (!used) return;
			for (size_t i = 0; i < used; ++i) bodies.push_back([&, i]() { body(i); });
			sched::run((uint64_t) cfg.arg(0), cfg.arg(1), bodies); if (sched::switches()) fault("thread switch", sched::switches());
			// The threads are done: close what is open, in order, and compare with what was reported.
			for (auto* l : lst)
			{
				if (l->col)
				{
					if (l->remFrom == ~0ull) l->remFrom = ++tick;
					l->text = l->col->GetErrorString(); bool okHas = l->col->IsSuccessful(), must = false, may = false;
					for (auto& m : msgs) { if (m.level >= l->level && !(m.to < l->addFrom)) { may = true; if (m.from > l->addTo) must = true; } }
					if ((must && okHas) || (!may && !okHas)) violate("collector-verdict", "the error collector answers %d", okHas);
					delete l->col; l->remTo = ++tick; checkText(l, lines(l->text, false), "the error collector");
				}
				else if (!l->file.empty())
				{
					if (l->log) { l->remFrom = ++tick; delete l->log; l->remTo = ++tick; l->log = nullptr; }
					S t; disk::get(l->file, t); checkText(l, lines(t, true), "the log file");
				}
			}
			if (disk::openHandles() != 0) violate("log-handle-leak", "%d files are still open after the logs were closed", disk::openHandles());
			for (size_t k = 0, count = lst.size(); k < count; ++k) if (Listener* l = lst[k]; !l->col && l->file.empty())
			{
				for (size_t i = 0; i < msgs.size(); ++i)
				{
					Msg& m = msgs[i]; bool got = std::find(l->seen.begin(), l->seen.end(), (int) i) != l->seen.end();
					if (m.level == l->level && m.from > l->addTo && m.to < l->remFrom && !got) violate("not-delivered", "a listener registered for level %d missed a message of that level", l->level);
					if (got && (m.to < l->addFrom || m.from > l->remTo)) violate("delivered-outside", "a listener was given a message from outside of its registration");
				}
				if (l->open) { size_t n = l->seen.size(); removeListener(l); raise(l->level, 950, 3); if (l->seen.size() != n) violate("removed-listener-called", "a removed listener was called"); }
			}
			probe("message delivered", msgs.size());
		});
	}
	Reg r0("events", genEvents, runEvents), r1("errors", genErrors, runErrors);
}
