// S21: time stamps over simulated clock jumps, saves, loads, clones and failing disks.
#include "model.h"
#include <algorithm>
#include <functional>
#include <cstring>
#include <errno.h>
#include <libxml/parser.h>
#include <libxml/tree.h>
using namespace sim; using namespace model;
namespace
{
	// Days to civil date and back, independent of the C library.
	S stamp(int64_t t)
	{
		int64_t d = t / 86400, s = t % 86400; if (s < 0) { s += 86400; --d; }
		int64_t y = 1970; auto leap = [](int64_t q) { return (q % 4 == 0 && q % 100 != 0) || q % 400 == 0; };
		while (d < 0) { --y; d += leap(y) ? 366 : 365; }
		while (d >= (leap(y) ? 366 : 365)) { d -= leap(y) ? 366 : 365; ++y; }
		int m = 0; static const int len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
		while (true) { int n = len[m] + (m == 1 && leap(y)); if (d < n) break; d -= n; ++m; }
		return strf("%04d-%02d-%02dT%02d:%02d:%02dZ", (int) y, m + 1, (int) d + 1, (int) (s / 3600), (int) (s / 60 % 60), (int) (s % 60));
	}
	S stamp(const FUDateTime& t) { return strf("%04u-%02u-%02uT%02u:%02u:%02uZ", (unsigned) t.GetYear(), (unsigned) t.GetMonth(), (unsigned) t.GetDay(), (unsigned) t.GetHour(), (unsigned) t.GetMinutes(), (unsigned) t.GetSeconds()); }
	const int64_t DAY = 86400, END = 4102444800ll; // 2100-01-01
	int64_t instant(Rng& r)
	{
		static const int64_t edges[] = {0, 951782400 /* 2000-02-29 */, 951868799, 951868800, 946684799, 946684800, 1078012800 /* 2004-02-29 */, 1234567890, 2147483647, 2147483648ll, 4294967295ll < END ? 4294967295ll : END - 1, END - 1, 68169600 /* 1972-02-29 */, 1709164800, 1709251199, 1709251200};
		int64_t t;
		switch (r.below(5)) { case 0: t = edges[r.below(sizeof(edges) / sizeof(*edges))] + r.range(-2, 2); break; case 1: t = (int64_t) r.below((uint64_t) (END / DAY)) * DAY + r.range(-2, 2); break; case 2: t = (int64_t) r.below((uint64_t) (END / 3600)) * 3600 + r.range(-2, 2); break; default: t = (int64_t) r.below((uint64_t) END); }
		return std::min(END - 1, std::max((int64_t) 0, t));
	}
	void genClock(Rng& r, Plan& p, int tier)
	{
		bool faulty = r.chance(0.35); p.ops.push_back(Op("zone", {(int64_t) r.below(6)})); p.ops.push_back(Op("drift", {r.chance(0.5) ? 0 : (int64_t) r.range(1, 5000)}));
		p.ops.push_back(Op("jump", {instant(r)})); p.ops.push_back(Op("boot"));
		int n = (int) r.range(5, tier ? 60 : 30); bool saved = false;
		for (int i = 0; i < n; ++i)
		{
			int x = (int) r.below(24);
			if (x < 6) p.ops.push_back(Op("jump", {instant(r)})); else if (x < 9) p.ops.push_back(Op("tick", {(int64_t) r.range(-3700, 90000)}));
			else if (x < 12) p.ops.push_back(Op("asset", {(int64_t) r.below(6)})); else if (x < 13) p.ops.push_back(Op("drop", {(int64_t) r.below(6)}));
			else if (x < 15) p.ops.push_back(Op("set", {(int64_t) r.below(100), instant(r), (int64_t) r.below(2)})); else if (x < 17) p.ops.push_back(Op("clone", {(int64_t) r.below(100)}));
			else if (x < 20 || !saved) { p.ops.push_back(Op("save", {(int64_t) r.below(2)})); saved = true; }
			else if (x < 21 && faulty) p.ops.push_back(Op("badsave", {(int64_t) r.below(4), (int64_t) r.below(3000)}));
			else if (x < 23) p.ops.push_back(Op("load", {(int64_t) r.below(2)})); else p.ops.push_back(Op("reboot", {(int64_t) r.below(2)}));
		}
		p.ops.push_back(Op("save", {0})); p.ops.push_back(Op("load", {0}));
	}
	struct A { S made, modified; };
	// Slot: -1 the document, 0..3 lights, 4 the light library, 5 the visual scene node's asset.
	struct Clock
	{
		FCDocument* doc = nullptr; std::map<int, A> want; Session& s; explicit Clock(Session& x) : s(x) {}
		FCDAsset* asset(int k, bool make)
		{
			if (k < 0) return doc->GetAsset();
			if (k == 4) { if (doc->GetLightLibrary()->GetEntityCount() == 0) asset(0, true); return doc->GetLightLibrary()->GetAsset(make); }
			FCDEntity* e = doc->FindEntity(strf("e%d", k).c_str());
			if (!e) { if (!make) return nullptr; if (k == 5) { FCDSceneNode* v = doc->AddVisualScene(); v->SetDaeId(fm::string("vs")); e = v->AddChildNode(); } else e = doc->GetLightLibrary()->AddEntity(); e->SetDaeId(fm::string(strf("e%d", k).c_str())); e->SetName("x"); }
			return make ? e->GetAsset() : const_cast<FCDAsset*>(((const FCDEntity*) e)->GetAsset());
		}
		void check(const char* when)
		{
			for (auto& w : want)
			{
				FCDAsset* a = asset(w.first, false); if (!a) violate("asset-lost", "the asset of slot %d is gone %s", w.first, when);
				S m = stamp(a->GetCreationDateTime()), n = stamp(a->GetModifiedDateTime());
				if (m != w.second.made) violate("creation-changed", "the creation time of slot %d is %s instead of %s %s", w.first, m.c_str(), w.second.made.c_str(), when);
				if (n != w.second.modified) violate("modified-wrong", "the modification time of slot %d is %s instead of %s %s", w.first, n.c_str(), w.second.modified.c_str(), when);
			}
		}
		void between(const S& v, int64_t a, int64_t b, const char* what) { for (int64_t t = a; t <= b && t < a + 20000; ++t) if (stamp(t) == v) return; violate("not-the-clock", "%s is %s, the clock went from %s to %s", what, v.c_str(), stamp(a).c_str(), stamp(b).c_str()); }
		void made(int k, int64_t t0) { FCDAsset* a = asset(k, true); S m = stamp(a->GetCreationDateTime()), n = stamp(a->GetModifiedDateTime()); between(m, t0, now(), "a creation time"); if (m != n) violate("modified-at-birth", "a new asset is created at %s and modified at %s", m.c_str(), n.c_str()); want[k] = {m, n}; }
		void have(int k) { int64_t t0 = now(); if (!want.count(k)) { if (k == 4 && !doc->GetLightLibrary()->GetEntityCount()) { have(0); t0 = now(); } made(k, t0); } }
	};
	S fileOf(int64_t n) { return strf(SIMDIR "/clock%d.dae", (int) (n % 2)); }
	void stampsInFile(const S& path, std::map<S, A>& out)
	{
		S t; disk::get(path, t); xmlDoc* d = xmlReadMemory(t.data(), (int) t.size(), "x", nullptr, XML_PARSE_HUGE); if (!d) violate("file-unreadable", "the saved file is not XML");
		std::function<void(xmlNode*)> walk = [&](xmlNode* n)
		{
			if (!strcmp((const char*) n->name, "asset")) { xmlNode* p = n->parent; xmlChar* id = xmlGetProp(p, BAD_CAST "id"); S key = id ? S((char*) id) : S((const char*) p->name); if (id) xmlFree(id); A a; for (xmlNode* c = n->children; c; c = c->next) { if (c->type != XML_ELEMENT_NODE) continue; xmlChar* v = xmlNodeGetContent(c); if (!strcmp((const char*) c->name, "created")) a.made = (char*) v; if (!strcmp((const char*) c->name, "modified")) a.modified = (char*) v; xmlFree(v); } out[key] = a; }
			for (xmlNode* c = n->children; c; c = c->next) if (c->type == XML_ELEMENT_NODE) walk(c);
		};
		walk(xmlDocGetRootElement(d)); xmlFreeDoc(d);
	}
	S slotKey(int k) { return k < 0 ? "COLLADA" : k == 4 ? "library_lights" : strf("e%d", k); }
	void runClock(const Plan& plan)
	{
		size_t at = 0; int from = -1;
		static const char* zones[] = {"UTC", "EST5EDT", "XYZ-13", "ABC11:30", "Europe/Paris", "QRS-5:45"}; int64_t drift = 0; const char* zone = "UTC"; for (auto& o : plan.ops) { if (o.name == "zone") zone = zones[o.arg(0) % 6]; if (o.name == "drift") drift = o.arg(0); }
		while (at < plan.ops.size())
		{
			size_t end = at; while (end < plan.ops.size() && plan.ops[end].name != "reboot") ++end;
			life([&]()
			{
				setenv("TZ", zone, 1); tzset(); sim::setDrift(drift);
				Session s; Clock c(s); int64_t t0 = now(); std::map<S, std::map<int, A>> files;
				// What the files hold is known from the last life.
				for (int f = 0; f < 2; ++f) { S w; if (!disk::get(strf("/stamps%d", f), w)) continue; const char* p = w.c_str(); int k, n; char a[40], b[40]; while (sscanf(p, "%d %39s %39s\n%n", &k, a, b, &n) == 3) { files[fileOf(f)][k] = {a, b}; p += n; } }
				auto load = [&](const S& path)
				{
					bool ok = false; c.doc = loadNew(path, ok); if (!ok || s.err.errors) violate("load-refused", "the saved file does not load: %s", s.err.list.empty() ? "no error" : s.err.list[0].c_str());
					c.want = files[path]; c.check("after loading it"); probe("loaded");
				};
				for (size_t i = at; i < end; ++i)
				{
					const Op& o = plan.ops[i]; trace(o.name);
					if (o.name == "jump") { setNow(o.arg(0)); fault("clock jump"); }
					else if (o.name == "tick") setNow(std::min(END - 1, std::max((int64_t) 0, now() + o.arg(0))));
					if (o.name == "zone" || o.name == "drift" || o.name == "jump" || o.name == "tick" || o.name == "boot") { if (o.name == "boot" && !c.doc) { t0 = now(); c.doc = FCollada::NewTopDocument(); c.made(-1, t0); } if (c.doc) c.check("after the clock moved"); continue; }
					if (!c.doc) { if (from >= 0) load(fileOf(from)); else { t0 = now(); c.doc = FCollada::NewTopDocument(); c.made(-1, t0); } }
					if (o.name == "asset") c.have((int) (o.arg(0) % 6));
					else if (o.name == "drop") { int k = (int) (o.arg(0) % 6); if (!c.want.count(k) || k == 4) continue; if (k < 4 && c.doc->GetLightLibrary()->GetEntityCount() < 2) continue; FCDEntity* e = c.doc->FindEntity(strf("e%d", k).c_str()); e->Release(); c.want.erase(k); }
					else if (o.name == "set")
					{
						auto it = c.want.begin(); std::advance(it, (long) ((size_t) o.arg(0) % c.want.size())); FCDAsset* a = c.asset(it->first, true); FUDateTime& d = o.arg(2) ? a->GetCreationDateTime() : a->GetModifiedDateTime(); S v = stamp(o.arg(1)); unsigned q[6]; sscanf(v.c_str(), "%u-%u-%uT%u:%u:%u", q, q + 1, q + 2, q + 3, q + 4, q + 5);
						d.SetYear(q[0]); d.SetMonth(q[1]); d.SetDay(q[2]); d.SetHour(q[3]); d.SetMinutes(q[4]); d.SetSeconds(q[5]); (o.arg(2) ? it->second.made : it->second.modified) = v;
					}
					else if (o.name == "clone")
					{
						auto it = c.want.begin(); std::advance(it, (long) ((size_t) o.arg(0) % c.want.size())); t0 = now(); FCDAsset* k = c.asset(it->first, true)->Clone();
						if (stamp(k->GetCreationDateTime()) != it->second.made) violate("clone-creation", "a cloned asset is created at %s, the original at %s", stamp(k->GetCreationDateTime()).c_str(), it->second.made.c_str());
						c.between(stamp(k->GetModifiedDateTime()), t0, now(), "the modification time of a clone"); k->Release();
					}
					else if (o.name == "save")
					{
						S path = fileOf(o.arg(0)); t0 = now(); s.reset(); if (!save(c.doc, path) || s.err.errors) violate("save-refused", "the document could not be saved");
						for (auto& w : c.want) { FCDAsset* a = c.asset(w.first, false); w.second.modified = stamp(a->GetModifiedDateTime()); c.between(w.second.modified, t0, now(), "the modification time after a save"); }
						c.check("after saving");
						std::map<S, A> in; stampsInFile(path, in); for (auto& w : c.want) { auto it = in.find(slotKey(w.first)); if (it == in.end()) violate("stamp-unsaved", "the file has no time stamps for slot %d", w.first); if (it->second.made != w.second.made || it->second.modified != w.second.modified) violate("stamp-in-file", "slot %d is saved with %s and %s instead of %s and %s", w.first, it->second.made.c_str(), it->second.modified.c_str(), w.second.made.c_str(), w.second.modified.c_str()); }
						files[path] = c.want; S w; for (auto& x : c.want) w += strf("%d %s %s\n", x.first, x.second.made.c_str(), x.second.modified.c_str()); disk::put(strf("/stamps%d", (int) (o.arg(0) % 2)), w); probe("saved");
					}
					else if (o.name == "badsave")
					{
						static const disk::Kind kinds[] = {disk::OPEN_FAIL, disk::WRITE_ENOSPC, disk::WRITE_EIO, disk::CLOSE_FAIL};
						t0 = now(); if (o.arg(0) % 4 == 0) disk::arm(disk::OPEN_FAIL, EACCES, 1); else disk::arm(kinds[o.arg(0) % 4], o.arg(0) % 4 == 2 ? 1 : o.arg(1) % 700); bool ok = save(c.doc, SIMDIR "/bad.dae"); (void) ok; disk::disarm(); s.reset(); probe("save under faults");
						for (auto& w : c.want) { S m = stamp(c.asset(w.first, false)->GetModifiedDateTime()); if (m != w.second.modified) { c.between(m, t0, now(), "the modification time after a failed save"); w.second.modified = m; } }
					}
					else if (o.name == "load") { S path = fileOf(o.arg(0)); if (!files.count(path)) continue; c.doc->Release(); c.want.clear(); load(path); }
					c.check("after the operation");
				}
				if (c.doc) c.doc->Release(); s.close();
			});
			from = -1; if (end < plan.ops.size()) { int f = (int) (plan.ops[end].arg(0) % 2); S w; if (disk::get(strf("/stamps%d", f), w)) from = f; }
			at = end + 1;
		}
	}
	Reg r0("clock", genClock, runClock);
}
