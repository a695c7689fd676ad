// S19: transports registered for URI schemes, over histories of registration, loading, references and removal.
#include "model.h"
#include <algorithm>
#include <set>
using namespace sim; using namespace model;
namespace
{
	const char* urls[] = { "http://h/a.dae", "http://h/sub/b.dae", "http://h:8080/p.dae", "https://s/c.dae", "ftp://f/d.dae", SIMDIR "/e.dae", SIMDIR "/sub/f.dae" };
	const int NURLS = 7;
	const FUUri::Scheme schemes[] = { FUUri::HTTP, FUUri::HTTPS, FUUri::FTP, FUUri::FILE };
	enum { COPY, NOTHING, NOFILE, HALF };
	int schemeOf(const S& u) { return u.compare(0, 7, "http://") == 0 ? 0 : u.compare(0, 8, "https://") == 0 ? 1 : u.compare(0, 6, "ftp://") == 0 ? 2 : 3; }
	void genTransport(Rng& r, Plan& p, int tier)
	{
		int n = (int) r.range(12, tier ? 100 : 45); bool fault = r.chance(0.4);
		auto R = [&](int m) { return (int64_t) r.below(m); };
		if (r.chance(0.03)) p.ops.push_back(Op("nocwd"));
		for (int i = 0; i < NURLS; ++i) if (r.chance(0.95)) p.ops.push_back(Op("serve", {i, r.chance(0.85) ? COPY : R(4), R(64), R(1 << 12), r.chance(0.12) ? R(27) : 0}));
		for (int i = 0; i < 3; ++i) { p.ops.push_back(Op("doc", {i})); for (int k = 0; k < 4; ++k) if (r.chance(0.8)) p.ops.push_back(Op("reg", {i, k, r.chance(0.7) ? 7 : R(8), r.chance(0.4) ? R(4) : 0})); }
		for (int i = 0; i < n; ++i)
		{
			int x = (int) r.below(30); int64_t s = R(3);
			if (x < 4) { p.ops.push_back(Op("doc", {s})); for (int k = 0; k < 4; ++k) if (r.chance(0.8)) p.ops.push_back(Op("reg", {s, k, r.chance(0.7) ? 7 : R(8), r.chance(0.4) ? R(4) : 0})); if (r.chance(0.7)) p.ops.push_back(Op("load", {s, R(NURLS), R(2), fault && r.chance(0.3) ? 1 + R(3000) : 0, R(2)})); }
			else if (x < 6) p.ops.push_back(Op("reg", {s, R(4), r.chance(0.8) ? 7 : R(8), r.chance(0.4) ? R(4) : 0}));
			else if (x < 7) p.ops.push_back(Op("unreg", {s, R(4)}));
			else if (x < 8 && r.chance(0.4)) p.ops.push_back(Op("unregall", {s}));
			else if (x < 9) p.ops.push_back(Op("clone", {s, R(3)}));
			else if (x < 11) p.ops.push_back(Op("serve", {R(NURLS), r.chance(0.7) ? COPY : R(4), R(64), R(1 << 12), r.chance(0.12) ? R(27) : 0}));
			else if (x < 17) p.ops.push_back(Op("load", {s, R(NURLS), R(2), fault && r.chance(0.3) ? 1 + R(3000) : 0, R(2)}));
			else if (x < 22) p.ops.push_back(Op("resolve", {R(40), fault && r.chance(0.2) ? 1 + R(3000) : 0}));
			else if (x < 24) p.ops.push_back(Op("read", {s, R(NURLS), fault && r.chance(0.2) ? 1 + R(3000) : 0}));
			else if (x < 25) p.ops.push_back(Op("write", {s, R(NURLS), R(500)}));
			else if (x < 26) p.ops.push_back(Op("exists", {s, R(NURLS)}));
			else if (x < 27) p.ops.push_back(Op("request", {s, R(NURLS), R(1000)}));
			else if (x < 28) p.ops.push_back(Op("answer", {R(8)}));
			else if (x < 29) p.ops.push_back(Op("save", {s}));
			else p.ops.push_back(Op("close", {s}));
		}
	}
	struct Content { int serial = 0; bool good = false; std::vector<std::pair<S, S>> refs; S text; };
	struct Served { int mode = NOTHING; Content c; S chain; };
	struct Trans { int tag = 0; bool load = false, exists = false, request = false; int openers = 0; int parts() const { return load + exists + request + openers; } };
	typedef std::map<int, Trans> Table;
	struct Call { S kind; int tag; S url, path; Content c; bool there; };
	struct Ref { S tag, url; FCDEntityInstance* i; };
	struct Doc { FCDocument* d; FUTrackedPtr<FCDAsset> life; S url; Table table; bool top; Content c; bool loaded = false; std::vector<Ref> refs; };
	std::map<int, int> alive;
	struct Tok { int tag; explicit Tok(int t) : tag(t) { ++alive[tag]; } Tok(const Tok& o) : tag(o.tag) { ++alive[tag]; } Tok& operator=(const Tok&) = delete; ~Tok() { --alive[tag]; } };
	struct Pending { SchemeOnCompleteCallback* cb; size_t data; S url; };
	struct World
	{
		std::map<S, Served> server; std::map<S, Content> raw; std::vector<Call> calls; std::vector<Doc*> docs; Doc* slot[3] = {}; int serial = 0, files = 0, tags = 0; bool vague = false; std::vector<Pending> pending; S sent;
		Content make(int64_t mask, int64_t links, int from)
		{
			Content c; c.good = true; c.serial = ++serial;
			c.text = strf("<?xml version=\"1.0\"?>\n<COLLADA xmlns=\"http://www.collada.org/2005/11/COLLADASchema\" version=\"1.4.1\">\n<asset><created>2010-01-01T00:00:00Z</created><modified>2010-01-01T00:00:00Z</modified></asset>\n<library_lights><light id=\"L\" name=\"N%d\"><technique_common><ambient><color>1 1 1</color></ambient></technique_common></light></library_lights>\n<library_visual_scenes><visual_scene id=\"V\">\n", c.serial);
			for (int k = from + 1; k < NURLS; ++k) if ((mask >> (k - 1)) & 1)
			{
				S u = urls[k], t = strf("T%d-%d", c.serial, k);
				if (((links >> k) & 1) && from == 0 && k == 1) u = "sub/b.dae"; if (((links >> k) & 1) && from == 5 && k == 6) u = "./sub/../sub/f.dae"; if (u[0] == '/' && ((links >> k) & 1)) u = "file://" + u;
				c.refs.push_back({t, u}); c.text += "<node id=\"" + t + "\" name=\"" + t + "\"><instance_light url=\"" + u + "#L\"/></node>\n";
			}
			for (int64_t pad = (links >> 8) * 100; pad > 0; --pad) c.text += "<!-- padding -->\n";
			c.text += "</visual_scene></library_visual_scenes>\n<scene><instance_visual_scene url=\"#V\"/></scene>\n</COLLADA>\n"; return c;
		}
		static S absolute(const S& base, S u)
		{
			if (u.compare(0, 7, "file://") == 0) return u.substr(7); if (u.find("://") != S::npos || u[0] == '/') return u;
			S b = base.substr(0, base.rfind('/')); while (true) { if (u.compare(0, 2, "./") == 0) u = u.substr(2); else break; } size_t x = u.find("sub/../"); if (x != S::npos) u.erase(x, 7); return b + "/" + u;
		}
		// ---- the application's side of a transport
		S fetch(int tag, const FUUri& uri)
		{
			S u = TO_STRING(uri.GetScheme() == FUUri::FILE ? uri.GetAbsolutePath() : uri.GetAbsoluteUri()).c_str(); Call c; c.kind = "load"; c.tag = tag; c.url = u; c.there = false; Served& s = server[u];
			if (s.mode == COPY || s.mode == HALF)
			{
				S data = s.mode == COPY ? s.c.text : s.c.text.substr(0, s.c.text.size() * 2 / 3); c.c = s.c; c.c.good = s.mode == COPY; c.path = strf(SIMDIR "/cache/%d.dae", ++files);
				for (char k : s.chain) { data = S("PACK") + k + data; c.path += S(".p") + k; }
				disk::put(c.path, data); c.there = true; sent = data;
			}
			else if (s.mode == NOFILE) c.path = strf(SIMDIR "/cache/none%d.dae", ++files);
			logf("transport %d asked for %s: %s", tag, u.c_str(), c.path.c_str()); calls.push_back(c); fault(s.mode == COPY ? "transport delivered" : s.mode == HALF ? "transport delivered a part" : s.mode == NOFILE ? "transport named a missing file" : "transport delivered nothing"); return c.path;
		}
		Trans install(FUFileManager* m, int scheme, int64_t mask, int openers)
		{
			Trans t; t.tag = ++tags; t.load = mask & 1; t.exists = mask & 2; t.request = mask & 4; t.openers = openers; SchemeCallbacks* c = NewSchemeCallbacks(); Tok tok(t.tag);
			if (t.load) c->load = new SchemeLoadCallback([this, tok](const FUUri& u) { return TO_FSTRING(fm::string(fetch(tok.tag, u).c_str())); });
			if (t.exists) c->exists = new SchemeExistsCallback([this, tok](const FUUri& u) { S x = TO_STRING(u.GetScheme() == FUUri::FILE ? u.GetAbsolutePath() : u.GetAbsoluteUri()).c_str(); Call k; k.kind = "exists"; k.tag = tok.tag; k.url = x; calls.push_back(k); return server[x].mode == COPY; });
			if (t.request) c->request = new SchemeRequestFileCallback([this, tok](const FUUri& u, SchemeOnCompleteCallback* cb, size_t data) { S x = TO_STRING(u.GetScheme() == FUUri::FILE ? u.GetAbsolutePath() : u.GetAbsoluteUri()).c_str(); Call k; k.kind = "request"; k.tag = tok.tag; k.url = x; calls.push_back(k); pending.push_back({cb, data, x}); });
			for (int i = 0; i < openers; ++i) c->openers.push_back(new SchemePreProcessCallback([this, tok, i](const fstring& in, fstring& out)
			{
				S p = in.c_str(), suffix = strf(".p%d", i); Call k; k.kind = "opener"; k.tag = tok.tag; k.url = p; k.there = false;
				if (p.size() > suffix.size() && p.compare(p.size() - 3, 3, suffix) == 0) { S d; disk::get(p, d); k.path = p.substr(0, p.size() - 3); k.there = true; disk::put(k.path, d.size() > 5 ? d.substr(5) : S()); out = k.path.c_str(); fault("file processed before opening"); }
				calls.push_back(k); return k.there;
			}));
			m->SetSchemeCallbacks(schemes[scheme], c); return t;
		}
		// ---- what opening must do: consumes the calls it explains from position 'at', answers the file the library must read
		struct Opened { S path; bool there = false; Content c; bool moved = false; };
		Opened opening(const Table& t, const S& url, size_t& at, const char* op)
		{
			Opened o; o.path = url; o.c = Content(); int sc = schemeOf(url); auto it = t.find(sc); bool has = it != t.end();
			if (has && it->second.load)
			{
				if (at >= calls.size() || calls[at].kind != "load" || calls[at].url != url || calls[at].tag != it->second.tag) violate("transport-not-used", "'%s' of '%s' has to ask transport %d for it, but %s", op, url.c_str(), it->second.tag, at < calls.size() ? strf("asked %s of transport %d for '%s'", calls[at].kind.c_str(), calls[at].tag, calls[at].url.c_str()).c_str() : "asked nobody");
				o.path = calls[at].path; o.there = calls[at].there; o.c = calls[at].c; ++at;
			}
			else if (sc == 3) { auto r = raw.find(url); o.there = r != raw.end(); if (o.there) o.c = r->second; }
			if (has && it->second.openers)
			{
				std::set<S> declined;
				while (at < calls.size() && calls[at].kind == "opener")
				{
					if (calls[at].tag != it->second.tag || calls[at].url != o.path) violate("opener", "the opener of transport %d was given '%s', the file is '%s' of transport %d", calls[at].tag, calls[at].url.c_str(), o.path.c_str(), it->second.tag);
					if (calls[at].there) { o.path = calls[at].path; o.moved = true; declined.clear(); } else declined.insert(strf("%zu", at)); ++at;
				}
				if ((int) declined.size() < it->second.openers) violate("opener", "'%s' was opened before each of the %d openers declined it", o.path.c_str(), it->second.openers);
			}
			bool packed = o.path.find(".dae.p") != S::npos; if (packed) o.c.good = false; return o;
		}
		void none(size_t at, const char* op) { if (at < calls.size()) violate("transport-called", "'%s' made an unexpected call: %s of transport %d for '%s'", op, calls[at].kind.c_str(), calls[at].tag, calls[at].url.c_str()); }
		Doc* at(const S& url) { for (auto* d : docs) if (d->loaded && d->url == url) return d; return nullptr; }
		Doc* of(FCDocument* d) { for (auto* m : docs) if (m->d == d) return m; return nullptr; }
		void content(Doc* m, const S& base)
		{
			FCDEntity* l = m->d->FindEntity("L"); S want = strf("N%d", m->c.serial);
			if (!l || S(l->GetName().c_str()) != want) violate("wrong-content", "the document opened from '%s' holds '%s', '%s' was delivered", m->url.c_str(), l ? l->GetName().c_str() : "nothing", want.c_str());
			FCDSceneNode* v = m->d->GetVisualSceneInstance(); if (!v || v->GetChildrenCount() != m->c.refs.size()) violate("wrong-content", "the document opened from '%s' has %zu references, %zu were delivered", m->url.c_str(), v ? v->GetChildrenCount() : 0, m->c.refs.size());
			for (size_t i = 0; i < m->c.refs.size(); ++i) { FCDEntityInstance* e = v->GetChild(i)->GetInstanceCount() == 1 ? v->GetChild(i)->GetInstance(0) : nullptr; if (!e || S(v->GetChild(i)->GetName().c_str()) != m->c.refs[i].first) violate("wrong-content", "a reference of '%s' was lost", m->url.c_str()); m->refs.push_back({m->c.refs[i].first, absolute(base, m->c.refs[i].second), e}); }
		}
		void tokens(const char* op)
		{
			if (vague) return; std::map<int, int> want; for (auto* d : docs) for (auto& t : d->table) want[t.second.tag] += t.second.parts();
			for (int t = 1; t <= tags; ++t) if (alive[t] != want[t]) violate(alive[t] > want[t] ? "callbacks-kept" : "callbacks-lost", "after '%s' there are %d callbacks of transport %d, %d are registered", op, alive[t], t, want[t]);
		}
		// Documents that came or went by reference. 'at' is the position of the calls that are not explained yet.
		void sync(const char* op, size_t at, bool loads, bool faulty)
		{
			for (size_t i = 0; i < docs.size();) { if (docs[i]->life) { ++i; continue; } for (auto& s : slot) if (s == docs[i]) s = nullptr; docs.erase(docs.begin() + (long) i); i = 0; }
			FCDocumentList all; FCollada::GetAllDocuments(all); std::vector<Doc*> fresh;
			for (size_t i = 0; i < all.size(); ++i) if (!of(all[i]))
			{
				Doc* m = new Doc(); m->d = all[i]; m->life = all[i]->GetAsset(); m->top = false; m->url = all[i]->GetFileUrl().c_str(); m->loaded = true; fresh.push_back(m);
				if (this->at(m->url)) violate("loaded-twice", "'%s' is open and was loaded a second time by '%s'", m->url.c_str(), op);
				// Its transports are those of a document that references it.
				std::vector<Doc*> by; for (auto* o : docs) for (size_t p = 0; p < o->d->GetExternalReferenceManager()->GetPlaceHolderCount(); ++p) if (o->d->GetExternalReferenceManager()->GetPlaceHolder(p)->GetTarget(false) == all[i]) by.push_back(o);
				if (by.empty()) violate("loaded-by-nobody", "'%s' was loaded, but no document references it", m->url.c_str());
				Call* c = nullptr; for (size_t k = at; k < calls.size(); ++k) if (calls[k].kind == "load" && calls[k].url == m->url && calls[k].c.good) c = &calls[k];
				Doc* from = by[0]; int sc = schemeOf(m->url); for (auto* b : by) if (c ? b->table.count(sc) && b->table[sc].tag == c->tag : !b->table.count(sc) || !b->table[sc].load) from = b;
				for (auto* b : by) { bool eq = b->table.size() == from->table.size(); for (auto& t : b->table) eq &= from->table.count(t.first) && from->table[t.first].tag == t.second.tag; if (!eq) vague = true; }
				m->table = from->table; size_t n = 0; for (size_t k = at; k < calls.size(); ++k) n += calls[k].kind == "load" && calls[k].url == m->url;
				auto t = m->table.find(sc); bool via = t != m->table.end() && t->second.load;
				if (via && n != 1 && !faulty) violate("transport-not-once", "'%s' was fetched %zu times to be loaded once", m->url.c_str(), n);
				if (via ? (!c || c->tag != t->second.tag) : n != 0) violate("wrong-transport", "'%s' was loaded for '%s', but not by its transport", m->url.c_str(), from->url.c_str());
				S base = m->url; if (via) { m->c = c->c; for (size_t k = at; k < calls.size(); ++k) if (&calls[k] == c) { S now = c->path; for (size_t q = k + 1; q < calls.size() && calls[q].kind == "opener"; ++q) if (calls[q].there && calls[q].url == now) { now = calls[q].path; base = now; } } }
				else { if (sc != 3 || !raw.count(m->url)) violate("loaded-nothing", "'%s' was loaded without a transport", m->url.c_str()); m->c = raw[m->url]; if (t != m->table.end()) for (size_t q = at; q < calls.size(); ++q) if (calls[q].kind == "opener" && calls[q].there && calls[q].url == base) base = calls[q].path; }
				docs.push_back(m); content(m, base); probe(via ? "reference loaded by transport" : "reference loaded from the disk");
			}
			if (!loads && !fresh.empty()) violate("loaded-unasked", "'%s' loaded '%s'", op, fresh[0]->url.c_str());
			// Every remaining fetch was for a reference.
			for (size_t k = at; k < calls.size(); ++k) { if (!loads) none(k, op); if (calls[k].kind != "load") continue; bool known = false; for (auto* d : docs) for (auto& r : d->refs) if (r.url == calls[k].url && (d->table.count(schemeOf(r.url)) && d->table[schemeOf(r.url)].tag == calls[k].tag)) known = true; if (!known && !faulty) violate("fetched-unasked", "'%s' fetched '%s' by transport %d, which nothing references", op, calls[k].url.c_str(), calls[k].tag); }
			tokens(op);
		}
	};
	void runTransport(const Plan& plan)
	{
		disk::put(SIMDIR "/sub/keep", "x");
		life([&]()
		{
			Session s; s.assertsAreFatal = false; World w; SchemeOnCompleteCallback done([](const fstring&, size_t) {}); std::vector<std::pair<S, size_t>> answers; SchemeOnCompleteCallback take([&](const fstring& f, size_t d) { answers.push_back({f.c_str(), d}); });
			for (auto& o : plan.ops)
			{
				trace(o.name); const char* op = o.name.c_str(); w.calls.clear(); int k = (int) (o.arg(0) % 3); Doc* d = w.slot[k]; logf("%s %d %d %d %d", op, (int) o.arg(0), (int) o.arg(1), (int) o.arg(2), (int) o.arg(3));
				if (o.name == "nocwd") { disk::loseCwd(true); fault("working directory lost"); continue; }
				if (o.name == "serve")
				{
					int u = (int) (o.arg(0) % NURLS); Served& v = w.server[urls[u]]; v.mode = (int) (o.arg(1) % 4); v.c = w.make(o.arg(2), o.arg(3), u); v.chain.clear(); for (int64_t c = o.arg(4); c > 0; c /= 3) v.chain += (char) ('0' + c % 3);
					if (u >= 5) { Content c = w.make(o.arg(2), o.arg(3), u); if (o.arg(3) & 32) { disk::put(urls[u], c.text); w.raw[urls[u]] = c; } else { disk::erase(urls[u]); w.raw.erase(urls[u]); } }
					continue;
				}
				if (o.name == "doc" || o.name == "close")
				{
					if (d) { d->d->Release(); w.slot[k] = nullptr; if (d->life) violate("not-released", "a released document is still there"); }
					w.sync(op, 0, false, false); if (o.name == "close") continue;
					d = new Doc(); d->d = FCollada::NewTopDocument(); d->life = d->d->GetAsset(); d->top = true; d->url = SIMDIR "/"; w.docs.push_back(d); w.slot[k] = d; continue;
				}
				if (o.name == "answer")
				{
					if (w.pending.empty()) continue; size_t i = (size_t) o.arg(0) % w.pending.size(); Pending q = w.pending[i]; w.pending.erase(w.pending.begin() + (long) i); size_t before = answers.size(); (*q.cb)("/answer", q.data);
					if (answers.size() != before + 1 || answers.back().second != q.data) violate("answer", "an answer did not reach the one who asked"); probe("request answered later"); continue;
				}
				if (o.name == "resolve")
				{
					std::vector<std::pair<Doc*, Ref*>> rs; for (auto* x : w.docs) for (auto& r : x->refs) rs.push_back({x, &r}); if (rs.empty()) continue; auto pr = rs[(size_t) o.arg(0) % rs.size()]; Doc* own = pr.first;
					FCDPlaceHolder* h = pr.second->i->GetEntityReference()->GetPlaceHolder(); if (!h) violate("place-holder", "the reference '%s' is not external", pr.second->tag.c_str()); S url = h->GetFileUrl().c_str();
					if (url != pr.second->url && !w.raw.count(url)) violate("reference-url", "the reference to '%s' leads to '%s'", pr.second->url.c_str(), url.c_str()); pr.second->url = url; /* It follows a document that was saved elsewhere. */ Doc* was = h->GetTarget(false) ? w.of(h->GetTarget(false)) : nullptr; Doc* open = was ? was : w.at(url); Table table = own->table;
					if (o.arg(1)) disk::arm(disk::READ_EIO, o.arg(1) - 1); FCDEntity* e = pr.second->i->GetEntity(); bool hard = disk::firedHard() != 0; disk::disarm();
					if (open) { w.sync(op, 0, false, hard); if (!e || e->GetDocument() != open->d) violate("not-resolved", "'%s' is open, but the reference to it gives %s", url.c_str(), e ? "another entity" : "nothing"); probe("reference to an open document"); continue; }
					size_t at = 0; World::Opened x = w.opening(table, url, at, op); w.sync(op, 0, true, hard);
					Doc* t = w.at(url); if (e && !t) violate("resolved-nowhere", "a reference gives an entity, but '%s' was not loaded", url.c_str()); if (e && e->GetDocument() != t->d) violate("wrong-target", "a reference to '%s' gives an entity of '%s'", url.c_str(), e->GetDocument()->GetFileUrl().c_str());
					bool can = x.there && x.c.good; if (!hard && can != (e != nullptr)) violate(can ? "not-resolved" : "resolved-broken", "a reference to '%s' gives %s, but the transport delivered %s", url.c_str(), e ? "an entity" : "nothing", can ? "the document" : "none");
					if (e && !can) violate("resolved-broken", "a broken answer gave an entity"); continue;
				}
				if (!d) continue; FUFileManager* m = d->d->GetFileManager();
				if (o.name == "reg") { int sc = (int) (o.arg(1) % 4); d->table[sc] = w.install(m, sc, o.arg(2), (int) (o.arg(3) % 4)); w.sync(op, 0, false, false); }
				else if (o.name == "unreg") { int sc = (int) (o.arg(1) % 4); m->RemoveSchemeCallbacks(schemes[sc]); d->table.erase(sc); w.sync(op, 0, false, false); }
				else if (o.name == "unregall") { m->RemoveAllSchemeCallbacks(); d->table.clear(); w.sync(op, 0, false, false); }
				else if (o.name == "clone") { Doc* from = w.slot[o.arg(1) % 3]; if (!from) continue; m->CloneSchemeCallbacks(from->d->GetFileManager()); d->table = from->table; w.sync(op, 0, false, false); }
				else if (o.name == "load")
				{
					S url = urls[o.arg(1) % NURLS]; if (d->loaded || w.at(url)) continue; FCollada::SetDereferenceFlag(o.arg(2) != 0); if (o.arg(3)) disk::arm(o.arg(4) ? disk::READ_EIO : disk::READ_SHORT, o.arg(3));
					bool ok = FCollada::LoadDocumentFromFile(d->d, TO_FSTRING(fm::string(url.c_str())).c_str()); bool hard = disk::firedHard() != 0; int opens = disk::opensSinceDisarm(); disk::disarm(); FCollada::SetDereferenceFlag(true); (void) opens;
					size_t at = 0; World::Opened x = w.opening(d->table, url, at, op); bool can = x.there && x.c.good;
					if (ok && !can) violate("loaded-broken", "a load of '%s' answers success, but the transport delivered no document", url.c_str()); if (!ok && can && !hard) violate("load-refused", "a load of '%s' answers failure, but the document was delivered as '%s'", url.c_str(), x.path.c_str());
					if (!ok) { d->d->Release(); w.slot[k] = nullptr; w.sync(op, at, true, true); probe("load refused"); continue; }
					d->loaded = true; d->url = url; d->c = x.c; w.content(d, x.moved ? x.path : url); if (S(d->d->GetFileUrl().c_str()) != url) violate("document-url", "the document opened from '%s' has the location '%s'", url.c_str(), d->d->GetFileUrl().c_str());
					for (size_t q = at; q < w.calls.size(); ++q) if (w.calls[q].kind == "load" && w.calls[q].url == url) violate("transport-not-once", "'%s' was fetched more than once", url.c_str());
					w.sync(op, at, o.arg(2) != 0, hard); auto t = d->table.find(schemeOf(url)); probe(t != d->table.end() && t->second.load ? "document loaded by transport" : "document loaded from the disk");
				}
				else if (o.name == "read")
				{
					S url = urls[o.arg(1) % NURLS]; if (d->loaded) continue; if (o.arg(2)) disk::arm(disk::READ_EIO, o.arg(2) - 1); FUFile* f = m->OpenFile(url.c_str(), false); size_t at = 0; World::Opened x = w.opening(d->table, url, at, op); w.none(at, op);
					if (!f || f->IsOpen() != x.there) violate("open-answer", "'%s' is %s, its transport delivered %s", url.c_str(), f && f->IsOpen() ? "open" : "not open", x.there ? "a file" : "nothing");
					if (x.there) { S want; disk::get(x.path, want); S got(f->GetLength(), 0); bool ok = f->Read(&got[0], got.size()); if (disk::firedHard() == 0 && (!ok || got != want)) violate("open-bytes", "'%s' gives other bytes than '%s' holds", url.c_str(), x.path.c_str()); if (disk::firedHard() && ok && got != want) violate("open-bytes", "a failed read answers success"); probe("file opened"); }
					disk::disarm(); delete f; w.sync(op, w.calls.size(), false, false);
				}
				else if (o.name == "write")
				{
					S url = urls[o.arg(1) % NURLS]; if (d->loaded || (schemeOf(url) == 3 && !(d->table.count(3) && d->table[3].load)) ) continue; auto t = d->table.find(schemeOf(url)); if (t == d->table.end() || !t->second.load || w.server[url].mode == NOTHING || t->second.openers) continue;
					FUFile* f = m->OpenFile(url.c_str(), true); size_t at = 0; World::Opened x = w.opening(d->table, url, at, op); w.none(at, op); S b((size_t) o.arg(2), 'w'), got; bool ok = f && f->IsOpen() && f->Write(b.data(), b.size()) && f->Close(); delete f; disk::get(x.path, got);
					if (!ok || got != b) violate("write-lost", "writing to '%s' by its transport failed", url.c_str()); probe("file written"); w.sync(op, w.calls.size(), false, false);
				}
				else if (o.name == "exists")
				{
					S url = urls[o.arg(1) % NURLS]; auto t = d->table.find(schemeOf(url)); bool has = t != d->table.end() && t->second.exists, r = m->FileExists(url.c_str());
					if (has != (w.calls.size() == 1) || (has && (w.calls[0].kind != "exists" || w.calls[0].tag != t->second.tag || w.calls[0].url != url))) violate("exists-call", "asking whether '%s' exists made %zu calls", url.c_str(), w.calls.size());
					bool want = has ? w.server[url].mode == COPY : schemeOf(url) == 3 && disk::exists(url); if (r != want) violate("exists-answer", "'%s' is said to %s", url.c_str(), r ? "exist" : "be missing"); probe("existence asked");
				}
				else if (o.name == "request")
				{
					S url = urls[o.arg(1) % NURLS]; if (d->loaded) continue; auto t = d->table.find(schemeOf(url)); bool has = t != d->table.end(); if (has && !t->second.request) continue; size_t before = w.pending.size();
					FUFile* f = m->OpenFile(url.c_str(), false, &take, (size_t) o.arg(2));
					if (has) { if (f || w.calls.size() != 1 || w.calls[0].kind != "request" || w.calls[0].tag != t->second.tag || w.calls[0].url != url || w.pending.size() != before + 1 || w.pending.back().cb != &take || w.pending.back().data != (size_t) o.arg(2)) violate("request", "a request for '%s' made %zu calls and %s a file", url.c_str(), w.calls.size(), f ? "gave" : "did not give"); probe("request made"); }
					else { if (!w.calls.empty() || !f || f->IsOpen() != (schemeOf(url) == 3 && disk::exists(url))) violate("request", "'%s' has no transport, but opening it is wrong", url.c_str()); delete f; }
				}
				else if (o.name == "save")
				{
					if (!d->loaded) continue; S p = strf(SIMDIR "/out%d.dae", ++w.files); bool ok = FCollada::SaveDocument(d->d, p.c_str()); if (!ok || !disk::exists(p)) violate("save-answer", "a save of the document from '%s' failed", d->url.c_str());
					Content c = d->c; c.refs.clear(); for (auto& r : d->refs) { FCDPlaceHolder* h = r.i->GetEntityReference()->GetPlaceHolder(); if (h) c.refs.push_back({r.tag, h->GetFileUrl().c_str()}); } w.raw[p] = c;
					w.none(0, op); d->url = p; w.sync(op, 0, false, false); probe("document saved");
				}
			}
			for (auto& x : w.slot) if (x) { x->d->Release(); x = nullptr; w.calls.clear(); w.sync("close", 0, false, false); }
			if (!w.vague) for (auto& t : alive) if (t.second) violate("callbacks-kept", "%d callbacks of transport %d outlive every document", t.second, t.first);
			s.close();
		});
	}
	Reg r0("transport", genTransport, runTransport);
}
