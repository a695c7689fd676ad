// S12: references between documents over histories of opening, saving, closing, moving, damaging and reloading them.
#include "model.h"
#include <algorithm>
#include <set>
using namespace sim; using namespace model;
namespace
{
	const char* paths[] = { SIMDIR "/x/a.dae", SIMDIR "/x/sub/b.dae", SIMDIR "/c.dae", SIMDIR "/x/d d.dae", SIMDIR "/x/e.dae" };
	const int NPATHS = 5;
	enum { LIGHT, EFFECT };
	void genXref(Rng& r, Plan& p, int tier)
	{
		int n = (int) r.range(12, tier ? 120 : 60), fault = r.chance(0.4), few = r.chance(0.4);
		auto R = [&](int m) { return (int64_t) r.below(m); };
		// A web of linked files to start from.
		int k = few ? 3 : NPATHS; for (int i = 0; i < k; ++i) { p.ops.push_back(Op("new", {R(100) | (1 << R(6))})); p.ops.push_back(Op("save", {i, i, -1, 0})); }
		for (int i = 0, links = (int) r.range(1, 6); i < links; ++i) { if (r.chance(0.5)) p.ops.push_back(Op("link", {R(8), R(2), R(8), R(8)})); else p.ops.push_back(Op("uri", {R(8), R(2), R(k), R(3), R(2)})); }
		for (int i = 0; i < k; ++i) p.ops.push_back(Op("save", {i, -1, -1, 0}));
		for (int i = 0, closes = (int) r.range(0, k); i < closes; ++i) p.ops.push_back(Op("close", {R(8)}));
		for (int i = 0; i < n; ++i)
		{
			int x = (int) r.below(41);
			if (x < 2) p.ops.push_back(Op("new", {R(100)}));
			else if (x < 8) p.ops.push_back(Op("save", {R(8), r.chance(0.6) ? -1 : R(few ? 3 : NPATHS), fault && r.chance(0.15) ? R(2000) : -1, 0}));
			else if (x < 12) p.ops.push_back(Op("open", {R(few ? 3 : NPATHS), R(3), fault && r.chance(0.2) ? R(3000) : -1}));
			else if (x < 16) p.ops.push_back(Op("close", {R(8)}));
			else if (x < 20) p.ops.push_back(Op("link", {R(8), R(2), R(8), R(8)}));
			else if (x < 23) p.ops.push_back(Op("uri", {R(8), R(2), R(few ? 3 : NPATHS), R(5), R(2)}));
			else if (x < 25) p.ops.push_back(Op("reuri", {R(40), R(few ? 3 : NPATHS), R(5), R(2)}));
			else if (x < 27) p.ops.push_back(Op("relink", {R(40), R(8), R(8)}));
			else if (x < 28) p.ops.push_back(Op("drop", {R(40)}));
			else if (x < 34) p.ops.push_back(Op("resolve", {R(40), r.chance(0.7), fault && r.chance(0.25) ? R(3000) : -1}));
			else if (x < 35) p.ops.push_back(Op("all", {r.chance(0.7)}));
			else if (x < 36) p.ops.push_back(Op("unload", {R(40), R(3)}));
			else if (x < 37) p.ops.push_back(Op("rename", {R(8), R(8)}));
			else if (x < 38) p.ops.push_back(Op("kill", {R(8), R(8)}));
			else if (x < 39) p.ops.push_back(Op("file", {R(few ? 3 : NPATHS), R(3), R(3000)}));
			else if (x < 40) p.ops.push_back(Op("flag", {R(2)}));
			else if (r.chance(0.5)) p.ops.push_back(Op("reboot"));
		}
		p.ops.push_back(Op("all", {1})); p.ops.push_back(Op("save", {0, -1, -1, 0})); p.ops.push_back(Op("reboot")); p.ops.push_back(Op("open", {0, 0, -1})); p.ops.push_back(Op("open", {1, 1, -1})); p.ops.push_back(Op("all", {1}));
	}
	// What a file on the simulated disk holds.
	struct FEnt { int kind; S id, name; };
	struct FRef { int kind; S tag, path, id; };
	struct Content { bool good = false; std::vector<FEnt> ents; std::vector<FRef> refs; };
	struct MDoc;
	struct Ent { int kind; S id, name; FCDEntity* e; };
	struct Ref { int kind; S tag, path, id; bool local = false; MDoc* bound = nullptr; Ent* res = nullptr; FCDEntityReference* r = nullptr; FCDObject* holder = nullptr; };
	struct MDoc { FCDocument* d; FUTrackedPtr<FCDAsset> life; S path; bool top; std::vector<Ent*> ents; std::vector<Ref*> refs; };
	struct World
	{
		Session& s; std::map<S, Content> disk; std::vector<MDoc*> docs, lost; int serial = 0; bool flag = true;
		World(Session& x) : s(x) {}
		// ---- model on disk between lives
		void store()
		{
			S t = strf("%d\n", serial);
			for (auto& f : disk) { t += "F\t" + f.first + "\t" + (f.second.good ? "1" : "0") + "\n"; for (auto& e : f.second.ents) t += strf("E\t%d\t", e.kind) + e.id + "\t" + e.name + "\n"; for (auto& r : f.second.refs) t += strf("R\t%d\t", r.kind) + r.tag + "\t" + r.path + "\t" + r.id + "\n"; }
			disk::put("/model", t);
		}
		void load()
		{
			S t; if (!disk::get("/model", t)) return; size_t p = t.find('\n'); serial = atoi(t.c_str()); ++p; Content* c = nullptr;
			while (p < t.size())
			{
				size_t e = t.find('\n', p); S l = t.substr(p, e - p); p = e + 1; std::vector<S> f; size_t q = 0; while (true) { size_t x = l.find('\t', q); f.push_back(l.substr(q, x == S::npos ? S::npos : x - q)); if (x == S::npos) break; q = x + 1; }
				if (f[0] == "F") { c = &disk[f[1]]; c->good = f[2] == "1"; }
				else if (f[0] == "E") c->ents.push_back({atoi(f[1].c_str()), f[2], f[3]});
				else c->refs.push_back({atoi(f[1].c_str()), f[2], f[3], f[4]});
			}
		}
		// ---- lookups
		template <class T> static T* pick(const std::vector<T*>& v, int64_t n) { return v.empty() ? nullptr : v[(size_t) n % v.size()]; }
		MDoc* topDoc(int64_t n) { std::vector<MDoc*> c; for (auto* d : docs) if (d->top) c.push_back(d); return pick(c, n); }
		MDoc* at(const S& path) { for (auto* d : docs) if (!path.empty() && d->path == path) return d; return nullptr; }
		MDoc* of(FCDocument* d) { for (auto* m : docs) if (m->d == d) return m; return nullptr; }
		MDoc* owner(Ref* r) { for (auto* m : docs) for (auto* x : m->refs) if (x == r) return m; return nullptr; }
		Ref* anyRef(int64_t n) { std::vector<Ref*> c; for (auto* d : docs) for (auto* r : d->refs) c.push_back(r); return pick(c, n); }
		Ent* find(MDoc* d, int kind, const S& id) { for (auto* e : d->ents) if (e->kind == kind && e->id == id) return e; return nullptr; }
		Ent* anyEnt(MDoc* d, int64_t n, int kind = -1) { std::vector<Ent*> c; for (auto* e : d->ents) if (kind < 0 || e->kind == kind) c.push_back(e); return pick(c, n); }
		S where(Ref* r) { MDoc* o = owner(r); return "the reference '" + r->tag + "' of '" + (o ? o->path : S("?")) + "' to '" + r->path + "#" + r->id + "'"; }
		// ---- construction
		static S idName(int kind, int64_t n) { return strf(kind == LIGHT ? "l%d" : "e%d", (int) n); }
		void addEnt(MDoc* m, int kind, int64_t n)
		{
			FCDEntity* e = kind == LIGHT ? (FCDEntity*) m->d->GetLightLibrary()->AddEntity() : (FCDEntity*) m->d->GetEffectLibrary()->AddEntity();
			if (kind == EFFECT) ((FCDEffect*) e)->AddProfile(FUDaeProfileType::COMMON);
			e->SetDaeId(fm::string(idName(kind, n).c_str())); S name = strf("N%d", serial++); e->SetName(name.c_str()); m->ents.push_back(new Ent{kind, e->GetDaeId().c_str(), name, e});
		}
		Ref* addRef(MDoc* m, int kind)
		{
			Ref* r = new Ref(); r->kind = kind; r->tag = strf("T%d", serial++); r->local = true;
			if (kind == LIGHT)
			{
				FCDSceneNode* root = m->d->GetVisualSceneInstance(); if (!root) root = m->d->AddVisualScene();
				FCDSceneNode* n = root->AddChildNode(); n->SetName(r->tag.c_str()); FCDEntityInstance* i = n->AddInstance(FCDEntity::LIGHT); r->r = i->GetEntityReference(); r->holder = i;
			}
			else { FCDMaterial* x = m->d->GetMaterialLibrary()->AddEntity(); x->SetName(r->tag.c_str()); r->r = x->GetEffectReference(); r->holder = x; }
			m->refs.push_back(r); return r;
		}
		// Brings a document found loaded into the model; what it holds is what its file held.
		MDoc* adopt(FCDocument* d, const S& path, bool top)
		{
			MDoc* m = new MDoc(); m->d = d; m->life = d->GetAsset(); m->path = path; m->top = top; docs.push_back(m);
			auto f = disk.find(path); if (f == disk.end() || !f->second.good) violate("loaded-nothing", "a document was loaded from '%s', which holds none", path.c_str());
			for (auto& e : f->second.ents)
			{
				FCDEntity* x = d->FindEntity(e.id.c_str()); if (!x || S(x->GetName().c_str()) != e.name) violate("wrong-content", "the document loaded from '%s' has no entity '%s' of the file", path.c_str(), e.id.c_str());
				m->ents.push_back(new Ent{e.kind, e.id, e.name, x});
			}
			for (auto& r : f->second.refs)
			{
				Ref* x = new Ref(); x->kind = r.kind; x->tag = r.tag; x->path = r.path; x->id = r.id; x->local = r.path.empty();
				if (r.kind == LIGHT)
				{
					FCDSceneNode* root = d->GetVisualSceneInstance(); if (root) for (size_t i = 0; i < root->GetChildrenCount(); ++i) if (S(root->GetChild(i)->GetName().c_str()) == r.tag && root->GetChild(i)->GetInstanceCount() == 1) { x->holder = root->GetChild(i)->GetInstance(0); x->r = root->GetChild(i)->GetInstance(0)->GetEntityReference(); }
				}
				else for (size_t i = 0; i < d->GetMaterialLibrary()->GetEntityCount(); ++i) if (S(d->GetMaterialLibrary()->GetEntity(i)->GetName().c_str()) == r.tag) { x->holder = d->GetMaterialLibrary()->GetEntity(i); x->r = d->GetMaterialLibrary()->GetEntity(i)->GetEffectReference(); }
				if (!x->r) violate("wrong-content", "the document loaded from '%s' lost the reference '%s'", path.c_str(), r.tag.c_str());
				m->refs.push_back(x);
			}
			return m;
		}
		void forget(MDoc* m)
		{
			for (auto* d : docs) for (auto* r : d->refs) { if (r->res && std::find(m->ents.begin(), m->ents.end(), r->res) != m->ents.end()) { r->id = r->res->id; r->res = nullptr; } if (r->bound == m) r->bound = nullptr; }
			docs.erase(std::find(docs.begin(), docs.end(), m));
		}
		S fragment(Ref* r) { return fm::string(TO_STRING(r->r->GetUri().GetFragment())).c_str(); }
		// ---- invariants
		void sync(const char* op, MDoc* closed = nullptr)
		{
			for (size_t i = 0; i < docs.size();) { MDoc* m = docs[i]; if (m->life) { ++i; continue; } if (m->top && m != closed) violate("top-released", "the open document '%s' was released by '%s'", m->path.c_str(), op); if (!m->top) probe("document loaded by reference went away"); forget(m); i = 0; }
			if (closed && std::find(docs.begin(), docs.end(), closed) != docs.end()) violate("not-released", "a released document is still there");
			FCDocumentList all; FCollada::GetAllDocuments(all);
			for (size_t i = 0; i < all.size(); ++i) if (!of(all[i]))
			{
				S p = all[i]->GetFileUrl().c_str(); if (at(p)) violate("loaded-twice", "'%s' is open and was loaded a second time by '%s'", p.c_str(), op);
				adopt(all[i], p, false); probe("document loaded by reference");
			}
			std::vector<MDoc*> gone; for (auto* m : docs)
			{
				bool listed = false; for (size_t i = 0; i < all.size(); ++i) listed |= all[i] == m->d;
				if (S(m->d->GetFileUrl().c_str()) != m->path) violate("document-url", "a document has the location '%s' instead of '%s'", m->d->GetFileUrl().c_str(), m->path.c_str());
				if (listed) continue;
				// Cycles of references keep documents alive that nobody can reach any more; anything else must have gone.
				bool held = false; auto holds = [&](MDoc* o) { for (size_t p = 0; p < o->d->GetExternalReferenceManager()->GetPlaceHolderCount(); ++p) held |= o->d->GetExternalReferenceManager()->GetPlaceHolder(p)->GetTarget(false) == m->d; };
				for (auto* o : docs) { bool ol = false; for (size_t i = 0; i < all.size(); ++i) ol |= all[i] == o->d; if (!ol) holds(o); }
				for (auto* o : lost) if (o->life) holds(o);
				if (!held) violate("document-leaked", "'%s' is not reached by any open document, but is still there after '%s'", m->path.c_str(), op);
				probe("unreachable cycle of documents"); gone.push_back(m);
			}
			for (auto* m : gone) { lost.push_back(m); forget(m); }
			for (auto* m : docs) for (auto* r : m->refs)
			{
				FCDPlaceHolder* h = r->r->GetPlaceHolder();
				if ((h == nullptr) != r->local) violate("place-holder", "%s is %s", where(r).c_str(), h ? "external now" : "local now");
				if (h)
				{
					FCDocument* t = h->GetTarget(false);
					if (t)
					{
						MDoc* b = of(t); if (!b) violate("dangling-target", "%s leads to a document that is not there", where(r).c_str());
						if (r->bound && r->bound != b) violate("target-changed", "%s leads to another document after '%s'", where(r).c_str(), op);
						if (!r->bound && b->path != r->path) violate("wrong-target", "%s was bound to '%s'", where(r).c_str(), b->path.c_str());
						r->bound = b; r->path = b->path;
					}
					else if (r->bound) violate("target-lost", "%s no longer leads to its open document after '%s'", where(r).c_str(), op);
				}
				FUUri u = r->r->GetUri(); S p = TO_STRING(u.GetAbsolutePath()).c_str(), f = TO_STRING(u.GetFragment()).c_str(), want = r->res ? r->res->id : r->id;
				if (r->local ? u.IsFile() : p != r->path) violate("uri-path", "%s reads as '%s' after '%s'", where(r).c_str(), p.c_str(), op);
				if (f != want) violate("uri-id", "%s reads as '#%s' instead of '#%s' after '%s'", where(r).c_str(), f.c_str(), want.c_str(), op);
			}
		}
		void resolve(Ref* r, bool deref, int64_t faultAt)
		{
			MDoc* own = owner(r); if (!own) return; bool was = r->bound != nullptr; MDoc* open = at(r->path); auto c = disk.find(r->path); bool good = c != disk.end() && c->second.good; S path = r->path;
			FCollada::SetDereferenceFlag(deref); if (faultAt >= 0) disk::arm(disk::READ_EIO, faultAt);
			FCDEntity* e = r->kind == LIGHT ? ((FCDEntityInstance*) r->holder)->GetEntity() : (FCDEntity*) ((FCDMaterial*) r->holder)->GetEffect();
			bool failed = disk::firedHard() != 0; disk::disarm(); FCollada::SetDereferenceFlag(flag); if (failed) probe("load by reference failed on the disk");
			sync("resolve"); MDoc* t = r->local ? own : r->bound;
			if (t)
			{
				Ent* x = r->res ? r->res : find(t, r->kind, r->id);
				if (!deref && !was && !r->local && t != open) violate("loaded-despite-flag", "%s was loaded although loading is off", where(r).c_str());
				if (x && !e) violate("not-resolved", "%s gives nothing, but its document is there and has the entity", where(r).c_str());
				if (e && !x) violate("resolved-wrong", "%s gives '%s', but its document has no such entity", where(r).c_str(), e->GetName().c_str());
				if (e && e != x->e) violate("resolved-wrong", "%s gives '%s' of '%s' instead of '%s'", where(r).c_str(), e->GetName().c_str(), e->GetDocument()->GetFileUrl().c_str(), x->name.c_str());
				if (e) { if (S(e->GetName().c_str()) != x->name) violate("resolved-wrong", "%s gives an entity of another version", where(r).c_str()); r->res = x; probe("resolved"); }
			}
			else
			{
				if (e) violate("resolved-nowhere", "%s gives an entity although its document is not there", where(r).c_str());
				if (deref && (open || (good && !failed))) violate("not-loaded", "%s gives nothing, but its document %s", where(r).c_str(), open ? "is open" : "can be loaded");
				probe("unresolvable");
			}
		}
		void saved(MDoc* m, const S& path)
		{
			Content c; c.good = true; for (auto* e : m->ents) c.ents.push_back({e->kind, e->id, e->name});
			for (auto* r : m->refs) c.refs.push_back({r->kind, r->tag, r->local ? S() : r->path, r->res ? r->res->id : r->id});
			disk[path] = c;
		}
	};
	FUUri makeUri(const S& path, const S& id, bool relative, MDoc* m)
	{
		S p = path; size_t a = path.rfind('/'), b = m->path.rfind('/');
		if (relative && !m->path.empty() && a != S::npos && b == a && path.compare(0, a, m->path, 0, b) == 0) p = path.substr(a + 1);
		return FUUri(TO_FSTRING(fm::string((p + "#" + id).c_str())));
	}
	void runXref(const Plan& plan)
	{
		size_t at = 0;
		while (at < plan.ops.size())
		{
			size_t end = at; while (end < plan.ops.size() && plan.ops[end].name != "reboot") ++end;
			life([&]()
			{
				Session s; s.assertsAreFatal = false; World w(s); w.load(); FCollada::SetDereferenceFlag(true);
				for (size_t i = at; i < end; ++i)
				{
					const Op& o = plan.ops[i]; trace(o.name); const char* op = o.name.c_str(); MDoc* closed = nullptr;
					logf("%s %d %d %d %d", op, (int) o.arg(0), (int) o.arg(1), (int) o.arg(2), (int) o.arg(3));
					if (o.name == "new")
					{
						if (w.docs.size() > 8) continue; MDoc* m = new MDoc(); m->d = FCollada::NewTopDocument(); m->life = m->d->GetAsset(); m->top = true; m->path = m->d->GetFileUrl().c_str(); w.docs.push_back(m);
						for (int k = 0; k < 2; ++k) for (int n = 0; n < 3; ++n) if ((o.arg(0) >> (k * 3 + n)) & 1) w.addEnt(m, k, n);
					}
					else if (o.name == "save")
					{
						MDoc* m = w.topDoc(o.arg(0)); if (!m) continue; S p = o.arg(1) < 0 ? m->path : S(paths[o.arg(1) % NPATHS]); if (p.empty()) p = paths[0];
						MDoc* other = w.at(p); bool bad = other && other != m; for (auto* r : m->refs) bad |= !r->local && r->path == p; if (bad) continue;
						size_t before = w.docs.size(); if (o.arg(2) >= 0) disk::arm(disk::WRITE_ENOSPC, o.arg(2));
						bool ok = FCollada::SaveDocument(m->d, TO_FSTRING(fm::string(p.c_str())).c_str()); bool hard = disk::firedHard() != 0; disk::disarm();
						m->path = p; if (ok && hard) violate("save-answer", "a save on a full disk answers success"); if (!ok && !hard) violate("save-answer", "a save on a healthy disk answers failure");
						FCDocumentList all; FCollada::GetAllDocuments(all); for (size_t k = 0; k < all.size(); ++k) if (!w.of(all[k])) violate("save-loads", "saving '%s' loaded '%s'", p.c_str(), all[k]->GetFileUrl().c_str());
						(void) before; if (ok) w.saved(m, p); else { disk::erase(p); w.disk.erase(p); }
						w.sync(op); if (ok) w.saved(m, p);
						continue;
					}
					else if (o.name == "open")
					{
						S p = paths[o.arg(0) % NPATHS]; if (w.at(p) || w.docs.size() > 8) continue; bool good = w.disk.count(p) && w.disk[p].good; FCDocument* d = nullptr; fstring f = TO_FSTRING(fm::string(p.c_str()));
						if (o.arg(2) >= 0) disk::arm(disk::READ_EIO, o.arg(2));
						if (o.arg(1) == 1) d = FCollada::LoadDocument(f.c_str());
						else { d = FCollada::NewTopDocument(); if (!FCollada::LoadDocumentFromFile(d, f.c_str())) { d->Release(); d = nullptr; } }
						bool hard = disk::firedHard() != 0; disk::disarm();
						size_t tops = 0; for (auto* m : w.docs) tops += m->top; if (FCollada::GetTopDocumentCount() != tops + (d ? 1 : 0)) violate("top-documents", "%zu documents are listed as open after opening, not %zu", FCollada::GetTopDocumentCount(), tops + (d ? 1 : 0));
						if (d && !good) violate("opened-nothing", "'%s' holds no document, but one was opened", p.c_str()); if (!d && good && !hard) violate("open-refused", "'%s' was not opened", p.c_str());
						if (d) { w.adopt(d, p, true); probe("document opened"); } else probe("open refused");
					}
					else if (o.name == "close") { MDoc* m = w.topDoc(o.arg(0)); if (!m) continue; closed = m; m->d->Release(); }
					else if (o.name == "link" || o.name == "relink")
					{
						MDoc* m; Ref* r = nullptr; MDoc* t; int64_t en;
						if (o.name == "link") { m = w.topDoc(o.arg(0)); t = World::pick(w.docs, o.arg(2)); en = o.arg(3); } else { r = w.anyRef(o.arg(0)); if (!r) continue; m = w.owner(r); t = World::pick(w.docs, o.arg(1)); en = o.arg(2); }
						if (!m || !t || (t != m && t->path.empty())) continue; int kind = r ? r->kind : (int) (o.arg(1) % 2); Ent* e = w.anyEnt(t, en, kind); if (!e || (!r && m->refs.size() > 8)) continue;
						if (!r) r = w.addRef(m, kind);
						if (kind == LIGHT) ((FCDEntityInstance*) r->holder)->SetEntity(e->e); else ((FCDMaterial*) r->holder)->SetEffect((FCDEffect*) e->e);
						r->res = e; r->id = e->id; r->local = t == m; r->bound = r->local ? nullptr : t; r->path = r->local ? S() : t->path; probe(r->local ? "linked inside the document" : "linked to another document");
					}
					else if (o.name == "uri" || o.name == "reuri")
					{
						Ref* r = nullptr; MDoc* m; S p, id; int64_t n, rel;
						if (o.name == "uri") { m = w.topDoc(o.arg(0)); p = paths[o.arg(2) % NPATHS]; n = o.arg(3); rel = o.arg(4); } else { r = w.anyRef(o.arg(0)); if (!r) continue; m = w.owner(r); p = paths[o.arg(1) % NPATHS]; n = o.arg(2); rel = o.arg(3); }
						if (!m || m->path == p || (!r && m->refs.size() > 8)) continue; if (!r) r = w.addRef(m, (int) (o.arg(1) % 2)); id = World::idName(r->kind, n);
						FUUri u = makeUri(p, id, rel != 0, m); if (r->kind == LIGHT) ((FCDEntityInstance*) r->holder)->SetEntityUri(u); else r->r->SetUri(u);
						r->res = nullptr; r->bound = nullptr; r->local = false; r->path = p; r->id = id; probe("linked by location");
					}
					else if (o.name == "drop")
					{
						Ref* r = w.anyRef(o.arg(0)); if (!r) continue; MDoc* m = w.owner(r); m->refs.erase(std::find(m->refs.begin(), m->refs.end(), r)); r->holder->Release(); delete r;
					}
					else if (o.name == "resolve") { Ref* r = w.anyRef(o.arg(0)); if (r) w.resolve(r, o.arg(1) != 0, o.arg(2, -1)); continue; }
					else if (o.name == "all") { for (int64_t k = 0; k < 60; ++k) { size_t n = 0; for (auto* d : w.docs) n += d->refs.size(); if ((size_t) k >= n) break; w.resolve(w.anyRef(k), o.arg(0) != 0, -1); } continue; }
					else if (o.name == "unload")
					{
						Ref* r = nullptr; for (int64_t k = 0; k < 40 && (!r || !r->bound || r->bound->top); ++k) r = w.anyRef(o.arg(0) + k); if (!r || !r->bound || r->bound->top) continue; S p = r->path; r->r->GetPlaceHolder()->UnloadTarget(); probe("target unloaded"); MDoc* b = r->bound;
						if (b->life) violate("not-released", "an unloaded document is still there");
					}
					else if (o.name == "rename")
					{
						MDoc* m = World::pick(w.docs, o.arg(0)); if (!m) continue; Ent* e = w.anyEnt(m, o.arg(1)); if (!e) continue; S old = e->id, id = strf("r%d", w.serial++);
						e->e->SetDaeId(fm::string(id.c_str())); e->id = e->e->GetDaeId().c_str(); probe("target renamed");
						for (auto* d : w.docs) for (auto* r : d->refs) if (!r->res && r->kind == e->kind && r->id == old && (r->local ? d == m : r->bound == m) && w.fragment(r) == e->id) r->res = e;
					}
					else if (o.name == "kill")
					{
						MDoc* m = World::pick(w.docs, o.arg(0)); if (!m) continue; Ent* e = w.anyEnt(m, o.arg(1)); if (!e) continue; m->ents.erase(std::find(m->ents.begin(), m->ents.end(), e)); e->e->Release(); probe("target released");
						for (auto* d : w.docs) for (auto* r : d->refs) { if (r->res == e) { r->res = nullptr; r->id = r->local ? S() : e->id; } else if (r->local && d == m && r->id == e->id && r->kind == e->kind && w.fragment(r).empty()) r->id.clear(); }
					}
					else if (o.name == "file")
					{
						S p = paths[o.arg(0) % NPATHS], t; if (!disk::get(p, t)) continue;
						if (o.arg(1) == 0) { disk::erase(p); w.disk.erase(p); fault("file lost"); }
						else { disk::put(p, o.arg(1) == 1 ? S("not a document") : t.substr(0, std::min(t.size() / 2, (size_t) o.arg(2)))); w.disk[p] = Content(); fault("file damaged"); }
					}
					else if (o.name == "flag") { w.flag = o.arg(0) != 0; FCollada::SetDereferenceFlag(w.flag); }
					w.sync(op, closed);
				}
				if (end < plan.ops.size()) { w.store(); if (at % 2) return; }
				while (MDoc* m = w.topDoc(0)) { m->d->Release(); w.sync("close", m); }
				s.close();
			});
			at = end + 1;
		}
	}
	Reg r0("xref", genXref, runXref);
}
