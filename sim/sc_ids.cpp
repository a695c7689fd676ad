// S18: identifiers and sub-identifiers over histories of creating, renaming, cloning, releasing, saving and loading.
#include "model.h"
#include "FCDocument/FCDPhysicsRigidBody.h"
#include <algorithm>
#include <functional>
#include <set>
#include <libxml/parser.h>
#include <libxml/tree.h>
using namespace sim; using namespace model;
namespace
{
	const char* pool[] = { "a", "a1", "a01", "a001", "a2", "a10", "a9", "b", "b.c", "x-1", "1st", "\xc3\xa9", "\xc3\xa4", "_", "A1", "m:1", "with space", "a999999999", "a1000000000", "a4294967293", "a4294967294", "a4294967295", "a4294967296", "a12345678901234", "0", "a0", "a00", "geometry", "material1", "effect", "VisualSceneNode", "node2", "-dash", "end." };
	const int NPOOL = sizeof(pool) / sizeof(*pool);
	S wanted(int64_t n) { if (n < NPOOL) return pool[n]; if (n == NPOOL) return S(300, 'q'); if (n == NPOOL + 1) return S(480, 'q'); return strf("w%d", (int) (n % 40)); }
	enum Kind { GEOMETRY, SOURCE, MATERIAL, EFFECT, IMAGE, CAMERA, LIGHT, SCENE, NODE, EMITTER, FORCE, PMATERIAL, PMODEL, PSCENE, ANIMATION, SUBANIM, CLIP, BODY, KINDS };
	void genIds(Rng& r, Plan& p, int tier)
	{
		int n = (int) r.range(6, tier ? 90 : 50); bool wide = r.chance(0.5), clones = r.chance(0.4);
		if (r.chance(0.5)) p.ops.push_back(Op("settle"));
		p.ops.push_back(Op("new", {(int64_t) r.below(KINDS), (int64_t) r.below(100)}));
		for (int i = 0; i < n; ++i)
		{
			int x = (int) r.below(30); int64_t o = (int64_t) r.below(1000), w = wide ? (int64_t) r.below(NPOOL + 6) : (int64_t) r.below(6);
			if (x < 8) p.ops.push_back(Op("new", {(int64_t) r.below(KINDS), o}));
			else if (x < 16) p.ops.push_back(Op("set", {o, w, (int64_t) r.below(4)}));
			else if (x < 18) p.ops.push_back(Op("get", {o}));
			else if (x < 20) p.ops.push_back(Op("find", {o}));
			else if (x < 21) p.ops.push_back(Op("findname", {w}));
			else if (x < 24) p.ops.push_back(Op("del", {o}));
			else if (x < 25 && clones) p.ops.push_back(Op("clone", {o, (int64_t) r.below(3), (int64_t) r.below(1000)}));
			else if (x < 27) p.ops.push_back(Op("inst", {o, (int64_t) r.below(1000), w}));
			else if (x < 28) p.ops.push_back(Op("sid", {o, w, (int64_t) r.below(3)}));
			else if (x < 29) p.ops.push_back(r.chance(0.4) ? Op("many", {o, (int64_t) r.range(20, 140), w}) : Op("all"));
			else p.ops.push_back(Op("reload", {(int64_t) r.below(2)}));
		}
		p.ops.push_back(Op("reload", {1}));
	}
	struct Obj { FCDObjectWithId* o; int kind; S tag; S id; bool known = false; Obj* owner = nullptr; };
	struct Ids
	{
		FCDocument* doc = nullptr; std::vector<Obj*> objs; int* tags; Session& s; bool settle = false;
		Ids(Session& x, int* t) : tags(t), s(x) {}
		static bool findable(int k) { return k != SOURCE && k != BODY; }
		Obj* pick(int64_t n, std::function<bool(Obj*)> f = nullptr) { std::vector<Obj*> c; for (auto* o : objs) if (!f || f(o)) c.push_back(o); return c.empty() ? nullptr : c[(size_t) n % c.size()]; }
		S fresh() { return strf("T%d", (*tags)++); }
		Obj* add(FCDObjectWithId* x, int kind, Obj* owner = nullptr) { Obj* o = new Obj(); o->o = x; o->kind = kind; o->owner = owner; o->tag = fresh(); name(o, o->tag); objs.push_back(o); return o; }
		void name(Obj* o, const S& t) { if (o->kind == SOURCE) ((FCDGeometrySource*) o->o)->SetName(t.c_str()); else ((FCDEntity*) o->o)->SetName(t.c_str()); }
		S nameOf(Obj* o) { return o->kind == SOURCE ? ((FCDGeometrySource*) o->o)->GetName().c_str() : ((FCDEntity*) o->o)->GetName().c_str(); }
		Obj* create(int kind, int64_t n)
		{
			switch (kind)
			{
			case GEOMETRY: { FCDGeometry* g = doc->GetGeometryLibrary()->AddEntity(); g->CreateMesh(); return add(g, kind); }
			case SOURCE: { Obj* g = pick(n, [](Obj* o) { return o->kind == GEOMETRY; }); if (!g) return create(GEOMETRY, n); FCDGeometrySource* x = ((FCDGeometry*) g->o)->GetMesh()->AddSource(); x->SetDataCount(3); x->SetStride(3); x->SetDataCount(2); return add(x, kind, g); }
			case MATERIAL: return add(doc->GetMaterialLibrary()->AddEntity(), kind);
			case EFFECT: { FCDEffect* e = doc->GetEffectLibrary()->AddEntity(); e->AddProfile(FUDaeProfileType::COMMON); return add(e, kind); }
			case IMAGE: { FCDImage* i = doc->GetImageLibrary()->AddEntity(); i->SetFilename(FC("pic.png")); return add(i, kind); }
			case CAMERA: return add(doc->GetCameraLibrary()->AddEntity(), kind);
			case LIGHT: return add(doc->GetLightLibrary()->AddEntity(), kind);
			case SCENE: return add(doc->AddVisualScene(), kind);
			case NODE: { Obj* p = pick(n, [](Obj* o) { return o->kind == SCENE || o->kind == NODE; }); if (!p) return create(SCENE, n); return add(((FCDSceneNode*) p->o)->AddChildNode(), kind, p); }
			case EMITTER: return add(doc->GetEmitterLibrary()->AddEntity(), kind);
			case FORCE: return add(doc->GetForceFieldLibrary()->AddEntity(), kind);
			case PMATERIAL: return add(doc->GetPhysicsMaterialLibrary()->AddEntity(), kind);
			case PMODEL: return add(doc->GetPhysicsModelLibrary()->AddEntity(), kind);
			case PSCENE: return add(doc->AddPhysicsScene(), kind);
			case ANIMATION: return add(doc->GetAnimationLibrary()->AddEntity(), kind);
			case SUBANIM: { Obj* p = pick(n, [](Obj* o) { return o->kind == ANIMATION || o->kind == SUBANIM; }); if (!p) return create(ANIMATION, n); return add(((FCDAnimation*) p->o)->AddChild(), kind, p); }
			case CLIP: return add(doc->GetAnimationClipLibrary()->AddEntity(), kind);
			default: { Obj* p = pick(n, [](Obj* o) { return o->kind == PMODEL; }); if (!p) return create(PMODEL, n); return add(((FCDPhysicsModel*) p->o)->AddRigidBody(), BODY, p); }
			}
		}
		std::set<S> claimed(const FCDObjectWithId* but = nullptr) { std::set<S> c; for (auto* o : objs) if (o->o != but && o->known) c.insert(o->id); return c; }
		S get(Obj* o)
		{
			std::set<S> before = claimed(o->o); S id = o->o->GetDaeId().c_str();
			if (id.empty()) violate("empty-id", "an entity has an empty identifier");
			if (o->known && id != o->id) violate("id-changed", "the identifier of an entity changed from '%s' to '%s' without being set", o->id.substr(0, 80).c_str(), id.substr(0, 80).c_str());
			if (before.count(id)) violate("duplicate-id", "two entities have the identifier '%s'", id.substr(0, 80).c_str());
			if (S(o->o->GetDaeId().c_str()) != id) violate("id-unstable", "asking twice for an identifier gives two answers");
			o->id = id; o->known = true; return id;
		}
		// Whether every other entity has been asked for its identifier (asking is what gives it one).
		bool settled(Obj* but) { for (auto* o : objs) if (o != but && !o->known) return false; return true; }
		void check()
		{
			if (settle) for (auto* o : objs) if (!o->known) get(o);
			std::map<S, Obj*> m; for (auto* o : objs)
			{
				if (!o->known) continue;
				S id = o->o->GetDaeId().c_str(); if (o->known && id != o->id) violate("id-changed", "the identifier of an entity changed from '%s' to '%s' without being set", o->id.substr(0, 80).c_str(), id.substr(0, 80).c_str());
				if (m.count(id)) violate("duplicate-id", "two entities have the identifier '%s'", id.substr(0, 80).c_str()); m[id] = o;
			}
		}
		void drop(Obj* o) { std::vector<Obj*> kids; for (auto* k : objs) if (k->owner == o) kids.push_back(k); for (auto* k : kids) drop(k); objs.erase(std::find(objs.begin(), objs.end(), o)); delete o; }
	};
	void checkSids(const S& path)
	{
		S t; disk::get(path, t); xmlDoc* d = xmlReadMemory(t.data(), (int) t.size(), "x", nullptr, XML_PARSE_HUGE); if (!d) violate("file-unreadable", "the saved file is not XML");
		std::function<void(xmlNode*)> walk = [&](xmlNode* n)
		{
			if (!strcmp((const char*) n->name, "node")) { std::set<S> sids; for (xmlNode* c = n->children; c; c = c->next) if (c->type == XML_ELEMENT_NODE && strcmp((const char*) c->name, "node")) { xmlChar* v = xmlGetProp(c, BAD_CAST "sid"); if (v) { if (!sids.insert((char*) v).second) violate("duplicate-sid", "two children of a node are saved with the sub-identifier '%s'", (char*) v); xmlFree(v); } } }
			for (xmlNode* c = n->children; c; c = c->next) if (c->type == XML_ELEMENT_NODE) walk(c);
		};
		walk(xmlDocGetRootElement(d)); xmlFreeDoc(d);
	}
	struct Want { int kind; S tag, id; S owner; };
	void runIds(const Plan& plan)
	{
		size_t at = 0; int gen = 0;
		while (at < plan.ops.size())
		{
			size_t end = at; while (end < plan.ops.size() && !(plan.ops[end].name == "reload")) ++end;
			life([&]()
			{
				Session s; int tags = gen * 10000; Ids m(s, &tags); S w;
				for (auto& o : plan.ops) if (o.name == "settle") m.settle = true;
				if (gen == 0) m.doc = FCollada::NewTopDocument();
				else
				{
					bool ok = false; m.doc = loadNew(SIMDIR "/ids.dae", ok); if (!ok || s.err.errors) violate("load-refused", "the saved file does not load: %s", s.err.list.empty() ? "no error" : s.err.list[0].c_str());
					disk::get("/want", w); std::map<S, Obj*> byTag; size_t p = 0; std::vector<std::pair<Obj*, S>> owners;
					while (p < w.size())
					{
						size_t e = w.find('\n', p); S l = w.substr(p, e - p); p = e + 1; std::vector<S> f; size_t q = 0; while (true) { size_t x = l.find('\t', q); f.push_back(l.substr(q, x == S::npos ? S::npos : x - q)); if (x == S::npos) break; q = x + 1; }
						if (f[0] == "I")
						{
							Obj* n = byTag[f[1]]; bool hit = false; FCDSceneNode* node = (FCDSceneNode*) n->o; for (size_t i = 0; i < node->GetInstanceCount(); ++i) { FCDEntity* e2 = node->GetInstance(i)->GetEntity(); if (e2 && S(e2->GetName().c_str()) == f[2]) hit = true; }
							if (!hit) violate("instance-target", "after loading, node '%s' does not instantiate '%s' any more", n->id.c_str(), f[2].c_str()); continue;
						}
						int kind = atoi(f[0].c_str()); FCDObjectWithId* x = nullptr;
						if (kind == SOURCE) { Obj* g = byTag[f[3]]; if (((FCDGeometry*) g->o)->GetMesh()) x = ((FCDGeometry*) g->o)->GetMesh()->FindSourceById(f[2].c_str()); }
						else if (kind == BODY) { FCDPhysicsModel* pm = (FCDPhysicsModel*) byTag[f[3]]->o; for (size_t i = 0; i < pm->GetRigidBodyCount(); ++i) if (S(pm->GetRigidBody(i)->GetDaeId().c_str()) == f[2]) x = pm->GetRigidBody(i); }
						else x = m.doc->FindEntity(f[2].c_str());
						if (!x) violate("id-lost", "the entity with identifier '%s' (kind %d) cannot be found after loading", f[2].substr(0, 80).c_str(), kind);
						Obj* o = new Obj(); o->o = x; o->kind = kind; o->tag = f[1]; o->id = f[2]; o->known = true; m.objs.push_back(o); byTag[f[1]] = o; if (!f[3].empty()) o->owner = byTag[f[3]];
						if (m.nameOf(o) != o->tag) violate("id-moved", "after loading, identifier '%s' finds another entity ('%s' instead of '%s')", f[2].substr(0, 80).c_str(), m.nameOf(o).c_str(), o->tag.c_str());
					}
					probe("ids compared after loading"); m.check();
				}
				std::vector<std::pair<S, S>> insts; // node tag, entity tag
				if (gen) { size_t p = 0; while (p < w.size()) { size_t e = w.find('\n', p); S l = w.substr(p, e - p); p = e + 1; if (l[0] == 'I') { size_t a = l.find('\t'), b = l.find('\t', a + 1); insts.push_back({l.substr(a + 1, b - a - 1), l.substr(b + 1)}); } } }
				for (size_t i = at; i < end; ++i)
				{
					const Op& o = plan.ops[i]; trace(o.name);
					if (o.name == "new") m.create((int) (o.arg(0) % KINDS), o.arg(1));
					else if (o.name == "set")
					{
						Obj* x = m.pick(o.arg(0)); if (!x) continue; S want = wanted(o.arg(1)), clean = FCDObjectWithId::CleanId(want.c_str()).c_str(); std::set<S> used = m.claimed(x->o);
						S got;
						if (o.arg(2) == 0) { fm::string v = want.c_str(); x->o->SetDaeId(v); got = v.c_str(); if (got != x->o->GetDaeId().c_str()) violate("id-returned", "SetDaeId returns '%s', the entity has '%s'", got.substr(0, 80).c_str(), x->o->GetDaeId().substr(0, 80).c_str()); }
						else { const fm::string v = want.c_str(); x->o->SetDaeId(v); got = x->o->GetDaeId().c_str(); }
						if (m.settled(x) && !used.count(clean) && got != clean) violate("free-id-refused", "the unused identifier '%s' was asked for and '%s' was given", clean.substr(0, 80).c_str(), got.substr(0, 80).c_str());
						if (used.count(got)) violate("duplicate-id", "two entities have the identifier '%s'", got.substr(0, 80).c_str());
						if (used.count(clean)) probe("taken identifier asked for");
						x->id = got; x->known = true;
					}
					else if (o.name == "get") { Obj* x = m.pick(o.arg(0)); if (x) m.get(x); }
					else if (o.name == "all") for (auto* x : m.objs) m.get(x);
					else if (o.name == "find")
					{
						Obj* x = m.pick(o.arg(0)); if (!x) continue; S id = m.get(x); FCDEntity* f = m.doc->FindEntity(id.c_str());
						if (f != (Ids::findable(x->kind) ? (FCDEntity*) x->o : nullptr)) violate("find", "looking up the identifier '%s' of kind %d %s", id.substr(0, 80).c_str(), x->kind, f ? "gives another entity" : "gives nothing");
					}
					else if (o.name == "findname")
					{
						S id = FCDObjectWithId::CleanId(wanted(o.arg(0)).c_str()).c_str(); FCDEntity* f = m.doc->FindEntity(id.c_str()); Obj* owner = nullptr;
						for (auto* x : m.objs) if (Ids::findable(x->kind) && m.get(x) == id) owner = x;
						if ((f && !owner) || (owner && f != owner->o)) violate("find", "looking up the identifier '%s' gives %s", id.substr(0, 80).c_str(), f ? "a wrong entity" : "nothing");
					}
					else if (o.name == "del")
					{
						Obj* x = m.pick(o.arg(0)); if (!x) continue; S gone = x->known ? x->id : S();
						FCDObjectWithId* raw = x->o; std::set<S> dead; std::function<void(Obj*)> collect = [&](Obj* y) { dead.insert(y->tag); for (auto* k : m.objs) if (k->owner == y) collect(k); }; collect(x);
						insts.erase(std::remove_if(insts.begin(), insts.end(), [&](const std::pair<S, S>& p) { return dead.count(p.first) || dead.count(p.second); }), insts.end());
						bool whole = Ids::findable(x->kind) && m.settled(nullptr); m.drop(x); raw->Release(); probe("entity released");
						if (!gone.empty() && whole && m.doc->FindEntity(gone.c_str())) violate("find-dead", "a released entity's identifier '%s' still finds an entity", gone.substr(0, 80).c_str());
					}
					else if (o.name == "clone")
					{
						Obj* x = m.pick(o.arg(0), [](Obj* q) { return q->kind == MATERIAL || q->kind == CAMERA || q->kind == LIGHT || q->kind == EFFECT || q->kind == IMAGE || q->kind == PMATERIAL; }); if (!x) continue;
						Obj* y = m.create(x->kind, 0); if (o.arg(1) == 1) m.get(y); else if (o.arg(1) == 2) { y->o->SetDaeId(wanted(o.arg(2) % 6).c_str()); y->known = true; y->id = y->o->GetDaeId().c_str(); }
						((FCDEntity*) x->o)->Clone((FCDEntity*) y->o); y->known = false; m.name(y, y->tag); probe("cloned");
					}
					else if (o.name == "inst")
					{
						Obj* n = m.pick(o.arg(0), [](Obj* q) { return q->kind == NODE; }); Obj* t = m.pick(o.arg(1), [](Obj* q) { return q->kind == CAMERA || q->kind == LIGHT || q->kind == GEOMETRY; }); if (!n || !t) continue;
						FCDEntityInstance* e = ((FCDSceneNode*) n->o)->AddInstance((FCDEntity*) t->o); if (o.arg(2) % 2) e->SetWantedSubId(FCDObjectWithId::CleanSubId(wanted(o.arg(2)).c_str())); insts.push_back({n->tag, t->tag});
					}
					else if (o.name == "many")
					{
						// Many transforms of the same wanted sub-identifier.
						Obj* n = m.pick(o.arg(0), [](Obj* q) { return q->kind == NODE; }); if (!n) continue; S sid = wanted(o.arg(2));
						for (int64_t i = 0; i < o.arg(1); ++i) { FCDTTranslation* t = (FCDTTranslation*) ((FCDSceneNode*) n->o)->AddTransform(FCDTransform::TRANSLATION); t->SetSubId(sid.c_str()); t->SetTranslation((float) i + 1, 2, 3); } probe("many transforms of one sub-identifier");
					}
					else if (o.name == "sid")
					{
						Obj* n = m.pick(o.arg(0), [](Obj* q) { return q->kind == NODE; }); if (!n) continue; FCDSceneNode* node = (FCDSceneNode*) n->o;
						if (o.arg(2) == 0)
						{
							node->SetSubId(wanted(o.arg(1)).c_str()); S got = node->GetSubId().c_str(); if (got != FCDObjectWithId::CleanSubId(got.c_str()).c_str()) violate("sid-unclean", "a node got the malformed sub-identifier '%s'", got.substr(0, 80).c_str());
							for (FCDSceneNode* q = node->GetParent(); q; q = q->GetParent()) if (S(q->GetSubId().c_str()) == got && !got.empty()) violate("duplicate-sid", "a node and its ancestor have the sub-identifier '%s'", got.c_str());
						}
						else { FCDTransform* t = node->AddTransform(o.arg(2) == 1 ? FCDTransform::TRANSLATION : FCDTransform::SCALE); if (o.arg(1) % 3) t->SetSubId(wanted(o.arg(1)).c_str()); if (t->GetType() == FCDTransform::TRANSLATION) ((FCDTTranslation*) t)->SetTranslation(1, 2, 3); else ((FCDTScale*) t)->SetScale(2, 3, 4); }
					}
					m.check();
				}
				if (end < plan.ops.size())
				{
					std::vector<FCDTransform*> named; for (auto* x : m.objs) if (x->kind == NODE) { FCDSceneNode* n = (FCDSceneNode*) x->o; for (size_t i = 0; i < n->GetTransformCount(); ++i) if (!n->GetTransform(i)->GetSubId()->empty()) named.push_back(n->GetTransform(i)); }
					s.reset(); if (!save(m.doc, SIMDIR "/ids.dae") || s.err.errors) violate("save-refused", "the document could not be saved: %s", s.err.list.empty() ? "no error" : s.err.list[0].c_str());
					checkXml(SIMDIR "/ids.dae", false);
					m.check(); checkSids(SIMDIR "/ids.dae"); for (auto* t : named) if (t->GetSubId()->empty()) violate("sid-lost", "saving a document took the sub-identifier of a transform away");
					S out; std::function<void(Obj*)> put = [&](Obj* x) { S id = m.get(x); out += strf("%d\t%s\t", x->kind, x->tag.c_str()) + id + "\t" + (x->owner ? x->owner->tag : S()) + "\n"; for (auto* k : m.objs) if (k->owner == x) put(k); };
					for (auto* x : m.objs) if (!x->owner) put(x);
					for (auto& x : insts) out += "I\t" + x.first + "\t" + x.second + "\n";
					disk::put("/want", out);
				}
				m.doc->Release(); s.close();
			});
			at = end + 1; ++gen;
		}
	}
	Reg r0("ids", genIds, runIds);
}
