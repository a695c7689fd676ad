// S27: clones of entities, in the same or another document, over histories of editing, saving, restarting and releasing.
#include "model.h"
#include "FCDocument/FCDEffectParameter.h"
#include "FCDocument/FCDEffectParameterSampler.h"
#include "FCDocument/FCDEffectProfile.h"
#include <algorithm>
using namespace sim; using namespace model;
namespace
{
	struct Kind { const char* prefix; size_t (*count)(FCDocument*); FCDEntity* (*at)(FCDocument*, size_t); FCDEntity* (*add)(FCDocument*); };
#define KIND(lib, prefix) { prefix, [](FCDocument* d) { return (size_t) d->Get##lib##Library()->GetEntityCount(); }, [](FCDocument* d, size_t i) { return (FCDEntity*) d->Get##lib##Library()->GetEntity(i); }, [](FCDocument* d) { return (FCDEntity*) d->Get##lib##Library()->AddEntity(); } }
	const Kind kinds[] = { KIND(Geometry, "geometry"), KIND(Image, "image"), KIND(Effect, "effect"), KIND(Material, "material"), KIND(PhysicsMaterial, "physmaterial"), KIND(ForceField, "forcefield"), KIND(Emitter, "emitter"), KIND(VisualScene, "scene"), KIND(PhysicsModel, "physmodel") };
	const int NKINDS = 9;
	void genClone(Rng& r, Plan& p, int tier)
	{
		static const int fam[] = { F_GEOM, F_GEOM, F_SPLINE, F_IMAGE, F_MATERIAL, F_MATERIAL, F_PHYSICS, F_SCENE, F_SCENE, F_FORCE, F_EMITTER, F_CAMERA, F_LIGHT, F_CTRL };
		auto R = [&](int m) { return (int64_t) r.below((uint64_t) m); };
		int anims = r.chance(0.25) ? 1 : 0;
		for (int i = (int) r.range(1, 3); i > 0; --i) p.ops.push_back(genBuild(r, fam[R(14)], 2, 3, anims));
		for (int i = (int) r.range(2, tier ? 14 : 9); i > 0; --i) switch (R(10))
		{
		case 0: p.ops.push_back(genBuild(r, fam[R(14)], 2, 3, anims)); break;
		case 1: case 2: p.ops.push_back(Op("edit", {R(100), R(1000000)})); break;
		case 3: case 4: p.ops.push_back(Op("drop", {R(100)})); break;
		default: p.ops.push_back(Op("clone", {R(NKINDS), R(100), R(2)})); break;
		}
		if (r.chance(0.2)) p.ops.push_back(Op("closefirst"));
		else if (r.chance(0.4)) p.ops.push_back(Op("save", {R(2)}));
	}
	typedef std::vector<std::pair<S, S>> Part;
	Part part(FCDocument* d, const char* prefix, size_t i)
	{
		Dump all = describe(d); S p = strf("%s[%zu].", prefix, i); Part out;
		// Not the identifiers, which are unique, nor who made it and when.
		auto skip = [](const S& k) { auto ends = [&](const char* e) { size_t n = strlen(e); return k.size() >= n && k.compare(k.size() - n, n, e) == 0; }; return k == "id" || ends(".id") || ends(".sid") || ends(".subid") || ends(".istarget") || k.compare(0, 6, "asset.") == 0 || k.find(".asset.") != S::npos; };
		for (auto& l : all.lines) if (l.first.compare(0, p.size(), p) == 0 && !skip(l.first.substr(p.size()))) out.push_back({l.first.substr(p.size()), l.second});
		// The sources of a mesh get unique identifiers: they are known by their order instead.
		std::map<S, S> src; for (auto& l : all.lines) if (l.first.compare(0, p.size(), p) == 0) { size_t at = l.first.find("mesh.source["); if (at == p.size() && l.first.size() > 3 && l.first.compare(l.first.size() - 3, 3, ".id") == 0 && l.first.find('.', at + 5) == l.first.size() - 3) src[l.second] = l.first.substr(at + 11, l.first.size() - 3 - at - 11); }
		// Materials of rigid bodies and shapes are shared or copied, as the owner has it; constraints keep to the bodies of the original.
		if (!strcmp(prefix, "physmodel")) { Part rest; for (auto& l : out) if (l.first.find(".material") == S::npos && l.first.find("constraint[") == S::npos && l.first.find(".target") == S::npos) rest.push_back(l); out.swap(rest); }
		for (auto& l : out)
		{
			size_t a = l.first.find(".input<"); if (a != S::npos) { size_t b = l.first.find('>', a); auto it = src.find(l.first.substr(a + 7, b - a - 7)); if (it != src.end()) l.first = l.first.substr(0, a + 7) + it->second + l.first.substr(b); }
			if (l.first.compare(0, 17, "mesh.vertexsource") == 0) { auto it = src.find(l.second); if (it != src.end()) l.second = it->second; }
		}
		return out;
	}
	bool linked(FCDSceneNode* n)
	{
		for (size_t i = 0; i < n->GetInstanceCount(); ++i) if (n->GetInstance(i)->GetEntityType() == FCDEntity::SCENE_NODE) return true;
		for (size_t i = 0; i < n->GetChildrenCount(); ++i) if (n->GetChild(i)->GetParent() != n || linked(n->GetChild(i))) return true;
		return false;
	}
	bool instances(FCDSceneNode* n) { if (n->GetInstanceCount()) return true; for (size_t i = 0; i < n->GetChildrenCount(); ++i) if (instances(n->GetChild(i))) return true; return false; }
	// A clone of a material has a clone of the effect, and whether the animation of a value is cloned with the value differs between the classes.
	Part strip(const Part& p, const char* prefix) { Part out; for (auto& l : p) if ((strcmp(prefix, "material") || l.first != "effect") && l.first.find(".animated") == S::npos && l.first.find(".curve") == S::npos && l.first.find(".driver") == S::npos && l.first.find(".anim.") == S::npos && (strcmp(prefix, "geometry") || l.first.find("].value[") == S::npos)) out.push_back(l); return out; }
	// What is known of an entity: its content, in its document, until it is edited or released.
	struct Known { int kind; FCDocument* doc; FCDEntity* e; Part part; S why; bool apart; };
	size_t indexOf(const Kind& K, FCDocument* d, FCDEntity* e) { for (size_t i = 0; i < K.count(d); ++i) if (K.at(d, i) == e) return i; violate("clone-lost", "an entity of kind %s that was never released is not in its library any more", K.prefix); }
	S differs(const Part& a, const Part& b)
	{
		std::map<S, S> w, g; for (auto& l : a) w[l.first] += l.second + "|"; for (auto& l : b) g[l.first] += l.second + "|";
		for (auto& l : w) { if (!g.count(l.first)) return "lost " + l.first + "=" + l.second; if (g[l.first] != l.second) return l.first + " was " + l.second + " is " + g[l.first]; }
		for (auto& l : g) if (!w.count(l.first)) return "new " + l.first + "=" + l.second;
		return S();
	}
	void edit(Known& k, Rng& r)
	{
		FCDEntity* e = k.e; int what = (int) r.below(4);
		if (what == 0) { e->SetName(strf("edited%d", (int) r.below(1000)).c_str()); return; }
		if (what == 1) { e->SetNote(strf("noted %d", (int) r.below(1000)).c_str()); return; }
		if (what == 2)
		{
			FCDETechnique* t = e->GetExtra()->GetDefaultType()->FindTechnique("EDIT"); if (!t) t = e->GetExtra()->GetDefaultType()->AddTechnique("EDIT");
			t->AddParameter("edited", (int32) r.below(1000)); return;
		}
		if (e->HasType(FCDGeometry::GetClassType()) && ((FCDGeometry*) e)->IsMesh())
		{
			FCDGeometryMesh* m = ((FCDGeometry*) e)->GetMesh();
			if (m->GetSourceCount() && r.chance(0.5)) { FCDGeometrySource* s = m->GetSource(r.below(m->GetSourceCount())); if (s->GetDataCount()) s->GetData()[r.below(s->GetDataCount())] += 1.5f; }
			else if (m->GetPolygonsCount())
			{
				FCDGeometryPolygons* p = m->GetPolygons(r.below(m->GetPolygonsCount()));
				if (r.chance(0.3)) p->Release(); else if (r.chance(0.5)) p->SetMaterialSemantic("editedmat");
				else if (p->GetInputCount()) { FCDGeometryPolygonsInput* in = p->GetInput(r.below(p->GetInputCount())); if (in->GetIndexCount()) in->GetIndices()[r.below(in->GetIndexCount())] = 0; }
			}
		}
		else if (e->HasType(FCDGeometry::GetClassType()) && ((FCDGeometry*) e)->IsSpline())
		{
			FCDGeometrySpline* s = ((FCDGeometry*) e)->GetSpline(); if (s->GetSplineCount()) { FCDSpline* x = s->GetSpline(r.below(s->GetSplineCount())); if (x->GetCVCount()) x->GetCV(r.below(x->GetCVCount()))->x += 2.5f; }
		}
		else if (e->HasType(FCDImage::GetClassType())) { ((FCDImage*) e)->SetWidth(((FCDImage*) e)->GetWidth() + 3); ((FCDImage*) e)->SetFilename(FC("edited.png")); }
		else if (e->HasType(FCDEffect::GetClassType()))
		{
			FCDEffect* x = (FCDEffect*) e; if (!x->GetProfileCount()) return; FCDEffectProfile* p = x->GetProfile(r.below(x->GetProfileCount()));
			size_t n = p->GetEffectParameterCount(); FCDEffectParameter* q = n ? p->GetEffectParameter(r.below(n)) : nullptr;
			if (r.chance(0.3)) p->Release(); else if (q && r.chance(0.5)) q->Release(); else if (q) { q->SetSemantic("EDITED"); if (q->HasType(FCDEffectParameterSampler::GetClassType())) ((FCDEffectParameterSampler*) q)->SetWrapS(FUDaeTextureWrapMode::CLAMP); }
		}
		else if (e->HasType(FCDMaterial::GetClassType())) { FCDMaterial* m = (FCDMaterial*) e; if (m->GetEffectParameterCount() && r.chance(0.5)) m->GetEffectParameter(0)->Release(); else { FCDMaterialTechniqueHint h; h.platform = "EDIT"; h.technique = "edited"; m->GetTechniqueHints().push_back(h); } }
		else if (e->HasType(FCDPhysicsMaterial::GetClassType())) { ((FCDPhysicsMaterial*) e)->SetStaticFriction(((FCDPhysicsMaterial*) e)->GetStaticFriction() + 0.5f); }
		else if (e->HasType(FCDSceneNode::GetClassType()))
		{
			FCDSceneNode* n = (FCDSceneNode*) e; for (int deep = (int) r.below(3); deep > 0 && n->GetChildrenCount(); --deep) n = n->GetChild(r.below(n->GetChildrenCount()));
			if (n->GetTransformCount() && r.chance(0.4)) n->GetTransform(0)->Release(); else if (n->GetInstanceCount() && r.chance(0.5)) n->GetInstance(0)->Release(); else ((FCDTTranslation*) n->AddTransform(FCDTransform::TRANSLATION))->SetTranslation(1, 2, 3);
		}
	}
	void runClone(const Plan& plan)
	{
		bool saved = false, dropped = false;
		life([&]()
		{
			Session s; FCDocument* doc = FCollada::NewTopDocument(); FCDocument* other = FCollada::NewTopDocument(); std::vector<Known> known;
			auto content = [&](const Known& k) { return part(k.doc, kinds[k.kind].prefix, indexOf(kinds[k.kind], k.doc, k.e)); };
			auto settled = [&](const S& after) { for (auto& k : known) { S d = differs(strip(k.part, kinds[k.kind].prefix), strip(content(k), kinds[k.kind].prefix)); if (!d.empty()) violates("clone-shared", k.why + " of kind " + kinds[k.kind].prefix + " changed through " + after + ": " + d); } };
			auto find = [&](FCDEntity* e) -> Known* { for (auto& k : known) if (k.e == e) return &k; return nullptr; };
			for (auto& o : plan.ops)
			{
				if (o.name == "build") { apply(doc, o); for (auto& k : known) k.part = content(k); }
				else if (o.name == "clone")
				{
					int k = -1; for (int t = 0; t < NKINDS && k < 0; ++t) if (kinds[(o.arg(0) + t) % NKINDS].count(doc)) k = (int) (o.arg(0) + t) % NKINDS;
					if (k < 0) continue; const Kind& K = kinds[k]; FCDEntity* from = K.at(doc, (size_t) o.arg(1) % K.count(doc)); FCDocument* to = o.arg(2) ? other : doc;
					Part want = part(doc, K.prefix, indexOf(K, doc, from));
					// A node that is instanced under several parents becomes a node of its own in each copy: the copies of such scenes are not compared.
					bool comparable = true; for (auto& l : want) if (l.first.size() > 7 && l.first.compare(l.first.size() - 7, 7, ".shared") == 0) comparable = false;
					if (K.prefix == S("scene") && (!comparable || linked((FCDSceneNode*) from) || (to != doc && instances((FCDSceneNode*) from)))) continue;
					if (K.prefix == S("physmodel") && to != doc) continue;
					FCDEntity* c = K.add(to); from->Clone(c, true); trace(S("clone ") + K.prefix + (to == doc ? "" : " away")); probe((S("cloned ") + K.prefix).c_str()); if (to != doc) probe("cloned into another document");
					Known kc = { k, to, c, Part(), "a clone", true }; kc.part = content(kc); S d = differs(strip(want, K.prefix), strip(kc.part, K.prefix));
					if (!d.empty()) violates("clone-content", S("a clone of kind ") + K.prefix + (to == doc ? " in the same document" : " in another document") + " is not as its original: " + d);
					if (!find(from)) known.push_back({ k, doc, from, want, "an original", true });
					known.push_back(kc); settled("cloning");
				}
				else if (o.name == "edit")
				{
					if (known.empty()) continue; Known& k = known[(size_t) o.arg(0) % known.size()]; Rng r((uint64_t) o.arg(1)); edit(k, r); k.part = content(k); dropped = true;
					probe("edited"); trace(S("edit ") + k.why); settled(S("an edit of ") + k.why + " of kind " + kinds[k.kind].prefix);
				}
				else if (o.name == "drop")
				{
					if (known.empty()) continue; size_t at = (size_t) o.arg(0) % known.size(); Known k = known[at];
					// What other entities point at stays.
					if (kinds[k.kind].prefix == S("image") && k.doc == doc) continue;
					bool used = false; FCDEntity* own = k.e->HasType(FCDMaterial::GetClassType()) ? ((FCDMaterial*) k.e)->GetEffect() : nullptr;
					for (FCDocument* d : { doc, other }) for (size_t i = 0; i < d->GetMaterialLibrary()->GetEntityCount(); ++i) { FCDMaterial* m = d->GetMaterialLibrary()->GetEntity(i); if (m != k.e && m->GetEffect() && (m->GetEffect() == k.e || m->GetEffect() == own)) used = true; }
					for (auto& x : known) if (x.e == own) used = true;
					{ Dump all = describe(k.doc); S own = strf("%s[%zu].", kinds[k.kind].prefix, indexOf(kinds[k.kind], k.doc, k.e)), id = k.e->GetDaeId().c_str(); for (auto& l : all.lines) if (l.first.compare(0, own.size(), own) && l.second.find(id) != S::npos) used = true; }
					if (kinds[k.kind].prefix == S("scene") && doc->GetVisualSceneInstance() == k.e) used = true;
					if (used) continue;
					known.erase(known.begin() + at); k.e->Release(); dropped = true; probe(k.why == "a clone" ? "released a clone" : "released an original"); trace("drop " + k.why);
					settled(S("the release of ") + k.why + " of kind " + kinds[k.kind].prefix);
				}
				else if (o.name == "closefirst")
				{
					// The clones that point at nothing in their original's document outlive it.
					std::vector<Known> stay; for (auto& k : known) { S p = kinds[k.kind].prefix; if (k.doc == other && (p == "geometry" || p == "image" || p == "physmaterial" || p == "forcefield" || p == "emitter" || p == "scene")) stay.push_back(k); }
					known.swap(stay); doc->Release(); doc = nullptr; probe("original document released"); trace("close"); settled("the release of the original document"); break;
				}
				else if (o.name == "save")
				{
					// The channels of an animation that lost what it animates stay.
					if (dropped && doc->GetAnimationLibrary()->GetEntityCount()) break;
					Dump want = describe(doc); s.reset();
					if (!save(doc, SIMDIR "/c.dae") || s.err.errors) violate("clone-save", "saving a document with clones failed: %s", s.err.list.empty() ? "no error reported" : s.err.list[0].c_str());
					checkXml(SIMDIR "/c.dae"); disk::put("/want", pack(want)); saved = true; trace("save"); if (o.arg(0)) { fault("process killed after save"); crash(); }
					break;
				}
			}
			if (doc) doc->Release(); other->Release(); s.close();
		});
		if (saved) life([&]()
		{
			Session s; bool ok = false; FCDocument* doc = loadNew(SIMDIR "/c.dae", ok);
			if (!ok || s.err.errors) violate("clone-load", "loading a saved document with clones failed: %s", s.err.list.empty() ? "no error reported" : s.err.list[0].c_str());
			S w; disk::get("/want", w); S cls, msg; if (!same(unpack(w), describe(doc), cls, msg)) violates("clone-saved", "after save, restart and load a document with clones differs:\n" + msg);
			probe("saved clones compared"); doc->Release(); s.close();
		});
	}
	Reg reg("clones", genClone, runClone);
}
