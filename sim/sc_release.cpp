// S13: releasing anything, in any order, over the lives of documents; memory does not grow from life to life.
#include "model.h"
#include "FCDocument/FCDEffectCode.h"
#include "FCDocument/FCDEffectParameter.h"
#include "FCDocument/FCDEffectParameterSampler.h"
#include "FCDocument/FCDEffectParameterSurface.h"
#include "FCDocument/FCDEffectPass.h"
#include "FCDocument/FCDEffectPassShader.h"
#include "FCDocument/FCDEffectPassState.h"
#include "FCDocument/FCDEffectProfileFX.h"
#include "FCDocument/FCDEffectStandard.h"
#include "FCDocument/FCDEffectTechnique.h"
#include "FCDocument/FCDPhysicsAnalyticalGeometry.h"
#include "FCDocument/FCDPhysicsForceFieldInstance.h"
#include "FCDocument/FCDPhysicsModelInstance.h"
#include "FCDocument/FCDPhysicsRigidBody.h"
#include "FCDocument/FCDPhysicsRigidBodyInstance.h"
#include "FCDocument/FCDPhysicsRigidBodyParameters.h"
#include "FCDocument/FCDPhysicsRigidConstraint.h"
#include "FCDocument/FCDPhysicsRigidConstraintInstance.h"
#include "FCDocument/FCDPhysicsShape.h"
#include "FCDocument/FCDTexture.h"
#include "FCDocument/FCDTargetedEntity.h"
#include <algorithm>
#include <set>
using namespace sim; using namespace model;
namespace
{
	struct Item { FUTrackable* o; const char* kind; };
	// Everything in a document that an application may release by itself.
	struct Walk
	{
		std::vector<Item> items; std::set<FUTrackable*> seen;
		bool add(FUTrackable* o, const char* kind) { if (!o || !seen.insert(o).second) return false; items.push_back({o, kind}); return true; }
		void extra(FCDExtra* x)
		{
			if (!x) return;
			for (size_t t = 0; t < x->GetTypeCount(); ++t) { FCDEType* ty = x->GetType(t); add(ty, "extra type"); for (size_t i = 0; i < ty->GetTechniqueCount(); ++i) { add(ty->GetTechnique(i), "extra technique"); enode(ty->GetTechnique(i)); } }
		}
		void enode(FCDENode* n)
		{
			for (size_t i = 0; i < n->GetAttributeCount(); ++i) add(n->GetAttribute(i), "extra attribute");
			for (size_t i = 0; i < n->GetChildNodeCount(); ++i) { add(n->GetChildNode(i), "extra node"); if (n->GetChildNode(i)->GetAnimated()) animated(n->GetChildNode(i)->GetAnimated()); enode(n->GetChildNode(i)); }
		}
		void asset(FCDAsset* a) { if (a) for (size_t i = 0; i < a->GetContributorCount(); ++i) add(a->GetContributor(i), "contributor"); }
		void entity(FCDEntity* e, const char* kind) { if (!add(e, kind)) return; extra(e->GetExtra()); if (((const FCDEntity*) e)->GetAsset()) asset(e->GetAsset()); }
		void animated(FCDAnimated* a) { if (!a) return; for (size_t v = 0; v < a->GetValueCount(); ++v) for (size_t c = 0; c < a->GetCurves()[v].size(); ++c) add(a->GetCurve(v, c), "curve"); }
		template <class X> void params(X* x) { for (size_t i = 0; i < x->GetEffectParameterCount(); ++i) param(x->GetEffectParameter(i)); }
		void param(FCDEffectParameter* p) { add(p, "effect parameter"); for (size_t i = 0; i < p->GetAnnotationCount(); ++i) add(p->GetAnnotation(i), "annotation"); }
		void instance(FCDEntityInstance* i, const char* kind)
		{
			if (!add(i, kind)) return; if (((const FCDEntityInstance*) i)->GetExtra()) extra(i->GetExtra());
			if (i->HasType(FCDGeometryInstance::GetClassType())) { auto* g = (FCDGeometryInstance*) i; for (size_t k = 0; k < g->GetMaterialInstanceCount(); ++k) instance(g->GetMaterialInstance(k), "material instance"); params(g); }
			if (i->HasType(FCDMaterialInstance::GetClassType())) { auto* m = (FCDMaterialInstance*) i; for (size_t k = 0; k < m->GetBindingCount(); ++k) add(m->GetBinding(k), "binding"); for (size_t k = 0; k < m->GetVertexInputBindingCount(); ++k) add(m->GetVertexInputBinding(k), "vertex input binding"); }
			if (i->HasType(FCDPhysicsModelInstance::GetClassType())) { auto* m = (FCDPhysicsModelInstance*) i; for (size_t k = 0; k < m->GetInstanceCount(); ++k) instance(m->GetInstance(k), "physics inner instance"); }
			if (i->HasType(FCDPhysicsRigidBodyInstance::GetClassType())) bodyParams(((FCDPhysicsRigidBodyInstance*) i)->GetParameters());
		}
		void bodyParams(FCDPhysicsRigidBodyParameters* p)
		{
			if (!p) return; if (p->GetInstanceMaterial()) instance(p->GetInstanceMaterial(), "physics material instance");
			for (size_t i = 0; i < p->GetPhysicsShapeCount(); ++i)
			{
				FCDPhysicsShape* s = p->GetPhysicsShape(i); add(s, "shape"); for (size_t t = 0; t < s->GetTransforms().size(); ++t) add(s->GetTransforms()[t], "shape transform");
				if (s->GetInstanceMaterial()) instance(s->GetInstanceMaterial(), "physics material instance"); if (s->GetGeometryInstance()) instance(s->GetGeometryInstance(), "shape geometry");
			}
		}
		void node(FCDSceneNode* n)
		{
			entity(n, "node");
			for (size_t i = 0; i < n->GetTransformCount(); ++i) { add(n->GetTransform(i), "transform"); animated(n->GetTransform(i)->GetAnimated()); }
			for (size_t i = 0; i < n->GetInstanceCount(); ++i) instance(n->GetInstance(i), "instance");
			for (size_t i = 0; i < n->GetChildrenCount(); ++i) if (!seen.count(n->GetChild(i))) node(n->GetChild(i));
		}
		void animation(FCDAnimation* a) { entity(a, "animation"); for (size_t i = 0; i < a->GetChannelCount(); ++i) { FCDAnimationChannel* c = a->GetChannel(i); add(c, "channel"); for (size_t k = 0; k < c->GetCurveCount(); ++k) add(c->GetCurve(k), "curve"); } for (size_t i = 0; i < a->GetChildrenCount(); ++i) animation(a->GetChild(i)); }
		template <class L> void lib(L* l, const char* kind) { extra(l->GetExtra()); if (((const L*) l)->GetAsset()) asset(l->GetAsset()); for (size_t i = 0; i < l->GetEntityCount(); ++i) entity(l->GetEntity(i), kind); }
		void code(FCDEffectCode* c) { add(c, "effect code"); }
		void document(FCDocument* d)
		{
			asset(d->GetAsset()); extra(d->GetExtra());
			lib(d->GetCameraLibrary(), "camera"); lib(d->GetLightLibrary(), "light"); lib(d->GetEmitterLibrary(), "emitter"); lib(d->GetForceFieldLibrary(), "force field"); lib(d->GetImageLibrary(), "image"); lib(d->GetGeometryLibrary(), "geometry"); lib(d->GetControllerLibrary(), "controller");
			lib(d->GetMaterialLibrary(), "material"); lib(d->GetEffectLibrary(), "effect"); lib(d->GetPhysicsMaterialLibrary(), "physics material"); lib(d->GetPhysicsModelLibrary(), "physics model"); lib(d->GetPhysicsSceneLibrary(), "physics scene"); lib(d->GetAnimationClipLibrary(), "animation clip");
			for (size_t i = 0; i < d->GetCameraLibrary()->GetEntityCount(); ++i) { FCDCamera* c = d->GetCameraLibrary()->GetEntity(i); animated(c->GetFovX().GetAnimated()); animated(c->GetNearZ().GetAnimated()); }
			for (size_t i = 0; i < d->GetLightLibrary()->GetEntityCount(); ++i) { FCDLight* c = d->GetLightLibrary()->GetEntity(i); animated(c->GetColor().GetAnimated()); animated(c->GetIntensity().GetAnimated()); }
			for (size_t i = 0; i < d->GetGeometryLibrary()->GetEntityCount(); ++i)
			{
				FCDGeometry* g = d->GetGeometryLibrary()->GetEntity(i);
				if (FCDGeometryMesh* m = g->GetMesh())
				{
					for (size_t k = 0; k < m->GetSourceCount(); ++k) { add(m->GetSource(k), "source"); if (((const FCDGeometrySource*) m->GetSource(k))->GetExtra()) extra(m->GetSource(k)->GetExtra()); FCDParameterListAnimatableFloat& l = m->GetSource(k)->GetSourceData(); for (size_t a = 0; a < l.GetAnimatedValues().size(); ++a) animated(l.GetAnimatedValues()[a]); }
					for (size_t k = 0; k < m->GetPolygonsCount(); ++k) { FCDGeometryPolygons* p = m->GetPolygons(k); add(p, "polygons"); extra(p->GetExtra()); for (size_t j = 0; j < p->GetInputCount(); ++j) add(p->GetInput(j), "input"); }
				}
				if (FCDGeometrySpline* s = g->GetSpline()) for (size_t k = 0; k < s->GetSplineCount(); ++k) add(s->GetSpline(k), "spline");
			}
			for (size_t i = 0; i < d->GetControllerLibrary()->GetEntityCount(); ++i)
			{
				FCDController* c = d->GetControllerLibrary()->GetEntity(i);
				if (FCDMorphController* m = c->GetMorphController()) for (size_t k = 0; k < m->GetTargetCount(); ++k) { add(m->GetTarget(k), "morph target"); animated(m->GetTarget(k)->GetWeight().GetAnimated()); }
			}
			for (size_t i = 0; i < d->GetMaterialLibrary()->GetEntityCount(); ++i) params(d->GetMaterialLibrary()->GetEntity(i));
			for (size_t i = 0; i < d->GetEffectLibrary()->GetEntityCount(); ++i)
			{
				FCDEffect* e = d->GetEffectLibrary()->GetEntity(i); params(e);
				for (size_t k = 0; k < e->GetProfileCount(); ++k)
				{
					FCDEffectProfile* p = e->GetProfile(k); add(p, "effect profile"); extra(p->GetExtra()); params(p);
					if (p->HasType(FCDEffectStandard::GetClassType())) { auto* s = (FCDEffectStandard*) p; for (uint32 b = 0; b < FUDaeTextureChannel::COUNT; ++b) for (size_t t = 0; t < s->GetTextureCount(b); ++t) { add(s->GetTexture(b, t), "texture"); extra(s->GetTexture(b, t)->GetExtra()); } }
					if (p->HasType(FCDEffectProfileFX::GetClassType()))
					{
						auto* f = (FCDEffectProfileFX*) p; for (size_t c = 0; c < f->GetCodeCount(); ++c) code(f->GetCode(c));
						for (size_t t = 0; t < f->GetTechniqueCount(); ++t)
						{
							FCDEffectTechnique* q = f->GetTechnique(t); add(q, "effect technique"); params(q); for (size_t c = 0; c < q->GetCodeCount(); ++c) code(q->GetCode(c));
							for (size_t s = 0; s < q->GetPassCount(); ++s) { FCDEffectPass* a = q->GetPass(s); add(a, "pass"); for (size_t h = 0; h < a->GetShaderCount(); ++h) { add(a->GetShader(h), "shader"); for (size_t b = 0; b < a->GetShader(h)->GetBindingCount(); ++b) add(a->GetShader(h)->GetBinding(b), "shader binding"); } for (size_t h = 0; h < a->GetRenderStateCount(); ++h) add(a->GetRenderState(h), "render state"); }
						}
					}
				}
			}
			for (size_t i = 0; i < d->GetPhysicsModelLibrary()->GetEntityCount(); ++i)
			{
				FCDPhysicsModel* m = d->GetPhysicsModelLibrary()->GetEntity(i); for (size_t k = 0; k < m->GetInstanceCount(); ++k) instance(m->GetInstance(k), "physics model instance");
				for (size_t k = 0; k < m->GetRigidBodyCount(); ++k) { entity(m->GetRigidBody(k), "rigid body"); bodyParams(m->GetRigidBody(k)->GetParameters()); }
				for (size_t k = 0; k < m->GetRigidConstraintCount(); ++k) { FCDPhysicsRigidConstraint* c = m->GetRigidConstraint(k); entity(c, "rigid constraint"); for (size_t t = 0; t < c->GetTransformsRef().size(); ++t) add(c->GetTransformsRef()[t], "constraint transform"); for (size_t t = 0; t < c->GetTransformsTar().size(); ++t) add(c->GetTransformsTar()[t], "constraint transform"); }
			}
			for (size_t i = 0; i < d->GetPhysicsSceneLibrary()->GetEntityCount(); ++i) { FCDPhysicsScene* s = d->GetPhysicsSceneLibrary()->GetEntity(i); for (size_t k = 0; k < s->GetPhysicsModelInstancesCount(); ++k) instance(s->GetPhysicsModelInstance(k), "physics model instance"); for (size_t k = 0; k < s->GetForceFieldInstancesCount(); ++k) instance(s->GetForceFieldInstance(k), "force field instance"); }
			for (size_t i = 0; i < d->GetAnimationLibrary()->GetEntityCount(); ++i) animation(d->GetAnimationLibrary()->GetEntity(i));
			for (size_t i = 0; i < d->GetVisualSceneLibrary()->GetEntityCount(); ++i) node(d->GetVisualSceneLibrary()->GetEntity(i));
		}
	};
	const int fams[] = {F_SCENE, F_GEOM, F_CTRL, F_MATERIAL, F_PHYSICS, F_ANIM, F_CAMERA, F_LIGHT, F_IMAGE, F_SPLINE, F_EMITTER, F_FORCE, F_INFO};
	void genRelease(Rng& r, Plan& p, int tier)
	{
		auto R = [&](int m) { return (int64_t) r.below(m); };
		int n = (int) r.range(3, tier ? 40 : 20), an = r.chance(0.5) ? 1 : 0, docs = r.chance(0.3) ? 2 : 1, size = r.chance(0.3) ? 3 : 2;
		if (r.chance(0.35)) p.ops.push_back(Op("cycles", {3}));
		auto build = [&](int64_t d, int f) { Op o = genBuild(r, f, size, 1, an); o.a.insert(o.a.begin(), d); p.ops.push_back(o); };
		for (int d = 0; d < docs; ++d) { if (r.chance(0.6)) build(d, F_GEOM); for (int i = 0, k = (int) r.range(1, 4); i < k; ++i) build(d, fams[r.below(13)]); if (r.chance(0.7)) build(d, F_SCENE); }
		for (int i = 0; i < n; ++i)
		{
			int x = (int) r.below(20); int64_t d = R(docs);
			if (x < 6) p.ops.push_back(Op("release", {d, R(1 << 30)}));
			else if (x < 11) p.ops.push_back(Op("redo", {d, R(1 << 30), R(1 << 20)}));
			else if (x < 13) p.ops.push_back(Op("look", {d}));
			else if (x < 14) p.ops.push_back(Op("save", {d, r.chance(0.3) ? R(3000) : -1}));
			else if (x < 15) p.ops.push_back(Op("reload", {d, r.chance(0.3) ? R(3000) : -1, R(2)}));
			else if (x < 16) p.ops.push_back(Op("time", {d, R(100)}));
			else if (x < 17) p.ops.push_back(Op("cross", {d, R(100), R(100)}));
			else if (x < 18) p.ops.push_back(Op("clone", {d, R(1000)}));
			else if (x < 19) build(d, fams[r.below(13)]);
			else p.ops.push_back(Op("closedoc", {d}));
		}
		if (r.chance(0.5)) p.ops.push_back(Op("drain", {0, R(1000000)}));
	}
	struct Docs
	{
		Session& s; FCDocument* doc[2] = {nullptr, nullptr}; std::vector<std::pair<S, FUTrackedPtr<FUTrackable>*>> held[2]; std::vector<std::pair<S, FUTrackedPtr<FUTrackable>*>> all;
		Docs(Session& x) : s(x) {}
		FCDocument* get(int64_t d) { d &= 1; if (!doc[d]) doc[d] = FCollada::NewTopDocument(); return doc[d]; }
		void look(FCDocument* d) { Dump x = describe(d); logf("%zu lines", x.lines.size()); }
		void releaseOne(FCDocument* d, int64_t n)
		{
			Walk w; w.document(d); if (w.items.empty()) return; std::vector<S> kinds; std::vector<size_t> c; for (auto& x : w.items) if (std::find(kinds.begin(), kinds.end(), x.kind) == kinds.end()) kinds.push_back(x.kind);
			// Half of the choices first choose a kind, or the extra trees would take them all.
			size_t k = (size_t) n / 2; if (n & 1) { S want = kinds[k % kinds.size()]; for (size_t x = 0; x < w.items.size(); ++x) if (want == w.items[x].kind) c.push_back(x); k = c[(k / kinds.size()) % c.size()]; } else k %= w.items.size();
			Item i = w.items[k]; S kind = i.kind; trace("release " + kind); logf("release %s", i.kind); probe(("released: " + kind).c_str());
			FUTrackedPtr<FUTrackable> p(i.o); 
			i.o->Release(); if (p) violate("not-released", "a %s is still alive after its release", kind.c_str());
			Walk a; a.document(d); if (a.seen.count(i.o)) violate("still-listed", "a %s is still listed after its release", kind.c_str());
		}
		// Set something again that is there already: what it replaces goes away, and nothing keeps pointing at it.
		void redo(FCDocument* d, int64_t n, int64_t v)
		{
			Walk w; w.document(d); if (w.items.empty()) return; auto pick = [&](const std::vector<FUTrackable*>& c) -> FUTrackable* { return c.empty() ? nullptr : c[(size_t) (v / 8) % c.size()]; };
			auto all = [&](const char* k) { std::vector<FUTrackable*> c; for (auto& i : w.items) if (!strcmp(i.kind, k)) c.push_back(i.o); return c; };
			static const char* ks[] = {"effect parameter", "geometry", "controller", "shape", "rigid body", "instance", "texture", "pass", "effect", "extra type", "extra node", "curve", "animated", "camera", "polygons", "node", "physics inner instance", "rigid constraint", "shader", "image", "physics model instance", "material instance", "source", "morph target"};
			// A kind that the document has.
			FUTrackable* o = nullptr; S kind; for (size_t t = 0; t < sizeof(ks) / sizeof(*ks) && !o; ++t) { kind = ks[((size_t) n + t) % (sizeof(ks) / sizeof(*ks))]; auto c = all(kind == "animated" ? "transform" : kind.c_str()); if (!c.empty()) o = c[(size_t) (n / 32) % c.size()]; }
			if (!o) return; trace("redo " + kind); logf("redo %s %lld", kind.c_str(), (long long) v); bool did = true; int64_t e = v % 8; float f = (float) (v % 97) / 8.0f;
			if (kind == "effect parameter")
			{
				auto* p = (FCDEffectParameter*) o; 
				if (p->HasType(FCDEffectParameterSurface::GetClassType()))
				{
					auto* s = (FCDEffectParameterSurface*) p; auto* im = (FCDImage*) pick(all("image"));
					if (e < 4) { s->SetInitMethod(FCDEffectParameterSurfaceInitFactory::Create((FCDEffectParameterSurfaceInitFactory::InitType) ((v / 8) % 6))); if (!s->GetInitMethod()) violate("not-set", "a surface has no initialisation after it was given one"); probe("surface initialisation replaced"); }
					else if (e < 5) s->SetInitMethod(nullptr); else if (e < 6) s->AddFormatHint(); else if (im) { s->AddImage(im); if (e == 7) s->RemoveImage(im); }
				}
				else if (p->HasType(FCDEffectParameterSampler::GetClassType())) { auto c = all("effect parameter"); FCDEffectParameterSurface* su = nullptr; for (auto* q : c) if (((FCDEffectParameter*) q)->HasType(FCDEffectParameterSurface::GetClassType())) su = (FCDEffectParameterSurface*) q; ((FCDEffectParameterSampler*) p)->SetSurface(e < 2 ? nullptr : su); }
				else if (e < 4) p->AddAnnotation("redone", FCDEffectParameter::FLOAT, "1"); else p->SetSemantic("REDONE");
			}
			else if (kind == "geometry") { auto* g = (FCDGeometry*) o; FUTrackedPtr<FUTrackable> was(g->GetMesh() ? (FUTrackable*) g->GetMesh() : (FUTrackable*) g->GetSpline()); if (e < 4) g->CreateMesh()->AddSource(FUDaeGeometryInput::POSITION); else if (e < 6) g->CreateSpline()->SetType(FUDaeSplineType::BEZIER); else if (e < 7) g->SetMesh(nullptr); else g->SetSpline(nullptr); if (e < 6 && was) violate("not-released", "the shape of a geometry is still alive after it was replaced"); }
			else if (kind == "controller") { auto* c = (FCDController*) o; FUTrackedPtr<FUTrackable> was(c->GetSkinController() ? (FUTrackable*) c->GetSkinController() : (FUTrackable*) c->GetMorphController()); auto* g = (FCDGeometry*) pick(all("geometry")); if (e < 4) { auto* s = c->CreateSkinController(); s->SetTarget(g); s->SetJointCount(2); s->SetInfluenceCount(3); s->SetTarget(e ? g : nullptr); } else { auto* m = c->CreateMorphController(); m->SetBaseTarget(g); if (e > 5) m->AddTarget(g, f); m->SetBaseTarget(e == 7 ? nullptr : g); } if (was) violate("not-released", "the kind of a controller is still alive after it was replaced"); }
			else if (kind == "shape" || kind == "rigid body")
			{
				auto* s = kind == "shape" ? (FCDPhysicsShape*) o : nullptr; auto* p = s ? nullptr : ((FCDPhysicsRigidBody*) o)->GetParameters(); auto* pm = (FCDPhysicsMaterial*) pick(all("physics material")); auto* g = (FCDGeometry*) pick(all("geometry"));
				if (e < 2) { if (s) s->AddOwnPhysicsMaterial(); else p->AddOwnPhysicsMaterial(); } else if (e < 3 && pm) { if (s) s->SetPhysicsMaterial(pm); else p->SetPhysicsMaterial(pm); } else if (e < 4) { if (s) { s->SetMass(f); s->SetDensity(f); } else { p->SetMass(f); p->SetDensity(f); p->SetDynamic(true); } }
				else if (!s) p->AddPhysicsShape(); else if (e < 5 && g) s->CreateGeometryInstance(g, v & 8); else if (e < 7) s->CreateAnalyticalGeometry((FCDPhysicsAnalyticalGeometry::GeomType) ((v / 8) % 7)); else s->AddTransform(FCDTransform::TRANSLATION);
			}
			else if (kind == "instance" || kind == "material instance" || kind == "physics model instance") { auto* i = (FCDEntityInstance*) o; { const char* k = i->GetEntityType() == FCDEntity::CAMERA ? "camera" : i->GetEntityType() == FCDEntity::LIGHT ? "light" : i->GetEntityType() == FCDEntity::GEOMETRY ? "geometry" : i->GetEntityType() == FCDEntity::CONTROLLER ? "controller" : i->GetEntityType() == FCDEntity::MATERIAL ? "material" : "none"; FCDEntity* t = (FCDEntity*) pick(all(k)); if (e < 2) i->SetEntity(nullptr); if (t) i->SetEntity(t); } }
			else if (kind == "texture") { auto* t = (FCDTexture*) o; auto* im = (FCDImage*) pick(all("image")); if (e < 3) t->SetImage(im); else if (e < 4) t->SetImage(nullptr); else { t->SetSampler(nullptr); if (e > 5) t->GetSampler(); } }
			else if (kind == "pass") { auto* p = (FCDEffectPass*) o; if (e < 3) p->AddVertexShader(); else if (e < 6) p->AddFragmentShader(); else { auto* st = p->AddRenderState((FUDaePassState::State) ((v / 8) % FUDaePassState::COUNT)); if (st) st->SetDefaultValue(); } }
			else if (kind == "effect") { auto* x = (FCDEffect*) o; auto* p = x->AddProfile(e < 4 ? FUDaeProfileType::COMMON : FUDaeProfileType::CG); did = p != nullptr; }
			else if (kind == "extra type") { auto* t = (FCDEType*) o; FCDETechnique* q = t->AddTechnique(e < 4 && t->GetTechniqueCount() ? t->GetTechnique(0)->GetProfile() : "REDONE"); if (!q) violate("not-set", "an extra type gave no technique"); q->AddParameter("redone", (float) f); }
			else if (kind == "extra node") { auto* x = (FCDENode*) o; if (e < 2) { x->AddAttribute("redone", f); x->AddAttribute("redone", FC("2")); } else if (e < 5) { x->GetAnimated(); x->SetAnimated(nullptr); x->SetAnimated(new FCDAnimatedCustom(d)); } else if (e < 6) x->SetContent(FC("1 2")); else if (x->GetChildNodeCount() == 0) x->AddChildNode("redone")->SetContent(FC("x")); }
			else if (kind == "curve") { auto* c = (FCDAnimationCurve*) o; size_t at; if (e < 3) { c->AddKey((FUDaeInterpolation::Interpolation) (v / 8 % 4), f, at); } else if (e < 5 && c->GetKeyCount()) c->DeleteKey(c->GetKey((size_t) (v / 8) % c->GetKeyCount())); else if (e < 6) c->SetKeyCount((size_t) (v / 8) % 5, FUDaeInterpolation::LINEAR); else { auto* cl = (FCDAnimationClip*) pick(all("animation clip")); if (cl) cl->AddClipCurve(c); } for (size_t k = 0; k < c->GetKeyCount(); ++k) if (!c->GetKey(k)) violate("not-set", "a curve has an empty key"); if (c->GetKeyCount()) c->Evaluate(f); }
			else if (kind == "animated") { auto* t = (FCDTransform*) o; FCDAnimated* a = t->GetAnimated(); auto* c = (FCDAnimationCurve*) pick(all("curve")); if (a && a->GetValueCount()) { size_t x = (size_t) (v / 8) % a->GetValueCount(); if (e < 3) a->RemoveCurve(x); if (c) a->AddCurve(x, c); } }
			else if (kind == "camera") { auto* c = (FCDCamera*) o; auto* nd = (FCDSceneNode*) pick(all("node")); c->SetTargetNode(e < 2 ? nullptr : nd); }
			else if (kind == "polygons")
			{
				auto* p = (FCDGeometryPolygons*) o; FCDGeometryMesh* m = p->GetParent();
				if (e < 2 && p->GetFaceCount()) p->RemoveFace((size_t) (v / 8) % p->GetFaceCount()); else if (e < 3) p->AddFace(3); else if (e < 4) { auto* so = m->AddSource(FUDaeGeometryInput::TEXCOORD); p->AddInput(so, e); so->SetStride(2); so->SetDataCount(8); } else if (e < 5) m->AddVertexSource(FUDaeGeometryInput::COLOR); else if (e < 6 && m->GetSourceCount()) { auto* so = m->GetSource((size_t) (v / 8) % m->GetSourceCount()); m->RemoveVertexSource(so); m->AddVertexSource(so); } else if (e < 7) m->AddPolygons(); else p->SetFaceVertexCountCount(p->GetFaceVertexCountCount()); m->Recalculate();
			}
			else if (kind == "node") { auto* x = (FCDSceneNode*) o; auto* y = (FCDSceneNode*) pick(all("node")); if (e < 3 && y && y != x) x->AddChildNode(y); else if (e < 5 && x->GetChildrenCount() && x->GetChild(0)->GetParentCount() > 1) x->RemoveChildNode(x->GetChild(0)); else if (e < 6) x->AddTransform((FCDTransform::Type) (v / 8 % 6), 0); else x->SetSubId("redone"); }
			else if (kind == "physics inner instance") { auto* i = (FCDEntityInstance*) o; auto* b = (FCDPhysicsRigidBody*) pick(all("rigid body")); if (b && i->HasType(FCDPhysicsRigidBodyInstance::GetClassType())) { auto* q = (FCDPhysicsRigidBodyInstance*) i; q->SetRigidBody(b); q->SetTargetNode((FCDSceneNode*) pick(all("node"))); if (e < 3) q->GetParameters()->AddOwnPhysicsMaterial(); } }
			else if (kind == "rigid constraint") { auto* c = (FCDPhysicsRigidConstraint*) o; auto* b = (FCDPhysicsRigidBody*) pick(all("rigid body")); auto* nd = (FCDSceneNode*) pick(all("node")); if (e < 2) c->SetReferenceRigidBody(b); else if (e < 4) c->SetReferenceNode(nd); else if (e < 6) c->SetTargetRigidBody(b); else c->SetTargetNode(nd); }
			else if (kind == "shader") { auto* s = (FCDEffectPassShader*) o; s->AddBinding(); s->SetCode((FCDEffectCode*) pick(all("effect code"))); }
			else if (kind == "image") { auto* i = (FCDImage*) o; i->SetFilename(e < 4 ? FC("redone.png") : FC("")); }
			else if (kind == "source") { auto* s = (FCDGeometrySource*) o; s->GetSourceData().GetDataList(); FloatList l; for (int64_t k = 0; k < (v % 13); ++k) l.push_back(f + (float) k); if (s->GetStride()) { if (e < 4) s->SetValueCount(s->GetValueCount() + 1); else if (e < 6 && s->GetStride() == 3) { while (l.size() % 3) l.push_back(0); s->SetData(l, 3); } } }
			else if (kind == "morph target") { auto* t = (FCDMorphTarget*) o; t->SetWeight(f); if (auto* g = (FCDGeometry*) pick(all("geometry"))) t->SetGeometry(g); }
			if (did) probe(("redone: " + kind).c_str()); Walk a; a.document(d);
		}
		void closeDoc(int64_t d)
		{
			d &= 1; if (!doc[d]) return; Walk w; w.document(doc[d]); std::vector<std::pair<const char*, FUTrackedPtr<FUTrackable>*>> t;
			for (auto& i : w.items) t.push_back({i.kind, new FUTrackedPtr<FUTrackable>(i.o)});
			doc[d]->Release(); doc[d] = nullptr; trace("close");
			for (auto& i : t) { if (*i.second) violate("outlives-document", "a %s is still alive after its document was released", i.first); delete i.second; }
			if (doc[1 - d]) { Walk v; v.document(doc[1 - d]); }
		}
	};
	void runOnce(const Plan& plan, Session& s)
	{
		Docs m(s);
		for (auto& o : plan.ops)
		{
			int64_t d = o.arg(0) & 1; s.reset();
			if (o.name == "build") { Op b = o; b.a.erase(b.a.begin()); apply(m.get(d), b); trace(strf("build %d", (int) b.arg(0))); }
			else if (o.name == "release") m.releaseOne(m.get(d), o.arg(1));
			else if (o.name == "redo") m.redo(m.get(d), o.arg(1), o.arg(2));
			else if (o.name == "look") m.look(m.get(d));
			else if (o.name == "save") { if (o.arg(1) >= 0) disk::arm(disk::WRITE_ENOSPC, o.arg(1)); save(m.get(d), strf(SIMDIR "/r%d.dae", (int) d)); disk::disarm(); probe("saved after releases"); }
			else if (o.name == "reload")
			{
				save(m.get(d), SIMDIR "/t.dae"); if (o.arg(1) >= 0) disk::arm(disk::READ_EIO, o.arg(1)); bool ok = false; FCDocument* n = loadNew(SIMDIR "/t.dae", ok); disk::disarm();
				if (n && o.arg(2)) { m.closeDoc(d); m.doc[d] = n; } else if (n) { Walk w; w.document(n); n->Release(); } probe(ok ? "reloaded after releases" : "reload failed");
			}
			else if (o.name == "time") m.get(d)->SetCurrentTime((float) o.arg(1) / 16.0f);
			else if (o.name == "cross")
			{
				FCDocument* a = m.get(d); FCDocument* b = m.get(1 - d); if (!b->GetLightLibrary()->GetEntityCount()) b->GetLightLibrary()->AddEntity(); FCDSceneNode* r = a->GetVisualSceneInstance(); if (!r) r = a->AddVisualScene();
				if (b->GetFileUrl().empty()) save(b, strf(SIMDIR "/r%d.dae", (int) (1 - d)));
				r->AddChildNode()->AddInstance(b->GetLightLibrary()->GetEntity((size_t) o.arg(1) % b->GetLightLibrary()->GetEntityCount())); probe("linked across documents");
			}
			else if (o.name == "clone")
			{
				Walk w; w.document(m.get(d)); std::vector<FCDEntity*> c; for (auto& i : w.items) { S k = i.kind; if (k == "camera" || k == "light" || k == "image" || k == "material" || k == "effect" || k == "geometry" || k == "controller" || k == "node" || k == "physics material" || k == "animation" || k == "emitter" || k == "force field") c.push_back((FCDEntity*) i.o); }
				if (c.empty()) continue; FCDEntity* e = c[(size_t) o.arg(1) % c.size()]->Clone(nullptr, o.arg(1) % 3 == 0); if (e) { probe("clone released"); e->Release(); }
			}
			else if (o.name == "closedoc") m.closeDoc(d);
			else if (o.name == "drain") { Rng r((uint64_t) o.arg(1)); for (int i = 0; i < 400 && m.doc[d]; ++i) { Walk w; w.document(m.doc[d]); if (w.items.empty()) break; m.releaseOne(m.doc[d], (int64_t) r.below(1 << 30)); } probe("drained"); }
		}
		m.closeDoc(0); m.closeDoc(1);
		if (FCollada::GetTopDocumentCount()) violate("top-documents", "%zu documents are still open", FCollada::GetTopDocumentCount());
	}
	void runRelease(const Plan& plan)
	{
		life([&]()
		{
			Session s; s.assertsAreFatal = false; int64_t n = 1; for (auto& o : plan.ops) if (o.name == "cycles") n = 5;
			std::vector<std::pair<int64_t, int64_t>> live;
			for (int64_t i = 0; i < n; ++i) { runOnce(plan, s); s.reset(); live.push_back({liveBlocks(), liveBytes()}); }
			if (n == 5) { probe("cycles compared"); if (live[4].first > live[3].first && live[3].first > live[2].first) { S by = keptBy([&]() { runOnce(plan, s); s.reset(); }); violate("memory-grows", "repeating the same work keeps %lld more blocks (%lld bytes) every time%s", (long long) (live[4].first - live[3].first), (long long) (live[4].second - live[3].second), by.c_str()); } }
			s.close();
		});
	}
	Reg r0("release", genRelease, runRelease);
}
