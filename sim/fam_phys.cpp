// Physics: description and construction.
#include "model.h"
#include "FCDocument/FCDForceField.h"
#include "FCDocument/FCDPhysicsAnalyticalGeometry.h"
#include "FCDocument/FCDPhysicsForceFieldInstance.h"
#include "FCDocument/FCDPhysicsModelInstance.h"
#include "FCDocument/FCDPhysicsRigidBody.h"
#include "FCDocument/FCDPhysicsRigidBodyInstance.h"
#include "FCDocument/FCDPhysicsRigidBodyParameters.h"
#include "FCDocument/FCDPhysicsRigidConstraint.h"
#include "FCDocument/FCDPhysicsRigidConstraintInstance.h"
#include "FCDocument/FCDPhysicsShape.h"
#include <cmath>
using namespace sim;
namespace model
{
	typedef FCDPhysicsAnalyticalGeometry AG;
	static S v3t(const FMVector3& v) { return strf("%.7g %.7g %.7g", v.x, v.y, v.z); }
	static void dumpMat(Dump& d, const S& p, const FCDPhysicsMaterial* m) { d.kv(p, strf("%.7g %.7g %.7g", m->GetStaticFriction(), m->GetDynamicFriction(), m->GetRestitution())); }
	static void dumpMatRef(Dump& d, const S& p, FCDPhysicsMaterial* m, bool owns, FCDocument* doc)
	{
		if (!m) { d.kv(p, "(none)"); return; }
		if (!owns) { d.kv(p, entityRef(m, doc)); return; }
		d.kv(p + ".name", m->GetName().c_str()); dumpMat(d, p + ".own", m); dumpExtra(d, p, ((const FCDEntity*) m)->GetExtra());
	}
	static void dumpAG(Dump& d, const S& p, AG* g)
	{
		auto r2 = [](const FMVector2& r) { return strf("%.7g %.7g", r.x, r.y); };
		switch (g->GetGeomType())
		{
		case AG::BOX: d.kv(p + ".box", v3t(((FCDPASBox*) g)->halfExtents)); break;
		case AG::PLANE: d.kv(p + ".plane", v3t(((FCDPASPlane*) g)->normal) + strf(" %.7g", ((FCDPASPlane*) g)->d)); break;
		case AG::SPHERE: d.kf(p + ".sphere", ((FCDPASSphere*) g)->radius); break;
		case AG::CYLINDER: d.kv(p + ".cylinder", strf("%.7g ", ((FCDPASCylinder*) g)->height) + r2(((FCDPASCylinder*) g)->radius)); break;
		case AG::CAPSULE: d.kv(p + ".capsule", strf("%.7g ", ((FCDPASCapsule*) g)->height) + r2(((FCDPASCapsule*) g)->radius)); break;
		case AG::TAPERED_CAPSULE: { auto* t = (FCDPASTaperedCapsule*) g; d.kv(p + ".tcapsule", strf("%.7g ", t->height) + r2(t->radius) + " " + r2(t->radius2)); break; }
		case AG::TAPERED_CYLINDER: { auto* t = (FCDPASTaperedCylinder*) g; d.kv(p + ".tcylinder", strf("%.7g ", t->height) + r2(t->radius) + " " + r2(t->radius2)); break; }
		default: d.kv(p, "unknown analytical geometry"); break;
		}
	}
	static void dumpParameters(Dump& d, const S& p, FCDPhysicsRigidBodyParameters* r, FCDocument* doc, int flags)
	{
		d.ki(p + ".dynamic", r->IsDynamic()); dumpParamAnim(d, p + ".dynamic", ((const FCDPhysicsRigidBodyParameters*) r)->GetDynamic());
		d.kf(p + ".mass", *r->GetMass()); dumpParamAnim(d, p + ".mass", ((const FCDPhysicsRigidBodyParameters*) r)->GetMass());
		d.kv(p + ".translate", v3t(*r->GetMassFrameTranslate())); dumpParamAnim(d, p + ".translate", ((const FCDPhysicsRigidBodyParameters*) r)->GetMassFrameTranslate());
		d.kv(p + ".rotate", v3t(r->GetMassFrameRotateAxis()) + strf(" %.7g", r->GetMassFrameRotateAngle())); dumpParamAnim(d, p + ".rotate", ((const FCDPhysicsRigidBodyParameters*) r)->GetMassFrameOrientation());
		d.ki(p + ".inertia", r->IsInertiaAccurate());
		if (r->IsInertiaAccurate()) { d.kv(p + ".inertia.v", v3t(*r->GetInertia())); dumpParamAnim(d, p + ".inertia.v", ((const FCDPhysicsRigidBodyParameters*) r)->GetInertia()); }
		dumpMatRef(d, p + ".material", r->GetPhysicsMaterial(), r->OwnsPhysicsMaterial(), doc);
		for (size_t i = 0; i < r->GetPhysicsShapeCount(); ++i)
		{
			FCDPhysicsShape* s = r->GetPhysicsShape(i); S q = p + strf(".shape[%zu]", i);
			d.ki(q + ".hollow", s->IsHollow());
			d.ki(q + ".usesdensity", s->IsDensityMoreAccurate());
			if (!s->IsDensityMoreAccurate()) d.kf(q + ".mass", s->GetMass());
			if (s->GetDensityPointer())
			{
				float volume = s->CalculateVolume(), implied = s->GetMass() / volume; if (!s->GetAnalyticalGeometry() || !(volume > 1e-2f && volume < 1e10f)) implied = NAN; // ill-conditioned
				if (s->IsDensityMoreAccurate() || (std::isfinite(implied) && !(std::fabs(implied - s->GetDensity()) <= 1e-4 * std::fabs(implied) + 2e-7))) d.kf(q + ".density", s->GetDensity());
			}
			if (s->OwnsPhysicsMaterial()) dumpMatRef(d, q + ".material", s->GetPhysicsMaterial(), true, doc);
			else if (s->GetInstanceMaterial()) d.kv(q + ".material", entityRef(((const FCDEntityInstance*) s->GetInstanceMaterial())->GetEntity(), doc));
			else if (s->GetPhysicsMaterial()) d.kv(q + ".material", entityRef(s->GetPhysicsMaterial(), doc));
			if (s->GetGeometryInstance()) dumpInstance(d, q + ".geometry", s->GetGeometryInstance(), flags);
			if (s->GetAnalyticalGeometry()) dumpAG(d, q, s->GetAnalyticalGeometry());
			for (size_t k = 0; k < s->GetTransforms().size(); ++k) dumpTransform(d, q + strf(".transform[%zu]", k), s->GetTransforms()[k]);
		}
	}
	static void dumpModelInstance(Dump& d, const S& p, FCDPhysicsModelInstance* m, FCDocument* doc, int flags)
	{
		dumpInstance(d, p, m, flags);
		int nb = 0, nc = 0, nf = 0;
		for (size_t i = 0; i < m->GetInstanceCount(); ++i)
		{
			FCDEntityInstance* e = m->GetInstance(i);
			if (e->GetEntityType() == FCDEntity::FORCE_FIELD) dumpInstance(d, p + strf(".force[%d]", nf++), e, flags);
			else if (e->GetEntityType() == FCDEntity::PHYSICS_RIGID_BODY)
			{
				auto* b = (FCDPhysicsRigidBodyInstance*) e; S q = p + strf(".bodyinstance[%d]", nb++);
				d.kv(q + ".body", b->GetRigidBody() ? b->GetRigidBody()->GetSubId().c_str() : "(none)"); d.kv(q + ".target", b->GetTargetNode() ? b->GetTargetNode()->GetDaeId().c_str() : "(none)");
				d.kv(q + ".sid", e->GetWantedSubId().c_str()); d.kv(q + ".iname", e->GetName().c_str()); dumpExtra(d, q, ((const FCDEntityInstance*) e)->GetExtra());
				d.kv(q + ".velocity", v3t(*b->GetVelocity())); dumpParamAnim(d, q + ".velocity", ((const FCDPhysicsRigidBodyInstance*) b)->GetVelocity());
				d.kv(q + ".angular", v3t(*b->GetAngularVelocity())); dumpParamAnim(d, q + ".angular", ((const FCDPhysicsRigidBodyInstance*) b)->GetAngularVelocity());
				dumpParameters(d, q, b->GetParameters(), doc, flags);
			}
			else if (e->GetEntityType() == FCDEntity::PHYSICS_RIGID_CONSTRAINT)
			{
				auto* c = (FCDPhysicsRigidConstraintInstance*) e; S q = p + strf(".constraintinstance[%d]", nc++);
				d.kv(q + ".constraint", c->GetRigidConstraint() ? c->GetRigidConstraint()->GetSubId().c_str() : "(none)");
				d.kv(q + ".sid", e->GetWantedSubId().c_str()); d.kv(q + ".iname", e->GetName().c_str()); dumpExtra(d, q, ((const FCDEntityInstance*) e)->GetExtra());
			}
		}
	}
	void dumpPhysics(Dump& d, FCDocument* doc, int flags)
	{
		for (size_t i = 0; i < doc->GetPhysicsMaterialLibrary()->GetEntityCount(); ++i) { auto* m = doc->GetPhysicsMaterialLibrary()->GetEntity(i); S p = strf("physmaterial[%zu]", i); dumpEntity(d, p, m, flags); dumpMat(d, p + ".values", m); }
		for (size_t i = 0; i < doc->GetPhysicsModelLibrary()->GetEntityCount(); ++i)
		{
			FCDPhysicsModel* m = doc->GetPhysicsModelLibrary()->GetEntity(i); S p = strf("physmodel[%zu]", i); dumpEntity(d, p, m, flags);
			for (size_t k = 0; k < m->GetInstanceCount(); ++k) dumpModelInstance(d, p + strf(".instance[%zu]", k), m->GetInstance(k), doc, flags);
			for (size_t k = 0; k < m->GetRigidBodyCount(); ++k)
			{
				FCDPhysicsRigidBody* b = m->GetRigidBody(k); S q = p + strf(".body[%zu]", k);
				d.kv(q + ".subid", b->GetSubId().c_str()); d.kv(q + ".name", b->GetName().c_str()); dumpExtra(d, q, ((const FCDEntity*) b)->GetExtra()); dumpParameters(d, q, b->GetParameters(), doc, flags);
			}
			for (size_t k = 0; k < m->GetRigidConstraintCount(); ++k)
			{
				FCDPhysicsRigidConstraint* c = m->GetRigidConstraint(k); S q = p + strf(".constraint[%zu]", k);
				d.kv(q + ".subid", c->GetSubId().c_str()); d.kv(q + ".name", c->GetName().c_str()); dumpExtra(d, q, ((const FCDEntity*) c)->GetExtra());
				auto end = [&](const S& n, FCDPhysicsRigidBody* b, FCDSceneNode* s) { d.kv(q + n, b ? S("body ") + b->GetSubId().c_str() : s ? S("node ") + s->GetDaeId().c_str() : "(none)"); };
				end(".reference", c->GetReferenceRigidBody(), c->GetReferenceNode()); end(".target", c->GetTargetRigidBody(), c->GetTargetNode());
				for (size_t t = 0; t < c->GetTransformsRef().size(); ++t) dumpTransform(d, q + strf(".ref[%zu]", t), c->GetTransformsRef()[t]);
				for (size_t t = 0; t < c->GetTransformsTar().size(); ++t) dumpTransform(d, q + strf(".tar[%zu]", t), c->GetTransformsTar()[t]);
				d.ki(q + ".enabled", c->IsEnabled()); dumpParamAnim(d, q + ".enabled", ((const FCDPhysicsRigidConstraint*) c)->GetEnabled());
				d.ki(q + ".interpenetrate", c->IsInterpenetrate()); dumpParamAnim(d, q + ".interpenetrate", ((const FCDPhysicsRigidConstraint*) c)->GetInterpenetrate());
				d.kv(q + ".linear", v3t(*c->GetLimitsLinearMin()) + " to " + v3t(*c->GetLimitsLinearMax())); d.kv(q + ".cone", v3t(*c->GetLimitsSCTMin()) + " to " + v3t(*c->GetLimitsSCTMax()));
				d.kv(q + ".spring", strf("%.7g %.7g %.7g / %.7g %.7g %.7g", *c->GetSpringLinearStiffness(), *c->GetSpringLinearDamping(), *c->GetSpringLinearTargetValue(), *c->GetSpringAngularStiffness(), *c->GetSpringAngularDamping(), *c->GetSpringAngularTargetValue()));
			}
		}
		for (size_t i = 0; i < doc->GetPhysicsSceneLibrary()->GetEntityCount(); ++i)
		{
			FCDPhysicsScene* s = doc->GetPhysicsSceneLibrary()->GetEntity(i); S p = strf("physscene[%zu]", i); dumpEntity(d, p, s, flags);
			d.kv(p + ".gravity", v3t(s->GetGravity())); d.kf(p + ".timestep", s->GetTimestep());
			for (size_t k = 0; k < s->GetForceFieldInstancesCount(); ++k) dumpInstance(d, p + strf(".force[%zu]", k), s->GetForceFieldInstance(k), flags);
			for (size_t k = 0; k < s->GetPhysicsModelInstancesCount(); ++k) dumpModelInstance(d, p + strf(".model[%zu]", k), s->GetPhysicsModelInstance(k), doc, flags);
		}
	}

	// ---- construction -----------------------------------------------------------------------------------------
	static void fillMat(Build& b, FCDPhysicsMaterial* m) { m->SetStaticFriction(b.f()); m->SetDynamicFriction(b.f()); m->SetRestitution(b.unit01()); }
	static FCDPhysicsMaterial* anyMat(Build& b) { size_t n = b.doc->GetPhysicsMaterialLibrary()->GetEntityCount(); return n ? b.doc->GetPhysicsMaterialLibrary()->GetEntity(b.rng.below(n)) : nullptr; }
	static FCDSceneNode* anyNode(Build& b)
	{
		std::vector<FCDSceneNode*> all;
		for (size_t i = 0; i < b.doc->GetVisualSceneLibrary()->GetEntityCount(); ++i)
		{
			std::vector<FCDSceneNode*> todo; FCDSceneNode* root = b.doc->GetVisualSceneLibrary()->GetEntity(i);
			todo.push_back(root);
			while (!todo.empty() && all.size() < 200) { FCDSceneNode* n = todo.back(); todo.pop_back(); if (n != root) all.push_back(n); for (size_t k = 0; k < n->GetChildrenCount(); ++k) if (n->GetChild(k)->GetParent() == n) todo.push_back(n->GetChild(k)); }
		}
		return all.empty() ? nullptr : all[b.rng.below(all.size())];
	}
	static FCDGeometry* anySolid(Build& b)
	{
		std::vector<FCDGeometry*> ok;
		for (size_t i = 0; i < b.doc->GetGeometryLibrary()->GetEntityCount(); ++i)
		{
			FCDGeometry* g = b.doc->GetGeometryLibrary()->GetEntity(i); if (!g->IsMesh() || !g->GetMesh()->GetConvexHullOf().empty()) continue; bool good = true;
			for (size_t k = 0; k < g->GetMesh()->GetPolygonsCount(); ++k) { auto* in = g->GetMesh()->GetPolygons(k)->FindInput(FUDaeGeometryInput::POSITION); if (!in || !in->GetSource() || in->GetSource()->GetStride() != 3) good = false; }
			if (good) ok.push_back(g);
		}
		return ok.empty() ? nullptr : ok[b.rng.below(ok.size())];
	}
	static void fillRT(Build& b, FCDTransform* t)
	{
		if (t->GetType() == FCDTransform::TRANSLATION) ((FCDTTranslation*) t)->SetTranslation(b.v3());
		else { ((FCDTRotation*) t)->SetAxis(b.v3()); ((FCDTRotation*) t)->SetAngle((float) b.n(-180, 180)); }
	}
	static FCDTransform::Type rt(Build& b) { return b.yes() ? FCDTransform::TRANSLATION : FCDTransform::ROTATION; }
	static void buildShape(Build& b, FCDPhysicsShape* s)
	{
		s->SetHollow(b.yes());
		FCDGeometry* g = b.yes(0.3) ? anySolid(b) : nullptr;
		if (g) { FCDGeometryInstance* gi = s->CreateGeometryInstance(g); if (b.yes(0.3)) gi->SetName(fstring(b.text().c_str())); }
		else
		{
			AG* a = s->CreateAnalyticalGeometry((AG::GeomType) b.n(AG::BOX, AG::TAPERED_CYLINDER));
			auto r2 = [&] { float x = b.pos(), y = b.pos(); return FMVector2(x, y); };
			switch (a->GetGeomType())
			{
			case AG::BOX: { float x = b.pos(), y = b.pos(), z = b.pos(); ((FCDPASBox*) a)->halfExtents = FMVector3(x, y, z); break; }
			case AG::PLANE: ((FCDPASPlane*) a)->normal = b.v3(); ((FCDPASPlane*) a)->d = b.f(); break;
			case AG::SPHERE: ((FCDPASSphere*) a)->radius = b.pos(); break;
			case AG::CYLINDER: ((FCDPASCylinder*) a)->height = b.pos(); ((FCDPASCylinder*) a)->radius = r2(); break;
			case AG::CAPSULE: ((FCDPASCapsule*) a)->height = b.pos(); ((FCDPASCapsule*) a)->radius = r2(); break;
			case AG::TAPERED_CAPSULE: { auto* t = (FCDPASTaperedCapsule*) a; t->height = b.pos(); t->radius = r2(); t->radius2 = r2(); break; }
			case AG::TAPERED_CYLINDER: { auto* t = (FCDPASTaperedCylinder*) a; t->height = b.pos(); t->radius = r2(); t->radius2 = r2(); break; }
			default: break;
			}
		}
		int k = b.n(0, 2);
		if (k != 1) { s->SetMass(b.pos()); s->SetDensityMoreAccurate(false); }
		if (k != 0) { s->SetDensity(b.pos()); s->SetDensityMoreAccurate(k == 1); }
		int mk = b.n(0, 4); FCDPhysicsMaterial* m = anyMat(b); if (mk == 3 && m) s->SetPhysicsMaterial(m);
		if (mk == 1) { FCDPhysicsMaterial* own = s->AddOwnPhysicsMaterial(); own->SetName(fstring((S("m") + b.text()).c_str())); fillMat(b, own); if (b.yes(0.3)) buildExtra(b, own->GetExtra(), 1, true); }
		if (mk == 2 && m) { FCDEntityInstance* in = FCDEntityInstanceFactory::CreateInstance(b.doc, NULL, FCDEntity::PHYSICS_MATERIAL); in->SetEntity(m); s->SetInstanceMaterial(in); }
		int nt = b.yes(0.4) ? b.n(1, 3) : 0; for (int i = 0; i < nt; ++i) fillRT(b, s->AddTransform(rt(b)));
	}
	static void buildParameters(Build& b, FCDPhysicsRigidBodyParameters* r)
	{
		r->SetDynamic(b.yes()); maybeAnimate(b, r->GetDynamic(), 0.15, false);
		r->SetMass(b.pos()); maybeAnimate(b, r->GetMass(), 0.2, false);
		if (b.yes()) { r->SetMassFrameTranslate(b.v3()); maybeAnimate(b, r->GetMassFrameTranslate(), 0.2, false); }
		if (b.yes()) { r->SetMassFrameRotateAxis(b.v3()); r->SetMassFrameRotateAngle((float) b.n(-180, 180)); maybeAnimate(b, r->GetMassFrameOrientation(), 0.2, false); }
		if (b.yes(0.4)) { r->SetInertia(b.v3()); r->SetInertiaAccurate(true); maybeAnimate(b, r->GetInertia(), 0.2, false); }
		int mk = b.n(0, 2); FCDPhysicsMaterial* m = anyMat(b);
		if (mk == 1) { FCDPhysicsMaterial* own = r->AddOwnPhysicsMaterial(); own->SetName(fstring((S("m") + b.text()).c_str())); fillMat(b, own); }
		if (mk == 2 && m) r->SetPhysicsMaterial(m);
		int ns = b.n(1, 2); for (int i = 0; i < ns; ++i) buildShape(b, r->AddPhysicsShape());
	}
	static void fillModelInstance(Build& b, FCDPhysicsModelInstance* m, FCDPhysicsModel* model)
	{
		if (b.yes(0.2)) m->SetName(fstring(b.text().c_str()));
		if (b.yes(0.3)) buildExtra(b, m->GetExtra(), 1, false);
		FCDSceneNode* n = anyNode(b); int k = b.n(0, 2);
		for (int i = 0; i < k && n && model->GetRigidBodyCount(); ++i)
		{
			auto* bi = m->AddRigidBodyInstance(model->GetRigidBody(b.rng.below(model->GetRigidBodyCount()))); bi->SetTargetNode(n); n = anyNode(b);
			if (b.yes()) bi->SetVelocity(b.v3()); if (b.yes()) bi->SetAngularVelocity(b.v3());
			maybeAnimate(b, bi->GetVelocity(), 0.2, false); maybeAnimate(b, bi->GetAngularVelocity(), 0.2, false);
			if (b.yes(0.3)) buildExtra(b, bi->GetExtra(), 1, false);
			buildParameters(b, bi->GetParameters());
		}
		if (model->GetRigidConstraintCount() && b.yes(0.5)) { auto* ci = m->AddRigidConstraintInstance(model->GetRigidConstraint(b.rng.below(model->GetRigidConstraintCount()))); if (b.yes(0.3)) buildExtra(b, ci->GetExtra(), 1, false); }
		size_t nf = b.doc->GetForceFieldLibrary()->GetEntityCount();
		if (nf && b.yes(0.4)) m->AddForceFieldInstance(b.doc->GetForceFieldLibrary()->GetEntity(b.rng.below(nf)));
	}
	void buildPhysics(Build& b)
	{
		int k = b.n(0, 1 + b.size);
		for (int i = 0; i < k; ++i) { FCDPhysicsMaterial* m = b.doc->GetPhysicsMaterialLibrary()->AddEntity(); buildEntityCommon(b, m); fillMat(b, m); }
		k = b.n(1, b.size);
		for (int i = 0; i < k; ++i)
		{
			FCDPhysicsModel* m = b.doc->GetPhysicsModelLibrary()->AddEntity(); buildEntityCommon(b, m);
			int nb = b.n(0, 1 + b.size);
			for (int x = 0; x < nb; ++x) { FCDPhysicsRigidBody* r = m->AddRigidBody(); r->SetSubId((S("body") + b.word()).c_str()); if (b.yes()) r->SetName(fstring(b.text().c_str())); if (b.yes(0.2)) buildExtra(b, r->GetExtra(), 1); buildParameters(b, r->GetParameters()); }
			int nc = b.n(0, 2);
			for (int x = 0; x < nc; ++x)
			{
				FCDPhysicsRigidConstraint* c = m->AddRigidConstraint(); c->SetSubId((S("joint") + b.word()).c_str()); if (b.yes(0.3)) c->SetName(fstring(b.text().c_str())); if (b.yes(0.2)) buildExtra(b, c->GetExtra(), 1);
				FCDSceneNode* n = anyNode(b);
				if (m->GetRigidBodyCount() && b.yes(0.7)) c->SetReferenceRigidBody(m->GetRigidBody(b.rng.below(m->GetRigidBodyCount()))); else if (n) c->SetReferenceNode(n);
				n = anyNode(b);
				if (m->GetRigidBodyCount() && b.yes(0.7)) c->SetTargetRigidBody(m->GetRigidBody(b.rng.below(m->GetRigidBodyCount()))); else if (n) c->SetTargetNode(n);
				int nt = b.n(0, 3); for (int t = 0; t < nt; ++t) fillRT(b, c->AddTransformRef(rt(b)));
				nt = b.n(0, 3); for (int t = 0; t < nt; ++t) fillRT(b, c->AddTransformTar(rt(b)));
				if (b.yes(0.3)) c->SetEnabled(b.yes()); if (b.yes(0.3)) c->SetInterpenetrate(b.yes());
				maybeAnimate(b, c->GetEnabled(), 0.15, false); maybeAnimate(b, c->GetInterpenetrate(), 0.15, false);
				if (b.yes()) { c->SetLimitsLinearMin(b.v3()); c->SetLimitsLinearMax(b.v3()); } if (b.yes()) { c->SetLimitsSCTMin(b.v3()); c->SetLimitsSCTMax(b.v3()); }
				if (b.yes()) { c->SetSpringLinearStiffness(b.f()); c->SetSpringLinearDamping(b.f()); c->SetSpringLinearTargetValue(b.f()); }
				if (b.yes()) { c->SetSpringAngularStiffness(b.f()); c->SetSpringAngularDamping(b.f()); c->SetSpringAngularTargetValue(b.f()); }
			}
			size_t nm = b.doc->GetPhysicsModelLibrary()->GetEntityCount() - 1; int ni = nm ? b.n(0, 3) : 0;
			for (int x = 0; x < ni; ++x) { FCDPhysicsModel* o = b.doc->GetPhysicsModelLibrary()->GetEntity(b.rng.below(nm)); fillModelInstance(b, m->AddPhysicsModelInstance(o), o); }
		}
		if (b.yes(0.7))
		{
			FCDPhysicsScene* s = b.doc->GetPhysicsSceneLibrary()->AddEntity(); buildEntityCommon(b, s);
			if (b.yes()) s->SetGravity(b.v3()); if (b.yes()) s->SetTimestep(b.pos());
			size_t nf = b.doc->GetForceFieldLibrary()->GetEntityCount(); if (nf && b.yes(0.4)) s->AddForceFieldInstance(b.doc->GetForceFieldLibrary()->GetEntity(b.rng.below(nf)));
			size_t nm = b.doc->GetPhysicsModelLibrary()->GetEntityCount(); int ni = b.n(0, 2);
			for (int x = 0; x < ni; ++x) { FCDPhysicsModel* o = b.doc->GetPhysicsModelLibrary()->GetEntity(b.rng.below(nm)); fillModelInstance(b, s->AddPhysicsModelInstance(o), o); }
			if (b.yes(0.6)) b.doc->AddPhysicsSceneInstance(s);
		}
	}
}
