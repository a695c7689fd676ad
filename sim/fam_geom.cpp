// Geometries: meshes, convex hulls, splines. Controllers: skins and morphs.
#include "model.h"
#include "FUtils/FUDaeEnum.h"
#include <functional>
#include <set>
namespace model
{
	using namespace sim;
	static void dumpPolygons(Dump& d, const S& p, FCDGeometryPolygons* ps)
	{
		d.ki(p + ".type", ps->GetPrimitiveType()); d.kv(p + ".material", ps->GetMaterialSemantic().c_str());
		S v; for (size_t i = 0; i < ps->GetFaceVertexCountCount(); ++i) v += strf("%u ", ps->GetFaceVertexCounts()[i]); d.kv(p + ".faces", v);
		v.clear(); for (size_t i = 0; i < ps->GetHoleFaceCount(); ++i) v += strf("%u ", ps->GetHoleFaces()[i]); d.kv(p + ".holes", v);
		d.kv(p + ".totals", strf("faces %zu vertices %zu holes %zu; before: faces %zu vertices %zu holes %zu", ps->GetFaceCount(), ps->GetFaceVertexCount(), ps->GetHoleCount(), ps->GetFaceOffset(), ps->GetFaceVertexOffset(), ps->GetHoleOffset()));
		d.ki(p + ".inputs", (long long) ps->GetInputCount());
		for (size_t i = 0; i < ps->GetInputCount(); ++i)
		{
			FCDGeometryPolygonsInput* in = ps->GetInput(i);
			S q = p + ".input<" + (in->GetSource() ? in->GetSource()->GetDaeId().c_str() : "(none)") + ">";
			d.ki(q + ".semantic", in->GetSource() ? (int) in->GetSemantic() : -1); d.ki(q + ".set", in->GetSet()); d.ki(q + ".offset", in->GetOffset());
			S ix; for (size_t k = 0; k < in->GetIndexCount(); ++k) ix += strf("%u ", in->GetIndices()[k]); d.kv(q + ".indices", ix);
		}
		dumpExtra(d, p, ((const FCDGeometryPolygons*) ps)->GetExtra());
	}
	static void dumpMesh(Dump& d, const S& p, FCDGeometryMesh* m)
	{
		// A hull of another mesh keeps only the name of that mesh: its own data is made from the other's on loading.
		if (m->IsConvex() && !m->GetConvexHullOf().empty()) { d.kv(p + ".hullof", m->GetConvexHullOf().c_str()); return; }
		d.ki(p + ".sources", (long long) m->GetSourceCount());
		for (size_t i = 0; i < m->GetSourceCount(); ++i)
		{
			FCDGeometrySource* s = m->GetSource(i); S q = p + strf(".source[%zu]", i);
			d.kv(q + ".id", s->GetDaeId().c_str()); d.kv(q + ".name", s->GetName().c_str()); d.ki(q + ".type", s->GetType()); d.ki(q + ".stride", s->GetStride());
			d.floats(q + ".data", s->GetData(), s->GetDataCount());
			d.ki(q + ".vertexsource", m->IsVertexSource(s) ? 1 : 0);
			for (size_t k = 0; k < s->GetDataCount(); ++k) if (s->GetSourceData().IsAnimated(k)) dumpAnimated(d, q + strf(".value[%zu]", k), ((const FCDGeometrySource*) s)->GetSourceData().GetAnimated(k));
			dumpExtra(d, q, ((const FCDGeometrySource*) s)->GetExtra());
		}
		d.ki(p + ".vertexsources", (long long) m->GetVertexSourceCount());
		for (size_t i = 0; i < m->GetVertexSourceCount(); ++i) d.kv(p + strf(".vertexsource[%zu]", i), m->GetVertexSource(i)->GetDaeId().c_str());
		d.ki(p + ".polygons", (long long) m->GetPolygonsCount());
		for (size_t i = 0; i < m->GetPolygonsCount(); ++i) dumpPolygons(d, p + strf(".polygons[%zu]", i), m->GetPolygons(i));
		d.kv(p + ".totals", strf("faces %zu vertices %zu holes %zu", m->GetFaceCount(), m->GetFaceVertexCount(), m->GetHoleCount()));
	}
	static void dumpSpline(Dump& d, const S& p, FCDGeometrySpline* s)
	{
		d.ki(p + ".type", s->GetType()); d.ki(p + ".count", (long long) s->GetSplineCount());
		for (size_t i = 0; i < s->GetSplineCount(); ++i)
		{
			FCDSpline* c = s->GetSpline(i); S q = p + strf(".curve[%zu]", i);
			d.ki(q + ".type", c->GetSplineType()); d.ki(q + ".closed", c->IsClosed() ? 1 : 0); d.ki(q + ".cvs", (long long) c->GetCVCount());
			for (size_t k = 0; k < c->GetCVCount(); ++k) d.floats(q + strf(".cv[%zu]", k), &c->GetCV(k)->x, 3);
			if (c->GetSplineType() == FUDaeSplineType::NURBS)
			{
				FCDNURBSSpline* n = (FCDNURBSSpline*) c; d.ki(q + ".degree", n->GetDegree());
				d.floats(q + ".weights", n->GetWeights().begin(), n->GetWeights().size()); d.floats(q + ".knots", n->GetKnots().begin(), n->GetKnots().size());
			}
		}
	}
	void dumpGeometries(Dump& d, FCDocument* doc, int flags)
	{
		FCDGeometryLibrary* lib = doc->GetGeometryLibrary();
		d.ki("geometries.count", (long long) lib->GetEntityCount());
		for (size_t i = 0; i < lib->GetEntityCount(); ++i)
		{
			FCDGeometry* g = lib->GetEntity(i); S p = strf("geometry[%zu]", i); dumpEntity(d, p, g, flags);
			d.kv(p + ".kind", g->IsMesh() ? "mesh" : g->IsSpline() ? "spline" : "empty");
			if (g->IsMesh()) dumpMesh(d, p + ".mesh", g->GetMesh());
			if (g->IsSpline()) dumpSpline(d, p + ".spline", g->GetSpline());
		}
	}
	void dumpControllers(Dump& d, FCDocument* doc, int flags)
	{
		FCDControllerLibrary* lib = doc->GetControllerLibrary();
		d.ki("controllers.count", (long long) lib->GetEntityCount());
		for (size_t i = 0; i < lib->GetEntityCount(); ++i)
		{
			FCDController* c = lib->GetEntity(i); S p = strf("controller[%zu]", i); dumpEntity(d, p, c, flags);
			d.kv(p + ".kind", c->IsSkin() ? "skin" : c->IsMorph() ? "morph" : "empty");
			if (c->IsSkin())
			{
				FCDSkinController* s = c->GetSkinController(); S q = p + ".skin";
				d.kv(q + ".target", entityRef(s->GetTarget(), doc)); d.floats(q + ".bindshape", &((FMMatrix44&) s->GetBindShapeTransform()).m[0][0], 16);
				d.ki(q + ".joints", (long long) s->GetJointCount());
				for (size_t j = 0; j < s->GetJointCount(); ++j)
				{
					d.kv(q + strf(".joint[%zu].id", j), s->GetJoint(j)->GetId().c_str()); d.floats(q + strf(".joint[%zu].bind", j), &((FMMatrix44&) s->GetJoint(j)->GetBindPoseInverse()).m[0][0], 16);
				}
				d.ki(q + ".influences", (long long) s->GetInfluenceCount());
				for (size_t v = 0; v < s->GetInfluenceCount(); ++v)
				{
					S o; FCDSkinControllerVertex* iv = s->GetVertexInfluence(v);
					for (size_t k = 0; k < iv->GetPairCount(); ++k) o += strf("%d %.9g  ", iv->GetPair(k)->jointIndex, iv->GetPair(k)->weight);
					d.kv(q + strf(".influence[%zu]", v), o);
				}
			}
			if (c->IsMorph())
			{
				FCDMorphController* m = c->GetMorphController(); S q = p + ".morph";
				d.kv(q + ".base", entityRef(m->GetBaseTarget(), doc)); d.ki(q + ".method", m->GetMethod()); d.ki(q + ".targets", (long long) m->GetTargetCount());
				for (size_t t = 0; t < m->GetTargetCount(); ++t)
				{
					FCDMorphTarget* mt = m->GetTarget(t); S r = q + strf(".target[%zu]", t);
					d.kv(r + ".geometry", entityRef(mt->GetGeometry(), doc)); d.kf(r + ".weight", *mt->GetWeight()); dumpParamAnim(d, r + ".weight", ((const FCDMorphTarget*) mt)->GetWeight());
				}
			}
		}
	}
	// =============================================================================================
	static FCDGeometrySource* newSource(Build& b, FCDGeometryMesh* m, FUDaeGeometryInput::Semantic type, bool vertex, size_t count)
	{
		FCDGeometrySource* s = vertex ? m->AddVertexSource(type) : m->AddSource(type);
		s->SetDaeId(fm::string((S("src-") + b.word()).c_str())); if (b.yes(0.4)) s->SetName(b.text().c_str());
		uint32 stride = type == FUDaeGeometryInput::POSITION || type == FUDaeGeometryInput::NORMAL ? 3 : (uint32) b.n(2, type == FUDaeGeometryInput::COLOR ? 4 : 3);
		if (type == FUDaeGeometryInput::COLOR && stride < 3) stride = 3;
		FloatList data; for (size_t i = 0; i < count * stride; ++i) data.push_back(b.wide && type != FUDaeGeometryInput::POSITION && b.yes(0.01) ? (b.yes(0.5) ? 1.0f : -1.0f) * std::numeric_limits<float>::infinity() : b.f());
		s->SetData(data, stride);
		if (b.yes(0.15)) buildExtra(b, s->GetExtra(), 1, false);
		return s;
	}
	static void buildMesh(Build& b, FCDGeometry* g)
	{
		FCDGeometryMesh* m = g->CreateMesh();
		size_t nv = (size_t) b.n(3, 9);
		FCDGeometrySource* pos = newSource(b, m, FUDaeGeometryInput::POSITION, true, nv);
		static const FUDaeGeometryInput::Semantic extra[] = {FUDaeGeometryInput::NORMAL, FUDaeGeometryInput::COLOR, FUDaeGeometryInput::TEXCOORD, FUDaeGeometryInput::UV, FUDaeGeometryInput::GEOTANGENT, FUDaeGeometryInput::GEOBINORMAL, FUDaeGeometryInput::TEXTANGENT, FUDaeGeometryInput::TEXBINORMAL};
		std::vector<FCDGeometrySource*> own;   // per-face-vertex sources
		std::map<FCDGeometrySource*, size_t> counts; counts[pos] = nv; std::vector<std::pair<FCDGeometrySource*, int>> vset;
		int more = b.n(0, 3);
		for (int i = 0; i < more; ++i)
		{
			FUDaeGeometryInput::Semantic t = extra[b.n(0, 7)];
			if (b.yes(0.3)) { FCDGeometrySource* s = newSource(b, m, t, true, nv); counts[s] = nv; }
			else { size_t n = (size_t) b.n(2, 6); FCDGeometrySource* s = newSource(b, m, t, false, n); counts[s] = n; own.push_back(s); }
		}
		for (size_t i = 0; i < m->GetVertexSourceCount(); ++i) if (b.yes(0.3)) vset.push_back({m->GetVertexSource(i), b.n(0, 4)});
		int sets = b.n(1, 3);
		for (int k = 0; k < sets; ++k)
		{
			FCDGeometryPolygons* ps = m->AddPolygons();
			int prim = b.yes(0.6) ? FCDGeometryPolygons::POLYGONS : b.n(0, 5); ps->SetPrimitiveType((FCDGeometryPolygons::PrimitiveType) prim);
			if (b.yes(0.8)) ps->SetMaterialSemantic(b.word().c_str());
			for (auto& v : vset) ps->FindInput(v.first)->SetSet(v.second);
			uint32 top = 0; std::map<uint32, size_t> limit; limit[0] = nv;
			std::vector<FCDGeometryPolygonsInput*> masters; masters.push_back(ps->FindInput(pos));
			for (auto* s : own)
			{
				if (k > 0 && b.yes(0.3)) continue;
				bool share = top > 0 && b.yes(0.3); uint32 off = share ? (uint32) b.n(0, (int) top) : ++top;
				if (top == 1 && !share && k % 2 == 1 && limit.size() == 1 && b.yes(0.5))
				{
					// The vertices come second.
					off = 0; for (size_t v = 0; v < m->GetVertexSourceCount(); ++v) ps->FindInput(m->GetVertexSource(v))->SetOffset(1);
					limit[1] = limit[0]; limit.erase(0); trace("vertices second");
				}
				FCDGeometryPolygonsInput* in = ps->AddInput(s, off);
				if (!limit.count(off)) { limit[off] = counts[s]; masters.push_back(in); } else limit[off] = std::min(limit[off], counts[s]);
				if (b.yes(0.6)) in->SetSet(b.n(0, 5));
			}
			int faces = prim == FCDGeometryPolygons::POLYGONS ? b.n(1, 4) : prim == FCDGeometryPolygons::LINES ? b.n(1, 2) : b.n(1, 3);
			bool tri = b.yes(0.3); bool byAddFace = b.yes(0.3);
			uint32 total = 0; std::vector<uint32> counts2;
			for (int f = 0; f < faces; ++f)
			{
				uint32 deg = prim == FCDGeometryPolygons::LINES ? 2 * (uint32) b.n(1, 3) : tri && prim == FCDGeometryPolygons::POLYGONS ? 3 : (uint32) b.n(3, (int) nv);
				if (byAddFace) ps->AddFace(deg); else ps->AddFaceVertexCount(deg);
				total += deg;
				if (prim == FCDGeometryPolygons::POLYGONS && !byAddFace && b.yes(0.15))
				{
					int holes = b.n(1, 2);
					for (int h = 0; h < holes; ++h) { ps->AddHole((uint32) ps->GetFaceVertexCountCount()); ps->AddFaceVertexCount(3); total += 3; }
				}
			}
			for (auto* in : masters)
			{
				UInt32List ix; for (uint32 i = 0; i < total; ++i) ix.push_back((uint32) b.rng.below(limit[in->GetOffset()]));
				if (byAddFace) { for (uint32 i = 0; i < total; ++i) in->GetIndices()[i] = ix[i]; }
				else if (b.yes()) in->SetIndices(ix.begin(), ix.size()); else in->AddIndices(ix);
			}
			if (ps->GetFaceCount() > 1 && b.yes(0.2)) { trace("removeface"); ps->RemoveFace(b.rng.below(ps->GetFaceCount())); }
			if (b.yes(0.2)) buildExtra(b, ps->GetExtra(), 1);
		}
		m->Recalculate();
		if (b.anims && b.yes(0.4)) { size_t at = b.rng.below(pos->GetDataCount()); animate(b, pos->GetSourceData().GetAnimated(at), false); }
	}
	void buildGeometry(Build& b)
	{
		for (int i = b.n(1, b.size); i > 0; --i)
		{
			FCDGeometryLibrary* lib = b.doc->GetGeometryLibrary(); FCDGeometry* g = lib->AddEntity(); buildEntityCommon(b, g);
			FCDGeometry* other = nullptr;
			if (lib->GetEntityCount() > 1 && b.yes(0.15)) { other = lib->GetEntity(b.rng.below(lib->GetEntityCount() - 1)); if (!other->IsMesh() || !other->GetMesh()->GetConvexHullOf().empty()) other = nullptr; }
			if (other) { FCDGeometryMesh* m = g->CreateMesh(); m->SetConvex(true); m->SetConvexHullOf(other); trace("hull"); }
			else buildMesh(b, g);
		}
	}
	void buildSpline(Build& b)
	{
		for (int i = b.n(1, b.size); i > 0; --i)
		{
			FCDGeometry* g = b.doc->GetGeometryLibrary()->AddEntity(); buildEntityCommon(b, g);
			FCDGeometrySpline* s = g->CreateSpline(); static const FUDaeSplineType::Type ty[] = {FUDaeSplineType::LINEAR, FUDaeSplineType::BEZIER, FUDaeSplineType::NURBS};
			FUDaeSplineType::Type t = ty[b.n(0, 2)]; s->SetType(t);
			for (int k = b.n(1, 3); k > 0; --k)
			{
				FCDSpline* c = s->AddSpline(t); c->SetClosed(b.yes(0.4)); int n = b.n(2, 5);
				if (t == FUDaeSplineType::NURBS)
				{
					FCDNURBSSpline* u = (FCDNURBSSpline*) c; int deg = b.n(1, 3); u->SetDegree((uint32) deg);
					for (int j = 0; j < n; ++j) u->AddCV(b.v3(), b.pos());
					for (int j = 0; j < n + deg + 1; ++j) u->AddKnot((float) j / 4.0f);
				}
				else for (int j = 0; j < n; ++j) c->GetCVs().push_back(b.v3());
			}
		}
	}
	static FMMatrix44 matrix(Build& b) { FMMatrix44 m = FMMatrix44::Identity; for (int r = 0; r < 4; ++r) for (int c = 0; c < 3; ++c) m.m[r][c] = b.f(); return m; }
	void buildController(Build& b)
	{
		FCDGeometryLibrary* gl = b.doc->GetGeometryLibrary(); FCDControllerLibrary* cl = b.doc->GetControllerLibrary();
		std::vector<FCDGeometry*> meshes; for (size_t i = 0; i < gl->GetEntityCount(); ++i) if (gl->GetEntity(i)->IsMesh() && gl->GetEntity(i)->GetMesh()->GetConvexHullOf().empty()) meshes.push_back(gl->GetEntity(i));
		if (meshes.empty()) { buildGeometry(b); for (size_t i = 0; i < gl->GetEntityCount(); ++i) if (gl->GetEntity(i)->IsMesh() && gl->GetEntity(i)->GetMesh()->GetConvexHullOf().empty()) meshes.push_back(gl->GetEntity(i)); }
		if (meshes.empty()) return;
		for (int i = b.n(1, b.size); i > 0; --i)
		{
			FCDController* c = cl->AddEntity(); buildEntityCommon(b, c);
			FCDEntity* base = meshes[b.rng.below(meshes.size())];
			if (cl->GetEntityCount() > 1 && b.yes(0.25)) { base = cl->GetEntity(b.rng.below(cl->GetEntityCount() - 1)); trace("chain"); }
			if (b.yes(0.6))
			{
				FCDSkinController* s = c->CreateSkinController(); s->SetTarget(base); s->SetBindShapeTransform(matrix(b));
				int nj = b.n(1, 4); S salt = b.word(); for (int j = 0; j < nj; ++j) s->AddJoint(strf("j%d%s", j, salt.c_str()).c_str(), matrix(b));
				size_t nv = (size_t) b.n(1, 6); s->SetInfluenceCount(nv);
				for (size_t v = 0; v < nv; ++v)
				{
					FCDSkinControllerVertex* iv = s->GetVertexInfluence(v);
					switch (b.n(0, 4))
					{
					case 0: break;
					case 1: iv->AddPair(b.n(-1, nj - 1), b.yes(0.7) ? 1.0f : b.yes() ? 0.99999994f : 1.0000001f); break;
					case 2: { float w = (float) b.n(1, 15) / 16.0f; iv->AddPair(b.n(-1, nj - 1), w); iv->AddPair(b.n(0, nj - 1), 1.0f - w); break; }
					case 3: iv->AddPair(b.n(0, nj - 1), 0.0f); iv->AddPair(b.n(0, nj - 1), 1.0f); break;
					case 4: iv->AddPair(b.n(0, nj - 1), 0.25f); iv->AddPair(b.n(0, nj - 1), 0.5f); iv->AddPair(b.n(-1, nj - 1), 0.25f); break;
					}
				}
			}
			else
			{
				FCDMorphController* m = c->CreateMorphController(); m->SetBaseTarget(base); m->SetMethod(b.yes() ? FUDaeMorphMethod::NORMALIZED : FUDaeMorphMethod::RELATIVE);
				for (int t = b.n(0, 3); t > 0; --t)
				{
					FCDMorphTarget* mt = m->AddTarget(meshes[b.rng.below(meshes.size())], b.unit01());
					if (mt) maybeAnimate(b, mt->GetWeight(), 0.4, false);
				}
			}
		}
	}
}
