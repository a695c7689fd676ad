#include "model.h"
#include "FCDocument/FCDEffectParameter.h"
#include "FUtils/FUAssert.h"
#include "FUtils/FUStringConversion.h"
#include "FUtils/FUDaeEnum.h"
#include <cmath>
#include <cstring>
#include <functional>
#include <set>
#include <execinfo.h>
#include <libxml/parser.h>
#include <libxml/tree.h>
extern "C" void __sanitizer_symbolize_pc(void* pc, const char* fmt, char* out, size_t n);

namespace model
{
	using namespace sim;
	const char* familyName[F_COUNT] = {"info", "camera", "light", "emitter", "force", "geometry", "spline", "controller", "image", "material", "physics", "anim", "scene"};

	void Dump::floats(const S& p, const float* f, size_t n)
	{
		S v; for (size_t i = 0; i < n; ++i) { if (i) v += ' '; v += strf("%.9g", f[i]); } kv(p, v);
	}
	S Dump::text() const { S o; for (auto& l : lines) { o += l.first; o += '='; o += l.second; o += '\n'; } return o; }

	S genericPath(const S& p)
	{
		S o; bool in = false;
		int an = 0;
		for (char c : p)
		{
			if (an > 0) { if (c == '<') ++an; else if (c == '>' && --an == 0) o += c; continue; }
			if (c == '[') { in = true; o += "[]"; } else if (c == ']') in = false; else if (!in) { o += c; if (c == '<' && o.size() > 6 && o.compare(o.size() - 6, 6, "extra<") == 0) an = 1; }
		}
		for (const char* rep : {".child[].child[]", ".link[].link[]"}) { size_t at; while ((at = o.find(rep)) != S::npos) o.erase(at, strlen(rep) / 2); }
		return o;
	}
	static S esc(const S& v) { S o; for (char c : v) { if (c == '\\') o += "\\\\"; else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else o += c; } return o; }
	static S unesc(const S& v) { S o; for (size_t i = 0; i < v.size(); ++i) { if (v[i] == '\\' && i + 1 < v.size()) { ++i; o += v[i] == 'n' ? '\n' : v[i] == 't' ? '\t' : v[i]; } else o += v[i]; } return o; }
	S pack(const Dump& d) { S o; for (auto& l : d.lines) o += esc(l.first) + "\t" + esc(l.second) + "\n"; return o; }
	Dump unpack(const S& s)
	{
		Dump d; size_t p = 0;
		while (p < s.size()) { size_t e = s.find('\n', p), t = s.find('\t', p); if (e == S::npos || t == S::npos || t > e) break; d.kv(unesc(s.substr(p, t - p)), unesc(s.substr(t + 1, e - t - 1))); p = e + 1; }
		return d;
	}
	// The library writes six digits and takes what is closer to zero than 1.2e-7 for zero. Tangents are kept relative to their key.
	static const double TOL_REL = 1e-5, TOL_ABS = 2e-7;
	static bool numTokens(const S& a, const S& b, bool key)
	{
		const char* x = a.c_str(); const char* y = b.c_str();
		while (true)
		{
			while (*x == ' ') ++x; while (*y == ' ') ++y;
			if (!*x || !*y) return !*x && !*y;
			char* ex; char* ey; double u = strtod(x, &ex), v = strtod(y, &ey);
			bool nx = ex != x && (*ex == 0 || *ex == ' '), ny = ey != y && (*ey == 0 || *ey == ' ');
			if (nx && ny)
			{
				if (std::isinf(u) || std::isinf(v)) { if (u != v) return false; }
				else if (!(std::fabs(u - v) <= (key ? 2e-4 * std::max(1.0, std::max(std::fabs(u), std::fabs(v))) : TOL_REL * std::max(std::fabs(u), std::fabs(v)) + TOL_ABS)) && !(std::isnan(u) && std::isnan(v))) return false;
				x = ex; y = ey;
			}
			else
			{
				while (*x && *x != ' ' && *x == *y) { ++x; ++y; }
				bool endx = !*x || *x == ' ', endy = !*y || *y == ' ';
				if (!endx || !endy) return false;
			}
		}
	}
	static S unpct(const S& v)
	{
		S o; auto hex = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; };
		for (size_t i = 0; i < v.size(); ++i)
		{
			if (v[i] == '%' && i + 2 < v.size() && hex(v[i + 1]) >= 0 && hex(v[i + 2]) >= 0) { o += (char) (hex(v[i + 1]) * 16 + hex(v[i + 2])); i += 2; }
			else o += v[i];
		}
		return o;
	}
	static bool sameImpl(const Dump& w, const Dump& g, S& cls, S& msg, bool strict)
	{
		std::map<S, S> mg; for (auto& l : g.lines) mg[l.first] = l.second;
		std::map<S, S> mw; for (auto& l : w.lines) mw[l.first] = l.second;
		S all; int n = 0; bool pct = false; S drv;
		auto diff = [&](const S& kind, const S& path, const S& text) { if (n == 0) cls = kind + ":" + genericPath(path); if (n++ < 8) all += text + "\n"; };
		for (auto& l : w.lines)
		{
			auto it = mg.find(l.first);
			// Known findings: a driver kept in an extra tree is lost, and of a driver in an array the element is lost. Kept apart likewise.
			if (l.first.size() > 7 && l.first.compare(l.first.size() - 7, 7, ".driver") == 0 && (it == mg.end() || it->second != l.second))
			{
				if (it == mg.end() && l.second.compare(0, 10, "(in extra)") == 0) { if (drv.empty()) drv = "driver-by-extra"; all += l.first + " = " + l.second + " is missing\n"; continue; }
				if (it != mg.end() && l.second.compare(0, 10, "(in array)") == 0 && it->second.compare(0, 10, "(in array)") == 0) { if (drv.empty()) drv = "driver-by-element"; all += l.first + " was '" + l.second + "' and is '" + it->second + "'\n"; continue; }
			}
			if (it == mg.end()) { diff("lost", l.first, l.first + "=" + l.second + " is missing"); continue; }
			if (l.second == it->second || (!strict && numTokens(l.second, it->second, l.first.find(".key[") != S::npos))) continue;
			// Known finding: "%41" typed by the user reads back as "A". Kept apart so that it hides nothing else.
			if (!strict && unpct(l.second) == it->second) { if (!pct) { pct = true; all += l.first + " was '" + l.second.substr(0, 200) + "' and is '" + it->second.substr(0, 200) + "'\n"; } continue; }
			diff("changed", l.first, l.first + " was '" + l.second.substr(0, 300) + "' and is '" + it->second.substr(0, 300) + "'");
		}
		for (auto& l : g.lines) if (!mw.count(l.first)) diff("invented", l.first, l.first + "=" + l.second + " appeared");
		msg = all; if (n > 8) msg += strf("... %d differences\n", n);
		if (n == 0) cls = pct ? "percent-escape" : drv;
		return n == 0 && !pct && drv.empty();
	}
	bool same(const Dump& w, const Dump& g, S& cls, S& msg) { return sameImpl(w, g, cls, msg, false); }
	bool sameStrict(const Dump& w, const Dump& g, S& cls, S& msg) { return sameImpl(w, g, cls, msg, true); }

	static S dt(const FUDateTime& t) { return strf("%u-%u-%u %u:%u:%u", t.GetYear(), t.GetMonth(), t.GetDay(), t.GetHour(), t.GetMinutes(), t.GetSeconds()); }
	void dumpAsset(Dump& d, const S& p, const FCDAsset* a, bool dates)
	{
		if (!a) return;
		size_t k = 0;
		for (size_t i = 0; i < a->GetContributorCount(); ++i)
		{
			const FCDAssetContributor* c = a->GetContributor(i);
			if (c->IsEmpty()) continue;
			S q = p + strf(".contributor[%zu]", k++);
			d.kv(q + ".author", c->GetAuthor().c_str()); d.kv(q + ".tool", c->GetAuthoringTool().c_str()); d.kv(q + ".comments", c->GetComments().c_str());
			d.kv(q + ".copyright", c->GetCopyright().c_str()); d.kv(q + ".source", c->GetSourceData().c_str());
		}
		d.ki(p + ".contributors", (long long) k);
		if (dates) { d.kv(p + ".created", dt(a->GetCreationDateTime())); d.kv(p + ".modified", dt(a->GetModifiedDateTime())); }
		d.kv(p + ".keywords", a->GetKeywords().c_str()); d.kv(p + ".revision", a->GetRevision().c_str());
		d.kv(p + ".subject", a->GetSubject().c_str()); d.kv(p + ".title", a->GetTitle().c_str());
		if (a->GetHasUnitsFlag()) { d.kv(p + ".unit", a->GetUnitName().c_str()); d.kf(p + ".meters", a->GetUnitConversionFactor()); }
		if (a->GetHasUpAxisFlag()) d.floats(p + ".up", &a->GetUpAxis().x, 3);
	}
	// Values that the file keeps in the extra tree of their owner.
	static std::set<const FCDAnimated*> extraStored;
	template <class P> static void inExtra(const P& x) { if (x.GetAnimated()) extraStored.insert(x.GetAnimated()); }
	static void collectNode(FCDSceneNode* n, std::set<FCDSceneNode*>& seen)
	{
		if (!n || !seen.insert(n).second) return;
		inExtra(n->GetVisibility()); for (size_t i = 0; i < n->GetChildrenCount(); ++i) collectNode(n->GetChild(i), seen);
	}
	static void collectExtraStored(FCDocument* doc)
	{
		extraStored.clear(); std::set<FCDSceneNode*> seen;
		for (size_t i = 0; i < doc->GetVisualSceneLibrary()->GetEntityCount(); ++i) collectNode(doc->GetVisualSceneLibrary()->GetEntity(i), seen);
		for (size_t i = 0; i < doc->GetLightLibrary()->GetEntityCount(); ++i)
		{
			const FCDLight* l = doc->GetLightLibrary()->GetEntity(i); inExtra(l->GetIntensity()); inExtra(l->GetOuterAngle()); inExtra(l->GetDropoff());
			if (l->GetLightType() != FCDLight::DIRECTIONAL) continue;
			inExtra(l->GetConstantAttenuationFactor()); inExtra(l->GetLinearAttenuationFactor()); inExtra(l->GetQuadraticAttenuationFactor()); inExtra(l->GetFallOffAngle()); inExtra(l->GetFallOffExponent());
		}
	}
	static bool numberCurves = false;
	static void dumpENode(Dump& d, const S& p, const FCDENode* n)
	{
		d.kv(p + ".name", n->GetName()); d.kv(p + ".content", n->GetContent());
		S at; for (size_t i = 0; i < n->GetAttributeCount(); ++i) { d.kv(p + strf(".attr[%zu]", i), S(n->GetAttribute(i)->GetName().c_str()) + " := " + n->GetAttribute(i)->GetValue().c_str()); }
		for (size_t i = 0; i < n->GetChildNodeCount(); ++i) dumpENode(d, p + strf(".child[%zu]", i), n->GetChildNode(i));
		// Values saved together lose the names of the components: they are described in the order of their curves.
		if (const_cast<FCDENode*>(n)->GetAnimated() && n->GetAnimated()->HasCurve())
		{
			Dump one; numberCurves = true; dumpAnimated(one, "a", n->GetAnimated()); numberCurves = false; std::map<S, S> by; int curves = 0;
			for (auto& l : one.lines) { size_t q = l.first.find("].") + 2; by[l.first.substr(0, q)] += l.first.substr(q) + " = " + l.second + "\n"; }
			std::vector<S> all; for (auto& c : by) all.push_back(c.second); std::sort(all.begin(), all.end());
			size_t total = 0; for (size_t i = 0; i < n->GetAnimated()->GetValueCount(); ++i) total += n->GetAnimated()->GetCurveCount(i);
			if (total == 1 && by.size() == 1) { S q = by.begin()->first; d.kv(p + ".animated", q.substr(q.find('<'))); }
			for (auto& c : all) { size_t at = 0, e; while ((e = c.find('\n', at)) != S::npos) { S l = c.substr(at, e - at); size_t q = l.find(" = "); d.kv(p + strf(".curve[%d].", curves) + l.substr(0, q), l.substr(q + 3)); at = e + 1; } ++curves; }
		}
	}
	void dumpExtra(Dump& d, const S& p, const FCDExtra* x)
	{
		if (!x) return;
		for (size_t t = 0; t < x->GetTypeCount(); ++t)
		{
			const FCDEType* ty = x->GetType(t); if (ty->GetTransientFlag()) continue;   // loader's own notes, never saved
			for (size_t i = 0; i < ty->GetTechniqueCount(); ++i)
			{
				const FCDETechnique* te = ty->GetTechnique(i);
				for (size_t c = 0; c < te->GetChildNodeCount(); ++c) dumpENode(d, p + strf(".extra<%s/%s>[%zu]", ty->GetName().c_str(), te->GetProfile(), c), te->GetChildNode(c));
			}
		}
	}
	void dumpAnimated(Dump& d, const S& p, const FCDAnimated* a)
	{
		if (!a || !a->HasCurve()) return;
		for (size_t i = 0; i < a->GetValueCount(); ++i)
		{
			for (size_t c = 0; c < a->GetCurveCount(i); ++c)
			{
				const FCDAnimationCurve* k = const_cast<FCDAnimated*>(a)->GetCurve(i, c);
				S q = p + strf(".curve<%s>[%zu]", a->GetQualifier(i).c_str(), c); if (numberCurves) q = p + strf(".curve%zu<%s>[%zu]", i, a->GetQualifier(i).c_str(), c);
				// Curves saved together get company: a value without a curve gets one that stays at the value. No change to what is animated.
				bool constant = a->GetValue(i) != nullptr; for (size_t j = 0; j < k->GetKeyCount(); ++j) if (std::fabs(const_cast<FCDAnimationCurve*>(k)->GetKey(j)->output - *a->GetValue(i)) > 1e-3f) constant = false;
				if (constant) continue;
				if (k->GetParent()) d.kv(q + ".animation", k->GetParent()->GetParent()->GetDaeId().c_str());
				d.kv(q + ".inf", strf("%d/%d", (int) k->GetPreInfinity(), (int) k->GetPostInfinity()));
				d.ki(q + ".keys", (long long) k->GetKeyCount());
				for (size_t j = 0; j < k->GetKeyCount(); ++j)
				{
					const FCDAnimationKey* key = const_cast<FCDAnimationCurve*>(k)->GetKey(j);
					S v = strf("%u %.9g %.9g", key->interpolation, key->input, key->output);
					if (key->interpolation == FUDaeInterpolation::BEZIER)
					{
						const FCDAnimationKeyBezier* b = (const FCDAnimationKeyBezier*) key;
						v += strf(" %.9g %.9g %.9g %.9g", b->inTangent.x, b->inTangent.y, b->outTangent.x, b->outTangent.y);
					}
					else if (key->interpolation == FUDaeInterpolation::TCB)
					{
						const FCDAnimationKeyTCB* t = (const FCDAnimationKeyTCB*) key;
						v += strf(" %.9g %.9g %.9g %.9g %.9g", t->tension, t->continuity, t->bias, t->easeIn, t->easeOut);
					}
					d.kv(q + strf(".key[%zu]", j), v);
				}
				const FCDAnimated* drv = nullptr; int32 di = -1; k->GetDriver(drv, di);
				if (drv)
				{
					S id = extraStored.count(drv) ? "(in extra) " : drv->GetArrayElement() >= 0 ? "(in array) " : ""; id += strf("index %d of", (int) di); for (size_t v = 0; v < drv->GetValueCount(); ++v) id += strf(" %s=%.6g", drv->GetQualifier(v).c_str(), drv->GetValue(v) && std::fabs(*drv->GetValue(v)) > 1e-6 ? *drv->GetValue(v) : 0.0f);
					d.kv(q + ".driver", id);
				}
			}
		}
		if (a->GetArrayElement() >= 0 && p.find(".morph.target") == S::npos) d.ki(p + ".element", a->GetArrayElement());
	}
	S entityRef(const FCDEntity* e, const FCDocument* doc)
	{
		if (!e) return "(none)";
		S s = e->GetDaeId().c_str();
		if (e->GetDocument() != doc) s = S("external:") + s;
		return strf("type%d:", (int) e->GetType()) + s;
	}
	void dumpEntity(Dump& d, const S& p, FCDEntity* e, int flags)
	{
		d.kv(p + ".id", e->GetDaeId().c_str()); d.kv(p + ".name", e->GetName().c_str());
		if (e->HasNote()) d.kv(p + ".note", e->GetNote().c_str());
		dumpAsset(d, p + ".asset", ((const FCDEntity*) e)->GetAsset(), (flags & DUMP_DATES) != 0);
		dumpExtra(d, p, ((const FCDEntity*) e)->GetExtra());
	}
	template <class L> static void dumpLibCommon(Dump& d, const S& p, L* lib, int flags)
	{
		d.ki(p + ".count", (long long) lib->GetEntityCount());
		dumpAsset(d, p + ".asset", ((const L*) lib)->GetAsset(), (flags & DUMP_DATES) != 0);
		dumpExtra(d, p, ((const L*) lib)->GetExtra());
	}
	void dumpTransform(Dump& d, const S& p, FCDTransform* t)
	{
		d.ki(p + ".type", t->GetType()); d.kv(p + ".sid", t->GetSubId()->c_str());
		switch (t->GetType())
		{
		case FCDTransform::TRANSLATION: d.floats(p + ".v", &((FMVector3&) ((FCDTTranslation*) t)->GetTranslation()).x, 3); break;
		case FCDTransform::SCALE: d.floats(p + ".v", &((FMVector3&) ((FCDTScale*) t)->GetScale()).x, 3); break;
		case FCDTransform::ROTATION: { FCDTRotation* r = (FCDTRotation*) t; float v[4] = {r->GetAxis().x, r->GetAxis().y, r->GetAxis().z, r->GetAngle()}; d.floats(p + ".v", v, 4); break; }
		case FCDTransform::MATRIX: { FMMatrix44& m = (FMMatrix44&) ((FCDTMatrix*) t)->GetTransform(); d.floats(p + ".v", &m.m[0][0], 16); break; }
		case FCDTransform::LOOKAT: { FCDTLookAt* l = (FCDTLookAt*) t; d.floats(p + ".pos", &l->GetPosition().x, 3); d.floats(p + ".target", &l->GetTarget().x, 3); d.floats(p + ".up", &l->GetUp().x, 3); break; }
		case FCDTransform::SKEW: { FCDTSkew* s = (FCDTSkew*) t; d.floats(p + ".rot", &s->GetRotateAxis().x, 3); d.floats(p + ".around", &s->GetAroundAxis().x, 3); d.kf(p + ".angle", s->GetAngle()); break; }
		default: break;
		}
		dumpAnimated(d, p + ".anim", ((const FCDTransform*) t)->GetAnimated());
	}
	void dumpInstance(Dump& d, const S& p, FCDEntityInstance* i, int flags)
	{
		d.ki(p + ".itype", i->GetType()); d.ki(p + ".etype", i->GetEntityType());
		d.kv(p + ".sid", i->GetWantedSubId().c_str()); d.kv(p + ".iname", i->GetName().c_str());
		if (i->IsExternalReference()) d.kv(p + ".uri", i->GetEntityUri().GetAbsoluteUri().c_str());
		else d.kv(p + ".entity", entityRef(((const FCDEntityInstance*) i)->GetEntity(), i->GetDocument()));
		dumpExtra(d, p, ((const FCDEntityInstance*) i)->GetExtra());
		if (i->GetType() == FCDEntityInstance::GEOMETRY || i->GetType() == FCDEntityInstance::CONTROLLER)
		{
			FCDGeometryInstance* g = (FCDGeometryInstance*) i;
			d.ki(p + ".materials", (long long) g->GetMaterialInstanceCount());
			for (size_t m = 0; m < g->GetMaterialInstanceCount(); ++m)
			{
				FCDMaterialInstance* mi = g->GetMaterialInstance(m); S q = p + strf(".material[%zu]", m);
				d.kv(q + ".semantic", mi->GetSemantic().c_str()); d.kv(q + ".target", entityRef(((const FCDMaterialInstance*) mi)->GetEntity(), i->GetDocument()));
				for (size_t b = 0; b < mi->GetBindingCount(); ++b) d.kv(q + strf(".bind[%zu]", b), S(mi->GetBinding(b)->semantic->c_str()) + " -> " + mi->GetBinding(b)->target->c_str());
				for (size_t b = 0; b < mi->GetVertexInputBindingCount(); ++b)
				{
					FCDMaterialInstanceBindVertexInput* v = mi->GetVertexInputBinding(b);
					d.kv(q + strf(".vbind[%zu]", b), strf("%s -> %d/%d", v->semantic->c_str(), (int) v->GetInputSemantic(), (int) *v->inputSet));
				}
				dumpExtra(d, q, ((const FCDMaterialInstance*) mi)->GetExtra());
			}
			d.ki(p + ".params", (long long) g->GetEffectParameterCount());
			for (size_t m = 0; m < g->GetEffectParameterCount(); ++m) dumpEffectParameter(d, p + strf(".param[%zu]", m), g->GetEffectParameter(m));
		}
		if (i->GetType() == FCDEntityInstance::CONTROLLER)
		{
			FCDControllerInstance* c = (FCDControllerInstance*) i;
			d.ki(p + ".joints", (long long) c->GetJointCount());
			S roots; for (size_t j = 0; j < c->GetSkeletonRoots().size(); ++j) roots += S(c->GetSkeletonRoots()[j].GetFragment().c_str()) + " ";
			d.kv(p + ".skeletons", roots);
			for (size_t j = 0; j < c->GetJointCount(); ++j) d.kv(p + strf(".joint[%zu]", j), c->GetJoint(j) ? c->GetJoint(j)->GetDaeId().c_str() : "(null)");
		}
	}
	static void dumpNode(Dump& d, const S& p, FCDSceneNode* n, int flags, FCDSceneNode* from, int depth)
	{
		if (depth > 40) { d.kv(p, "too deep"); return; }
		if (n->GetParent() != from) { d.kv(p + ".shared", n->GetDaeId().c_str()); return; }
		dumpEntity(d, p, n, flags);
		d.kv(p + ".subid", n->GetSubId().c_str()); d.ki(p + ".joint", n->GetJointFlag() ? 1 : 0);
		d.ki(p + ".visible", n->IsVisible() ? 1 : 0); dumpParamAnim(d, p + ".visibility", (const FCDParameterAnimatableFloat&) n->GetVisibility());
		d.ki(p + ".istarget", n->IsTarget() ? 1 : 0);
		d.ki(p + ".transforms", (long long) n->GetTransformCount());
		for (size_t i = 0; i < n->GetTransformCount(); ++i) dumpTransform(d, p + strf(".transform[%zu]", i), n->GetTransform(i));
		// Instances of scene nodes are kept as child nodes: they are described with the children.
		std::map<S, int> sub; std::vector<FCDSceneNode*> links;
		for (size_t i = 0; i < n->GetInstanceCount(); ++i)
		{
			FCDEntityInstance* in = n->GetInstance(i);
			if (in->GetEntityType() == FCDEntity::SCENE_NODE && !in->IsExternalReference() && in->GetEntity())
			{
				FCDSceneNode* c = (FCDSceneNode*) in->GetEntity();
				if (std::find(links.begin(), links.end(), c) == links.end()) links.push_back(c);
				continue;
			}
			// Instances outside of the standard element set are kept in a list of their own.
			bool ext = in->GetEntityType() == FCDEntity::FORCE_FIELD || in->GetEntityType() == FCDEntity::EMITTER;
			S kind = ext ? "xinstance" : "instance";
			dumpInstance(d, p + "." + kind + strf("[%d]", sub[kind]++), in, flags);
		}
		size_t c1 = 0;
		for (size_t i = 0; i < n->GetChildrenCount(); ++i)
		{
			FCDSceneNode* c = n->GetChild(i);
			if (c->GetParent() != n) { if (std::find(links.begin(), links.end(), c) == links.end()) links.push_back(c); }
			else dumpNode(d, p + strf(".child[%zu]", c1++), c, flags, n, depth + 1);
		}
	}
	static void dumpAnimation(Dump& d, const S& p, FCDAnimation* a, int flags, int depth)
	{
		dumpEntity(d, p, a, flags);
		for (size_t i = 0; i < a->GetChildrenCount() && depth < 20; ++i) dumpAnimation(d, p + strf(".child[%zu]", i), a->GetChild(i), flags, depth + 1);
	}
	Dump describe(FCDocument* doc, int flags)
	{
		Dump d; collectExtraStored(doc);
		if (flags & DUMP_URL) d.kv("doc.url", doc->GetFileUrl().c_str());
		dumpAsset(d, "doc.asset", doc->GetAsset(), (flags & DUMP_DATES) != 0);
		dumpExtra(d, "doc", doc->GetExtra());
		if (doc->GetVisualSceneInstance())
		{
		d.kv("doc.time", strf("%d %d", doc->HasStartTime() ? 1 : 0, doc->HasEndTime() ? 1 : 0));
		if (doc->HasStartTime()) d.kf("doc.start", doc->GetStartTime());
		if (doc->HasEndTime()) d.kf("doc.end", doc->GetEndTime());
		for (size_t i = 0; i < doc->GetLayerCount(); ++i)
		{
			S o = doc->GetLayer(i)->name.c_str(); o += ":"; for (size_t k = 0; k < doc->GetLayer(i)->objects.size(); ++k) { o += ' '; o += doc->GetLayer(i)->objects[k].c_str(); }
			d.kv(strf("doc.layer[%zu]", i), o);
		}
		}
		d.kv("doc.visualscene", entityRef(doc->GetVisualSceneInstance(), doc));
		d.ki("doc.physicsscenes", (long long) doc->GetPhysicsSceneInstanceCount());
		for (size_t i = 0; i < doc->GetPhysicsSceneInstanceCount(); ++i) d.kv(strf("doc.physicsscene[%zu]", i), entityRef((FCDEntity*) doc->GetPhysicsSceneInstance(i), doc));

		dumpLibCommon(d, "cameras", doc->GetCameraLibrary(), flags);
		for (size_t i = 0; i < doc->GetCameraLibrary()->GetEntityCount(); ++i)
		{
			FCDCamera* c = doc->GetCameraLibrary()->GetEntity(i); const FCDCamera* cc = c; S p = strf("camera[%zu]", i);
			dumpEntity(d, p, c, flags);
			d.ki(p + ".projection", c->GetProjectionType()); d.kv(p + ".views", strf("%d%d", c->HasHorizontalFov() ? 1 : 0, c->HasVerticalFov() ? 1 : 0));
			if (c->HasHorizontalFov()) { d.kf(p + ".fovx", *c->GetFovX()); dumpParamAnim(d, p + ".fovx", cc->GetFovX()); }
			if (c->HasVerticalFov()) { d.kf(p + ".fovy", *c->GetFovY()); dumpParamAnim(d, p + ".fovy", cc->GetFovY()); }
			if (c->HasAspectRatio()) { d.kf(p + ".aspect", *c->GetAspectRatio()); dumpParamAnim(d, p + ".aspect", cc->GetAspectRatio()); }
			d.kf(p + ".near", *c->GetNearZ()); dumpParamAnim(d, p + ".near", cc->GetNearZ()); d.kf(p + ".far", *c->GetFarZ()); dumpParamAnim(d, p + ".far", cc->GetFarZ());
			d.kv(p + ".target", c->GetTargetNode() ? c->GetTargetNode()->GetDaeId().c_str() : "");
		}
		dumpLibCommon(d, "lights", doc->GetLightLibrary(), flags);
		for (size_t i = 0; i < doc->GetLightLibrary()->GetEntityCount(); ++i)
		{
			FCDLight* l = doc->GetLightLibrary()->GetEntity(i); const FCDLight* cl = l; S p = strf("light[%zu]", i);
			dumpEntity(d, p, l, flags); d.ki(p + ".type", l->GetLightType());
			d.floats(p + ".color", &((FMVector3&) l->GetColor()).x, 3); dumpParamAnim(d, p + ".color", cl->GetColor());
			d.kf(p + ".intensity", *l->GetIntensity()); dumpParamAnim(d, p + ".intensity", cl->GetIntensity());
			bool spot = l->GetLightType() == FCDLight::SPOT, dir = l->GetLightType() == FCDLight::DIRECTIONAL, point = l->GetLightType() == FCDLight::POINT;
			if (spot || dir || point)
			{
				d.kf(p + ".constatt", *l->GetConstantAttenuationFactor()); dumpParamAnim(d, p + ".constatt", cl->GetConstantAttenuationFactor());
				d.kf(p + ".linatt", *l->GetLinearAttenuationFactor()); dumpParamAnim(d, p + ".linatt", cl->GetLinearAttenuationFactor());
				d.kf(p + ".quadatt", *l->GetQuadraticAttenuationFactor()); dumpParamAnim(d, p + ".quadatt", cl->GetQuadraticAttenuationFactor());
			}
			if (spot || dir)
			{
				d.kf(p + ".falloffangle", *l->GetFallOffAngle()); dumpParamAnim(d, p + ".falloffangle", cl->GetFallOffAngle());
				d.kf(p + ".falloffexp", *l->GetFallOffExponent()); dumpParamAnim(d, p + ".falloffexp", cl->GetFallOffExponent());
				d.kf(p + ".outer", *l->GetOuterAngle()); dumpParamAnim(d, p + ".outer", cl->GetOuterAngle());
			}
			if (spot) { d.kf(p + ".dropoff", *l->GetDropoff()); dumpParamAnim(d, p + ".dropoff", cl->GetDropoff()); }
			d.kv(p + ".target", l->GetTargetNode() ? l->GetTargetNode()->GetDaeId().c_str() : "");
		}
		dumpLibCommon(d, "emitters", doc->GetEmitterLibrary(), flags);
		for (size_t i = 0; i < doc->GetEmitterLibrary()->GetEntityCount(); ++i) dumpEntity(d, strf("emitter[%zu]", i), doc->GetEmitterLibrary()->GetEntity(i), flags);
		dumpLibCommon(d, "forcefields", doc->GetForceFieldLibrary(), flags);
		for (size_t i = 0; i < doc->GetForceFieldLibrary()->GetEntityCount(); ++i)
		{
			FCDForceField* ff = doc->GetForceFieldLibrary()->GetEntity(i); S p = strf("forcefield[%zu]", i);
			dumpEntity(d, p, ff, flags); dumpExtra(d, p + ".information", ((const FCDForceField*) ff)->GetInformation());
		}
		dumpLibCommon(d, "lib.geometry", doc->GetGeometryLibrary(), flags); dumpLibCommon(d, "lib.controller", doc->GetControllerLibrary(), flags); dumpLibCommon(d, "lib.image", doc->GetImageLibrary(), flags);
		dumpLibCommon(d, "lib.material", doc->GetMaterialLibrary(), flags); dumpLibCommon(d, "lib.effect", doc->GetEffectLibrary(), flags); dumpLibCommon(d, "lib.physicsmaterial", doc->GetPhysicsMaterialLibrary(), flags);
		dumpLibCommon(d, "lib.physicsmodel", doc->GetPhysicsModelLibrary(), flags); dumpLibCommon(d, "lib.physicsscene", doc->GetPhysicsSceneLibrary(), flags);
		dumpGeometries(d, doc, flags); dumpControllers(d, doc, flags); dumpMaterials(d, doc, flags); dumpPhysics(d, doc, flags);
		dumpLibCommon(d, "visualscenes", doc->GetVisualSceneLibrary(), flags);
		for (size_t i = 0; i < doc->GetVisualSceneLibrary()->GetEntityCount(); ++i) dumpNode(d, strf("scene[%zu]", i), doc->GetVisualSceneLibrary()->GetEntity(i), flags, nullptr, 0);
		dumpLibCommon(d, "animations", doc->GetAnimationLibrary(), flags);
		for (size_t i = 0; i < doc->GetAnimationLibrary()->GetEntityCount(); ++i) dumpAnimation(d, strf("animation[%zu]", i), doc->GetAnimationLibrary()->GetEntity(i), flags, 0);
		dumpLibCommon(d, "clips", doc->GetAnimationClipLibrary(), flags);
		for (size_t i = 0; i < doc->GetAnimationClipLibrary()->GetEntityCount(); ++i)
		{
			FCDAnimationClip* c = doc->GetAnimationClipLibrary()->GetEntity(i); S p = strf("clip[%zu]", i);
			dumpEntity(d, p, c, flags); d.kf(p + ".start", c->GetStart()); d.kf(p + ".end", c->GetEnd());
			std::set<S> anims; for (size_t k = 0; k < c->GetClipCurves().size(); ++k) anims.insert(c->GetClipCurves()[k]->GetParent()->GetParent()->GetDaeId().c_str());
			for (size_t k = 0; k < c->GetAnimationCount(); ++k) { FCDAnimation* a = c->GetAnimation(k); anims.insert(a ? a->GetDaeId().c_str() : "(none)"); if (a && !c->GetAnimationName(k).empty()) d.kv(p + ".name<" + a->GetDaeId().c_str() + ">", c->GetAnimationName(k).c_str()); }
			S all; for (auto& x : anims) all += x + " "; d.kv(p + ".animations", all);
		}
		d.ki("doc.placeholders", (long long) doc->GetExternalReferenceManager()->GetPlaceHolderCount());
		return d;
	}

	// =============================================================================================
	float Build::f()
	{
		if (wide && rng.chance(0.06))
		{
			static const float far[] = { 1.5e-3f, 2.5e-5f, 1e-6f, 3.25e-8f, 1e-12f, 1.5e-20f, 1.17549435e-38f, 1234567.0f, 16777216.0f, 1.25e9f, 3e12f, 1e15f, 1.5e20f, 1e30f, 3.40282347e38f, 0.333333343f, 99999.9921875f, 0.99999994f };
			float v = far[rng.below(sizeof far / sizeof *far)]; return rng.chance(0.4) ? -v : v;
		}
		return (float) rng.range(-4000, 4000) / 8.0f;
	}
	FMVector3 Build::dir()
	{
		static const float d[][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {-1, 0, 0}, {0, 0, -1}, {0.6f, 0.8f, 0}, {0, -0.6f, 0.8f}, {0.8f, 0, 0.6f}};
		const float* v = d[rng.below(8)]; return FMVector3(v[0], v[1], v[2]);
	}
	float Build::pos() { return (float) rng.range(1, 4000) / 8.0f; }
	S Build::word()
	{
		static const char* syl[] = {"ka", "lo", "mi", "ru", "te", "sa", "no", "vi", "dex", "qua", "zor", "pim"};
		S s; int n = (int) rng.range(1, 3); for (int i = 0; i < n; ++i) s += syl[rng.below(12)];
		return s + strf("%d", (int) rng.below(100000));
	}
	S Build::text()
	{
		S s = word();
		if (textLevel >= 1 && rng.chance(0.7)) { s += " "; s += word(); }
		if (textLevel >= 2 && rng.chance(0.6))
		{
			static const char* odd[] = {"<tag>", "a&b", "\"quoted\"", "it's", "x>y", "&amp;", "]]>", "#frag", "semi;colon", "{}", "|", "~", "^", "\xC3\xA9t\xC3\xA9", "\xE6\x97\xA5", "(a, b)", "a=b", "back\\slash", "tick`", "@at", "$1", "q?", "bang!"};
			int n = (int) rng.range(1, 3); for (int i = 0; i < n; ++i) { s += rng.chance(0.5) ? " " : ""; s += odd[rng.below(sizeof odd / sizeof *odd)]; }
		}
		if (textLevel >= 3 && rng.chance(0.5))
		{
			static const char* pct[] = {"100%", "%d", "%s%n", "50%zz", "%%", "% 1", "%41", "a%20b"};
			s += pct[rng.below(textLevel >= 4 ? 8 : 6)];
		}
		return s;
	}
	static FUDateTime randDate(Build& b)
	{
		FUDateTime t; t.SetYear((uint32) b.n(1970, 2099)); t.SetMonth((uint32) b.n(1, 12)); t.SetDay((uint32) b.n(1, 28)); t.SetHour((uint32) b.n(0, 23)); t.SetMinutes((uint32) b.n(0, 59)); t.SetSeconds((uint32) b.n(0, 59));
		return t;
	}
	void buildAsset(Build& b, FCDAsset* a)
	{
		int n = b.n(0, 2);
		for (int i = 0; i < n; ++i)
		{
			FCDAssetContributor* c = a->AddContributor();
			if (b.yes(0.8)) c->SetAuthor(b.text().c_str()); if (b.yes(0.7)) c->SetAuthoringTool(b.text().c_str());
			if (b.yes(0.7)) c->SetComments(b.text().c_str()); if (b.yes(0.7)) c->SetCopyright(b.text().c_str());
			if (b.yes(0.3)) c->SetSourceData((S("file:///src/") + b.word() + ".ma").c_str());
		}
		if (b.yes()) a->GetCreationDateTime() = randDate(b);
		if (b.yes()) a->SetKeywords(b.text().c_str()); if (b.yes()) a->SetRevision(b.text().c_str());
		if (b.yes()) a->SetSubject(b.text().c_str()); if (b.yes()) a->SetTitle(b.text().c_str());
		if (b.yes()) { a->SetUnitName(b.word().c_str()); a->SetUnitConversionFactor(b.pos()); }
		if (b.yes()) { int k = b.n(0, 2); a->SetUpAxis(k == 0 ? FMVector3::XAxis : k == 1 ? FMVector3::YAxis : FMVector3::ZAxis); }
	}
	static void buildENode(Build& b, FCDENode* n, int depth)
	{
		if (b.animExtra && b.anims && b.yes(0.25))
		{
			static const char* none[] = {""}; static const char* one[] = {".VALUE"}; static const char* xyz[] = {".X", ".Y", ".Z"}; static const char* rgba[] = {".R", ".G", ".B", ".A"};
			int k = b.n(0, 3); size_t count = k < 2 ? 1 : (size_t) k + 1; S v; for (size_t i = 0; i < count; ++i) v += (i ? " " : "") + strf("%g", b.f());
			n->SetContent(v.c_str()); n->AddAttribute("sid", b.word().c_str());
			const char** q = k == 0 ? none : k == 1 ? one : k == 2 ? xyz : rgba; 
			StringList names; for (size_t i = 0; i < count; ++i) names.push_back(q[i]); n->GetAnimated()->Resize(names, false);
			animate(b, n->GetAnimated(), false); trace("animated extra");
			return;
		}
		int at = b.n(0, 2); for (int i = 0; i < at; ++i) n->AddAttribute((S("at") + b.word()).c_str(), b.text().c_str());
		if (depth > 0 && b.yes(0.6)) { int k = b.n(1, 3); for (int i = 0; i < k; ++i) buildENode(b, n->AddChildNode((S("el") + b.word()).c_str()), depth - 1); }
		else if (b.yes(0.8))
		{
			if (b.anims && b.yes(0.3)) { n->SetContent(strf("%g", b.f()).c_str()); }
			else n->SetContent(b.text().c_str());
		}
	}
	void buildExtra(Build& b, FCDExtra* x, int depth, bool typed)
	{
		int types = b.n(1, typed ? 2 : 1);
		for (int t = 0; t < types; ++t)
		{
			FCDEType* ty = !typed || (t == 0 && b.yes(0.7)) ? x->GetDefaultType() : x->AddType((S("ty") + b.word()).c_str());
			int te = b.n(1, 2);
			for (int i = 0; i < te; ++i)
			{
				FCDETechnique* tn = ty->AddTechnique((S("PROF_") + b.word()).c_str());
				int k = b.n(1, 2); for (int j = 0; j < k; ++j) buildENode(b, tn->AddChildNode((S("el") + b.word()).c_str()), depth);
			}
		}
	}
	void buildEntityCommon(Build& b, FCDEntity* e, double pExtra)
	{
		if (b.yes(0.7)) e->SetName(b.text().c_str()); else e->SetName(e->GetDaeId().c_str());
		if (b.yes(0.3)) e->SetDaeId(fm::string((S("id_") + b.word()).c_str()));
		if (b.yes(0.2)) e->SetNote(b.text().c_str());
		if (b.yes(0.15)) buildAsset(b, e->GetAsset());
		if (b.yes(pExtra)) { b.animExtra = b.mayAnimExtra; buildExtra(b, e->GetExtra()); b.animExtra = false; }
	}
	static FCDAnimation* pickAnimation(Build& b)
	{
		FCDAnimationLibrary* lib = b.doc->GetAnimationLibrary();
		if (lib->GetEntityCount() > 0 && b.yes(0.5))
		{
			FCDAnimation* a = lib->GetEntity(b.rng.below(lib->GetEntityCount()));
			for (int d = 0; d < 3; ++d) { if (a->GetChildrenCount() > 0 && b.yes(0.5)) a = a->GetChild(b.rng.below(a->GetChildrenCount())); }
			if (b.yes(0.3)) { a = a->AddChild(); a->SetName(b.text().c_str()); }
			return a;
		}
		FCDAnimation* a = lib->AddEntity(); a->SetName(b.text().c_str()); { b.mayAnimExtra = false; if (b.yes(0.2)) buildEntityCommon(b, a); b.mayAnimExtra = true; }
		return a;
	}
	static void fillCurve(Build& b, FCDAnimationCurve* c, const std::vector<float>* times, int interp)
	{
		// Tangents are stored relative to their key in one of the forms: values far apart would lose digits.
		struct Near { Build& b; bool was; Near(Build& x) : b(x), was(x.wide) { b.wide = false; } ~Near() { b.wide = was; } } near(b);
		int n = times ? (int) times->size() : b.n(1, 5); float t = 0;
		if (b.yes(0.4)) c->SetPreInfinity((FUDaeInfinity::Infinity) b.n(0, 4));
		if (b.yes(0.4)) c->SetPostInfinity((FUDaeInfinity::Infinity) b.n(0, 4));
		for (int i = 0; i < n; ++i)
		{
			static const FUDaeInterpolation::Interpolation kinds[] = {FUDaeInterpolation::STEP, FUDaeInterpolation::LINEAR, FUDaeInterpolation::BEZIER, FUDaeInterpolation::TCB};
			FUDaeInterpolation::Interpolation k = kinds[interp >= 0 ? interp : b.n(0, 3)];
			t = times ? (*times)[(size_t) i] : t + (float) b.n(1, 16) / 8.0f;
			FCDAnimationKey* key = c->AddKey(k); key->input = t; key->output = b.f();
			if (k == FUDaeInterpolation::BEZIER) { FCDAnimationKeyBezier* z = (FCDAnimationKeyBezier*) key; z->inTangent = FMVector2(t - 0.25f, b.f()); z->outTangent = FMVector2(t + 0.125f, b.f()); }
			else if (k == FUDaeInterpolation::TCB) { FCDAnimationKeyTCB* z = (FCDAnimationKeyTCB*) key; z->tension = b.f(); z->continuity = b.f(); z->bias = b.f(); z->easeIn = b.f(); z->easeOut = b.f(); }
		}
	}
	void animate(Build& b, FCDAnimated* a, bool drives)
	{
		if (!a || a->GetValueCount() == 0) return;
		FCDAnimation* an = pickAnimation(b);
		int mode = b.n(0, 3);
		bool shareChannel = mode != 0; FCDAnimationChannel* ch = shareChannel ? an->AddChannel() : nullptr;
		std::vector<float> times; float t = 0; int nk = b.n(1, 4); for (int i = 0; i < nk; ++i) times.push_back(t += (float) b.n(1, 16) / 8.0f);
		int interp = b.n(0, 2); size_t must = b.rng.below(a->GetValueCount());
		for (size_t i = 0; i < a->GetValueCount(); ++i)
		{
			if (i != must && !b.yes(mode == 3 ? 0.95 : 0.5)) continue;
			FCDAnimationChannel* c = shareChannel ? ch : an->AddChannel();
			FCDAnimationCurve* cu = c->AddCurve();
			fillCurve(b, cu, mode >= 2 ? &times : nullptr, mode == 3 ? interp : -1);
			if (mode == 3) { cu->SetPreInfinity(FUDaeInfinity::CONSTANT); cu->SetPostInfinity(FUDaeInfinity::CONSTANT); }
			a->AddCurve(i, cu);
			if (b.drive && !b.drivers.empty() && b.yes(0.15)) { FCDAnimated* drv = b.drivers[b.rng.below(b.drivers.size())]; cu->SetDriver(drv, (int32) b.rng.below(drv->GetValueCount())); trace("driver"); logf("driver %zu values %s of %s", drv->GetValueCount(), drv->GetQualifier(0).c_str(), drv->HasCurve() ? "curve" : "nocurve"); }
		}
		if (!b.animExtra && !a->HasType(FCDAnimatedCustom::GetClassType()) && (drives || b.yes(0.02))) b.drivers.push_back(a);
	}
	void buildDocumentInfo(Build& b)
	{
		buildAsset(b, b.doc->GetAsset());
		if (b.yes(0.4)) buildExtra(b, b.doc->GetExtra());
		if (b.yes()) b.doc->SetStartTime(b.pos()); if (b.yes()) b.doc->SetEndTime(b.pos());
		auto lib = [&](auto* l) { if (b.yes(0.15)) buildExtra(b, l->GetExtra()); if (b.yes(0.1)) buildAsset(b, l->GetAsset()); };
		lib(b.doc->GetCameraLibrary()); lib(b.doc->GetLightLibrary()); lib(b.doc->GetEmitterLibrary()); lib(b.doc->GetForceFieldLibrary()); lib(b.doc->GetImageLibrary()); lib(b.doc->GetGeometryLibrary());
		lib(b.doc->GetControllerLibrary()); lib(b.doc->GetMaterialLibrary()); lib(b.doc->GetEffectLibrary()); lib(b.doc->GetPhysicsMaterialLibrary()); lib(b.doc->GetPhysicsModelLibrary());
		lib(b.doc->GetPhysicsSceneLibrary()); lib(b.doc->GetAnimationLibrary()); lib(b.doc->GetAnimationClipLibrary()); lib(b.doc->GetVisualSceneLibrary());
	}
	void buildCamera(Build& b)
	{
		for (int i = b.n(1, b.size); i > 0; --i)
		{
			FCDCamera* c = b.doc->GetCameraLibrary()->AddEntity(); buildEntityCommon(b, c);
			c->SetProjectionType(b.yes() ? FCDCamera::PERSPECTIVE : FCDCamera::ORTHOGRAPHIC);
			int k = b.n(0, 2);
			if (k != 1) c->SetFovX(b.pos()); if (k != 0) c->SetFovY(b.pos());
			if (k != 2) c->SetAspectRatio(b.pos());
			c->SetNearZ(b.pos()); c->SetFarZ(b.pos());
			if (c->HasHorizontalFov()) maybeAnimate(b, c->GetFovX(), 0.3);
			if (c->HasVerticalFov()) maybeAnimate(b, c->GetFovY(), 0.3);
			if (c->HasAspectRatio()) maybeAnimate(b, c->GetAspectRatio(), 0.2);
			maybeAnimate(b, c->GetNearZ(), 0.2); maybeAnimate(b, c->GetFarZ(), 0.2);
		}
	}
	void buildLight(Build& b)
	{
		for (int i = b.n(1, b.size); i > 0; --i)
		{
			FCDLight* l = b.doc->GetLightLibrary()->AddEntity(); buildEntityCommon(b, l);
			l->SetLightType((FCDLight::LightType) b.n(0, 3)); l->SetColor(b.unit01(), b.unit01(), b.unit01()); l->SetIntensity(b.pos());
			l->SetConstantAttenuationFactor(b.pos()); l->SetLinearAttenuationFactor(b.pos()); l->SetQuadraticAttenuationFactor(b.pos());
			l->SetFallOffExponent(b.pos()); l->SetFallOffAngle(b.pos()); l->SetOuterAngle(b.pos()); l->SetDropoff(b.pos());
			bool spot = l->GetLightType() == FCDLight::SPOT, dir = l->GetLightType() == FCDLight::DIRECTIONAL, point = l->GetLightType() == FCDLight::POINT;
			maybeAnimate(b, l->GetColor(), 0.3); maybeAnimate(b, l->GetIntensity(), 0.3, false);
			if (spot || dir || point) { maybeAnimate(b, l->GetConstantAttenuationFactor(), 0.2, !dir); maybeAnimate(b, l->GetLinearAttenuationFactor(), 0.2, !dir); maybeAnimate(b, l->GetQuadraticAttenuationFactor(), 0.2, !dir); }
			if (spot || dir) { maybeAnimate(b, l->GetFallOffAngle(), 0.2, !dir); maybeAnimate(b, l->GetFallOffExponent(), 0.2, !dir); maybeAnimate(b, l->GetOuterAngle(), 0.2, false); }
			if (spot) maybeAnimate(b, l->GetDropoff(), 0.2, false);
		}
	}
	void buildEmitter(Build& b)
	{
		for (int i = b.n(1, b.size); i > 0; --i) { FCDEmitter* e = b.doc->GetEmitterLibrary()->AddEntity(); buildEntityCommon(b, e, 0.8); }
	}
	void buildForceField(Build& b)
	{
		for (int i = b.n(1, b.size); i > 0; --i) { FCDForceField* e = b.doc->GetForceFieldLibrary()->AddEntity(); buildEntityCommon(b, e, 0.6); if (b.yes()) buildExtra(b, e->GetInformation(), 2, false); }
	}
	static void buildTransform(Build& b, FCDSceneNode* n)
	{
		FCDTransform* t = n->AddTransform((FCDTransform::Type) b.n(0, FCDTransform::TYPE_COUNT - 1));
		switch (t->GetType())
		{
		case FCDTransform::TRANSLATION: ((FCDTTranslation*) t)->SetTranslation(b.v3()); maybeAnimate(b, ((FCDTTranslation*) t)->GetTranslation(), 0.3); break;
		case FCDTransform::SCALE: ((FCDTScale*) t)->SetScale(b.v3()); maybeAnimate(b, ((FCDTScale*) t)->GetScale(), 0.3); break;
		case FCDTransform::ROTATION: { FMVector3 ax = b.v3(); ((FCDTRotation*) t)->SetAxis(ax); ((FCDTRotation*) t)->SetAngle((float) b.n(-180, 180)); maybeAnimate(b, ((FCDTRotation*) t)->GetAngleAxis(), 0.3); break; }
		case FCDTransform::MATRIX: { FMMatrix44 m; for (int r = 0; r < 4; ++r) for (int c = 0; c < 4; ++c) m.m[r][c] = b.f(); ((FCDTMatrix*) t)->SetTransform(m); maybeAnimate(b, ((FCDTMatrix*) t)->GetTransform(), 0.2); break; }
		case FCDTransform::LOOKAT: { FCDTLookAt* l = (FCDTLookAt*) t; l->SetPosition(b.v3()); l->SetTarget(b.v3()); l->SetUp(b.v3()); maybeAnimate(b, l->GetLookAt(), 0.2); break; }
		case FCDTransform::SKEW: { FCDTSkew* s = (FCDTSkew*) t; s->SetRotateAxis(b.dir()); s->SetAroundAxis(b.dir()); s->SetAngle((float) b.n(-80, 80)); maybeAnimate(b, s->GetSkew(), 0.2); break; }
		default: break;
		}
		if (b.yes(0.3) || t->IsAnimated()) t->SetSubId(fm::string((S("sid") + b.word()).c_str()));
	}
	template <class L> static FCDEntity* pickFrom(Build& b, L* lib) { return lib->GetEntityCount() ? (FCDEntity*) lib->GetEntity(b.rng.below(lib->GetEntityCount())) : nullptr; }
	static void collect(FCDSceneNode* n, std::vector<FCDSceneNode*>& out, FCDSceneNode* from) { if (n->GetParent() != from) return; out.push_back(n); for (size_t i = 0; i < n->GetChildrenCount(); ++i) collect(n->GetChild(i), out, n); }
	static void buildInstance(Build& b, FCDSceneNode* n)
	{
		FCDEntity* e = nullptr;
		switch (b.n(0, 5))
		{
		case 0: e = pickFrom(b, b.doc->GetCameraLibrary()); break;
		case 1: e = pickFrom(b, b.doc->GetLightLibrary()); break;
		case 2: e = pickFrom(b, b.doc->GetGeometryLibrary()); break;
		case 3: e = pickFrom(b, b.doc->GetControllerLibrary()); break;
		case 4: e = pickFrom(b, b.doc->GetEmitterLibrary()); break;
		case 5: e = pickFrom(b, b.doc->GetForceFieldLibrary()); break;
		}
		if (!e) return;
		FCDEntityInstance* in = n->AddInstance(e);
		if (b.yes(0.3)) in->SetName(b.word().c_str());
		if (b.yes(0.3)) in->SetWantedSubId(fm::string((S("in") + b.word()).c_str()));
		if (b.yes(0.3)) buildExtra(b, in->GetExtra(), 1, false);
		if (in->GetType() == FCDEntityInstance::GEOMETRY || in->GetType() == FCDEntityInstance::CONTROLLER)
		{
			FCDGeometryInstance* g = (FCDGeometryInstance*) in;
			int k = b.n(0, 2);
			for (int i = 0; i < k; ++i)
			{
				FCDMaterial* m = (FCDMaterial*) pickFrom(b, b.doc->GetMaterialLibrary()); if (!m) break;
				FCDMaterialInstance* mi = g->AddMaterialInstance(m, (S("sym") + b.word()).c_str());
				int q = b.n(0, 2); for (int j = 0; j < q; ++j) mi->AddBinding((S("sem") + b.word()).c_str(), (S("tgt") + b.word()).c_str());
				q = b.n(0, 2); for (int j = 0; j < q; ++j) mi->AddVertexInputBinding((S("vs") + b.word()).c_str(), b.yes() ? FUDaeGeometryInput::TEXCOORD : FUDaeGeometryInput::COLOR, b.n(0, 5));
			}
			if (g->GetMaterialInstanceCount() > 0 && b.yes(0.3))
			{
				static const FCDEffectParameter::Type kinds[] = {FCDEffectParameter::FLOAT, FCDEffectParameter::VECTOR, FCDEffectParameter::FLOAT3};
				for (int np = b.n(1, 2); np > 0; --np) { FCDEffectParameter* ep = g->AddEffectParameter(kinds[b.n(0, 2)]); ep->SetAnimator(); ep->SetReference((S("par") + b.word()).c_str()); ep->SetSemantic((S("SEM") + b.word()).c_str()); trace("bound parameter"); }
			}
		}
		if (in->GetType() == FCDEntityInstance::CONTROLLER)
		{
			// Bind the joints of the skin to nodes of this scene: one node for each joint name.
			FCDControllerInstance* c = (FCDControllerInstance*) in; FCDEntity* at = e; FCDSkinController* skin = nullptr;
			while (at && at->GetType() == FCDEntity::CONTROLLER && !skin) { FCDController* k = (FCDController*) at; if (k->IsSkin()) skin = k->GetSkinController(); else at = k->GetBaseTarget(); }
			FCDSceneNode* root = n; while (root->GetParent()) root = root->GetParent();
			std::vector<FCDSceneNode*> bound;
			for (size_t j = 0; skin && j < skin->GetJointCount(); ++j)
			{
				std::vector<FCDSceneNode*> all; collect(root, all, nullptr);
				FCDSceneNode* node = nullptr; for (auto* x : all) if (x->GetSubId() == skin->GetJoint(j)->GetId()) node = x;
				if (!node)
				{
					FCDSceneNode* under = bound.empty() || b.yes(0.4) ? root : bound[b.rng.below(bound.size())];
					node = under->AddChildNode(); node->SetSubId(skin->GetJoint(j)->GetId()); node->SetName(node->GetDaeId().c_str()); if (b.yes(0.5)) buildTransform(b, node);
				}
				c->AddJoint(node); bound.push_back(node);
			}
			c->CalculateRootIds(); if (!bound.empty()) trace("skeleton");
		}
	}
	void buildScene(Build& b)
	{
		FCDSceneNode* root = b.yes(0.6) || !b.doc->GetVisualSceneInstance() ? b.doc->AddVisualScene() : b.doc->GetVisualSceneInstance();
		if (b.yes()) { root->SetName(b.text().c_str()); if (b.yes(0.3)) buildExtra(b, root->GetExtra()); }
		else root->SetName(root->GetDaeId().c_str());
		std::vector<FCDSceneNode*> nodes; nodes.push_back(root);
		int count = b.n(1, 2 + 2 * b.size);
		for (int i = 0; i < count; ++i)
		{
			FCDSceneNode* parent = nodes[b.rng.below(nodes.size())]; FCDSceneNode* n = parent->AddChildNode();
			buildEntityCommon(b, n, 0.2);
			if (b.yes(0.3)) n->SetSubId(fm::string((S("node") + b.word()).c_str()));
			n->SetJointFlag(b.yes(0.3)); n->SetVisibility(!b.yes(0.2));
			if (b.anims && b.yes(0.15)) animate(b, n->GetVisibility().GetAnimated(), false);
			int t = b.n(0, 3); for (int k = 0; k < t; ++k) buildTransform(b, n);
			nodes.push_back(n);
		}
		for (auto* n : nodes) if (n != root) { int k = b.n(0, 2); for (int i = 0; i < k; ++i) buildInstance(b, n); }
		// A node under a second parent: an instance of the node.
		for (int shared = nodes.size() > 3 && b.yes(0.4) ? b.n(1, 3) : 0; shared > 0; --shared)
		{
			FCDSceneNode* a = nodes[1 + b.rng.below(nodes.size() - 1)]; FCDSceneNode* c = nodes[1 + b.rng.below(nodes.size() - 1)];
			// no cycles: a must not be below c
			bool below = false; for (FCDSceneNode* p = a; p; p = p->GetParent()) if (p == c) below = true;
			bool already = c->GetParent() == a; for (size_t i = 0; i < a->GetChildrenCount(); ++i) if (a->GetChild(i) == c) already = true;
			std::vector<FCDSceneNode*> sub; collect(c, sub, c->GetParent()); for (auto* s : sub) if (s == a) below = true;
			if (below || already) continue;
			// Half of them with the instance made explicitly, before or after others.
			if (!a->AddChildNode(c)) continue;
			if (b.yes(0.3)) a->AddInstance(c);
			if (b.yes(0.2)) buildInstance(b, a);
		}
		// Targets
		for (size_t i = 0; i < b.doc->GetCameraLibrary()->GetEntityCount(); ++i) if (b.yes(0.3)) b.doc->GetCameraLibrary()->GetEntity(i)->SetTargetNode(nodes[b.rng.below(nodes.size() - 1) + 1]);
		for (size_t i = 0; i < b.doc->GetLightLibrary()->GetEntityCount(); ++i) if (b.yes(0.3)) b.doc->GetLightLibrary()->GetEntity(i)->SetTargetNode(nodes[b.rng.below(nodes.size() - 1) + 1]);
		if (b.yes(0.3))
		{
			FCDLayer* l = b.doc->AddLayer(); l->name = b.word().c_str(); int k = b.n(1, 3); for (int i = 0; i < k; ++i) l->objects.push_back(nodes[b.rng.below(nodes.size())]->GetDaeId());
		}
	}
	void buildAnimationLib(Build& b)
	{
		FCDAnimationClipLibrary* lib = b.doc->GetAnimationClipLibrary();
		std::vector<FCDAnimationCurve*> curves;
		std::function<void(FCDAnimation*)> walk = [&](FCDAnimation* a) { for (size_t i = 0; i < a->GetChannelCount(); ++i) for (size_t k = 0; k < a->GetChannel(i)->GetCurveCount(); ++k) curves.push_back(a->GetChannel(i)->GetCurve(k)); for (size_t i = 0; i < a->GetChildrenCount(); ++i) walk(a->GetChild(i)); };
		for (size_t i = 0; i < b.doc->GetAnimationLibrary()->GetEntityCount(); ++i) walk(b.doc->GetAnimationLibrary()->GetEntity(i));
		if (curves.empty()) return;
		FCDAnimationClip* c = lib->AddEntity(); buildEntityCommon(b, c); c->SetStart(b.pos()); c->SetEnd(b.pos() + 600);
		// A clip covers whole animations: all the curves of the chosen animation.
		FCDAnimation* an = curves[b.rng.below(curves.size())]->GetParent()->GetParent();
		if (b.yes(0.6)) { for (auto* cu : curves) if (cu->GetParent()->GetParent() == an) c->AddClipCurve(cu); }
		else { c->AddInstanceAnimation(an); if (b.yes()) c->SetAnimationName(b.word().c_str(), 0); }
	}
	sim::Op genBuild(Rng& rng, int family, int maxSize, int maxText, int anims)
	{
		return Op("build", {family, (int64_t) rng.below(1000000000), rng.range(1, maxSize), maxText > 3 ? 4 : rng.range(0, maxText), anims});
	}
	void apply(FCDocument* doc, const Op& op)
	{
		Build b(doc, (uint64_t) op.arg(1), (int) std::max<int64_t>(1, op.arg(2, 1)), (int) op.arg(3), (int) op.arg(4));
		switch (op.arg(0))
		{
		case F_INFO: buildDocumentInfo(b); break;
		case F_CAMERA: buildCamera(b); break;
		case F_LIGHT: buildLight(b); break;
		case F_EMITTER: buildEmitter(b); break;
		case F_FORCE: buildForceField(b); break;
		case F_GEOM: buildGeometry(b); break;
		case F_SPLINE: buildSpline(b); break;
		case F_CTRL: buildController(b); break;
		case F_IMAGE: buildImage(b); break;
		case F_MATERIAL: buildMaterial(b); break;
		case F_PHYSICS: buildPhysics(b); break;
		case F_ANIM: buildAnimationLib(b); break;
		case F_SCENE: buildScene(b); break;
		}
	}

	// =============================================================================================
	static Session* cur = nullptr;
	static void onErr(FUError::Level l, uint32 code, uint32 line)
	{
		if (!cur) return;
		if (l == FUError::ERROR_LEVEL) ++cur->err.errors; else if (l == FUError::WARNING_LEVEL) ++cur->err.warnings;
		if (l != FUError::DEBUG_LEVEL) cur->err.list.push_back(strf("%s %u line %u: %s", l == FUError::ERROR_LEVEL ? "ERROR" : "warning", code, line, FUError::GetErrorString((FUError::Code) code)));
	}
	static FUAssertion::FUAssertCallback* acb = nullptr;
	// The first frame of the library outside the assertion machinery: where the assertion stands.
	static S assertSite(S* stack = nullptr)
	{
		void* pcs[24]; int n = backtrace(pcs, 24); S first;
		for (int i = 0; i < n; ++i)
		{
			char buf[1024]; buf[0] = 0; __sanitizer_symbolize_pc((char*) pcs[i] - 1, "%f|%s", buf, sizeof buf);
			S f = buf; size_t bar = f.find('|'); if (bar == S::npos) continue;
			if (f.find("/FCollada") == S::npos || f.find("FUAssert") != S::npos || f.find("FUAssertion::") != S::npos) continue;
			f.resize(bar); size_t par = f.find('('); f = f.substr(0, par);
			if (first.empty()) first = f;
			if (stack) *stack += "\n  at " + f; else break;
		}
		return first.empty() ? "unknown" : first;
	}
	static const char* onAssert(bool)
	{
		if (cur) { ++cur->asserts; if (!cur->assertsAreFatal) { logf("assertion"); return nullptr; } }
		S stack, site = assertSite(&stack); // Slow: it starts a symbolizer.
		logf("assertion in %s", site.c_str());
		if (!cur || cur->assertsAreFatal) violate("assert:" + site, "the library's own assertion failed in %s%s", site.c_str(), stack.c_str());
		return nullptr;
	}
	Session::Session()
	{
		cur = this; open = true;
		if (!acb) acb = new FUAssertion::FUAssertCallback(onAssert);
		FUAssertion::SetAssertionFailedCallback(acb);
		FCollada::Initialize();
		FUError::AddErrorCallback(FUError::ERROR_LEVEL, this, onErr);
		FUError::AddErrorCallback(FUError::WARNING_LEVEL, this, onErr);
	}
	void Session::close()
	{
		if (!open) return; open = false;
		FUError::RemoveErrorCallback(FUError::ERROR_LEVEL, this); FUError::RemoveErrorCallback(FUError::WARNING_LEVEL, this);
		FCollada::Release(); cur = nullptr;
	}
	Session::~Session() { close(); }
	bool save(FCDocument* doc, const S& path) { return FCollada::SaveDocument(doc, path.c_str()); }
	FCDocument* loadNew(const S& path, bool& ok)
	{
		FCDocument* d = FCollada::NewTopDocument(); ok = FCollada::LoadDocumentFromFile(d, path.c_str());
		return d;
	}
}
