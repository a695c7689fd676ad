// Images, materials, effects: description and construction.
#include "model.h"
#include "FCDocument/FCDEffectCode.h"
#include "FCDocument/FCDEffectParameter.h"
#include "FCDocument/FCDEffectParameterSampler.h"
#include "FCDocument/FCDEffectParameterSurface.h"
#include "FCDocument/FCDEffectPass.h"
#include "FCDocument/FCDEffectPassShader.h"
#include "FCDocument/FCDEffectPassState.h"
#include "FCDocument/FCDEffectProfile.h"
#include "FCDocument/FCDEffectProfileFX.h"
#include "FCDocument/FCDEffectStandard.h"
#include "FCDocument/FCDEffectTechnique.h"
#include "FCDocument/FCDTexture.h"
#include "FUtils/FUDaeEnum.h"
using namespace sim;
namespace model
{
	namespace PS = FUDaePassState;
	// The layout of the data of every render state: F function, O stencil operation, B blend type, f face, E equation, M material,
	// g fog mode, c fog coordinate, W winding, C colour control, L logic operation, P polygon mode, S shade model,
	// u uint8, s uint16, I uint32, b bool, r float, 2/3/4 vectors, m matrix, t text, i index byte.
	static const char* stateLayout(PS::State s)
	{
		switch (s)
		{
		case PS::ALPHA_FUNC: return "Fr"; case PS::BLEND_FUNC: return "BB"; case PS::BLEND_FUNC_SEPARATE: return "BBBB"; case PS::BLEND_EQUATION: return "E"; case PS::BLEND_EQUATION_SEPARATE: return "EE";
		case PS::COLOR_MATERIAL: return "fM"; case PS::CULL_FACE: return "f"; case PS::DEPTH_FUNC: return "F"; case PS::FOG_MODE: return "g"; case PS::FOG_COORD_SRC: return "c"; case PS::FRONT_FACE: return "W";
		case PS::LIGHT_MODEL_COLOR_CONTROL: return "C"; case PS::LOGIC_OP: return "L"; case PS::POLYGON_MODE: return "fP"; case PS::SHADE_MODEL: return "S"; case PS::STENCIL_FUNC: return "Fuu"; case PS::STENCIL_OP: return "OOO";
		case PS::STENCIL_FUNC_SEPARATE: return "FFuu"; case PS::STENCIL_OP_SEPARATE: return "fOOO"; case PS::STENCIL_MASK_SEPARATE: return "fu";
		case PS::LIGHT_AMBIENT: case PS::LIGHT_DIFFUSE: case PS::LIGHT_SPECULAR: case PS::LIGHT_POSITION: case PS::TEXTURE_ENV_COLOR: case PS::CLIP_PLANE: return "i4";
		case PS::LIGHT_CONSTANT_ATTENUATION: case PS::LIGHT_LINEAR_ATTENUATION: case PS::LIGHT_QUADRATIC_ATTENUATION: case PS::LIGHT_SPOT_CUTOFF: case PS::LIGHT_SPOT_EXPONENT: return "ir";
		case PS::LIGHT_SPOT_DIRECTION: return "i3";
		case PS::TEXTURE1D: case PS::TEXTURE2D: case PS::TEXTURE3D: case PS::TEXTURECUBE: case PS::TEXTURERECT: case PS::TEXTUREDEPTH: return "iI";
		case PS::LIGHT_ENABLE: case PS::TEXTURE1D_ENABLE: case PS::TEXTURE2D_ENABLE: case PS::TEXTURE3D_ENABLE: case PS::TEXTURECUBE_ENABLE: case PS::TEXTURERECT_ENABLE: case PS::TEXTUREDEPTH_ENABLE: case PS::CLIP_PLANE_ENABLE: return "ib";
		case PS::TEXTURE_ENV_MODE: return "it";
		case PS::BLEND_COLOR: case PS::CLEAR_COLOR: case PS::FOG_COLOR: case PS::LIGHT_MODEL_AMBIENT: case PS::MATERIAL_AMBIENT: case PS::MATERIAL_DIFFUSE: case PS::MATERIAL_EMISSION: case PS::MATERIAL_SPECULAR: case PS::SCISSOR: return "4";
		case PS::POINT_DISTANCE_ATTENUATION: return "3";
		case PS::DEPTH_BOUNDS: case PS::DEPTH_RANGE: case PS::POLYGON_OFFSET: return "2";
		case PS::CLEAR_STENCIL: case PS::STENCIL_MASK: return "I";
		case PS::CLEAR_DEPTH: case PS::FOG_DENSITY: case PS::FOG_START: case PS::FOG_END: case PS::LINE_WIDTH: case PS::MATERIAL_SHININESS: case PS::POINT_FADE_THRESHOLD_SIZE: case PS::POINT_SIZE: case PS::POINT_SIZE_MIN: case PS::POINT_SIZE_MAX: return "r";
		case PS::COLOR_MASK: return "bbbb"; case PS::LINE_STIPPLE: return "ss"; case PS::MODEL_VIEW_MATRIX: case PS::PROJECTION_MATRIX: return "m";
		default: return "b";
		}
	}
	static std::vector<uint32> enumValues(char c)
	{
		using namespace FUDaePassStateBlendType;
		switch (c)
		{
		case 'F': return {FUDaePassStateFunction::NEVER, FUDaePassStateFunction::LESS, FUDaePassStateFunction::EQUAL, FUDaePassStateFunction::LESS_EQUAL, FUDaePassStateFunction::GREATER, FUDaePassStateFunction::NOT_EQUAL, FUDaePassStateFunction::GREATER_EQUAL, FUDaePassStateFunction::ALWAYS};
		case 'O': return {FUDaePassStateStencilOperation::KEEP, FUDaePassStateStencilOperation::ZERO, FUDaePassStateStencilOperation::REPLACE, FUDaePassStateStencilOperation::INCREMENT, FUDaePassStateStencilOperation::DECREMENT, FUDaePassStateStencilOperation::INVERT, FUDaePassStateStencilOperation::INCREMENT_WRAP, FUDaePassStateStencilOperation::DECREMENT_WRAP};
		case 'B': return {ZERO, ONE, SOURCE_COLOR, ONE_MINUS_SOURCE_COLOR, DESTINATION_COLOR, ONE_MINUS_DESTINATION_COLOR, SOURCE_ALPHA, ONE_MINUS_SOURCE_ALPHA, DESTINATION_ALPHA, ONE_MINUS_DESTINATION_ALPHA, CONSTANT_COLOR, ONE_MINUS_CONSTANT_COLOR, CONSTANT_ALPHA, ONE_MINUS_CONSTANT_ALPHA, SOURCE_ALPHA_SATURATE};
		case 'f': return {FUDaePassStateFaceType::FRONT, FUDaePassStateFaceType::BACK, FUDaePassStateFaceType::FRONT_AND_BACK};
		case 'E': return {FUDaePassStateBlendEquation::ADD, FUDaePassStateBlendEquation::SUBTRACT, FUDaePassStateBlendEquation::REVERSE_SUBTRACT, FUDaePassStateBlendEquation::MIN, FUDaePassStateBlendEquation::MAX};
		case 'M': return {FUDaePassStateMaterialType::EMISSION, FUDaePassStateMaterialType::AMBIENT, FUDaePassStateMaterialType::DIFFUSE, FUDaePassStateMaterialType::SPECULAR, FUDaePassStateMaterialType::AMBIENT_AND_DIFFUSE};
		case 'g': return {FUDaePassStateFogType::LINEAR, FUDaePassStateFogType::EXP, FUDaePassStateFogType::EXP2};
		case 'c': return {FUDaePassStateFogCoordinateType::FOG_COORDINATE, FUDaePassStateFogCoordinateType::FRAGMENT_DEPTH};
		case 'W': return {FUDaePassStateFrontFaceType::CLOCKWISE, FUDaePassStateFrontFaceType::COUNTER_CLOCKWISE};
		case 'C': return {FUDaePassStateLightModelColorControlType::SINGLE_COLOR, FUDaePassStateLightModelColorControlType::SEPARATE_SPECULAR_COLOR};
		case 'L': return {FUDaePassStateLogicOperation::CLEAR, FUDaePassStateLogicOperation::AND, FUDaePassStateLogicOperation::AND_REVERSE, FUDaePassStateLogicOperation::COPY, FUDaePassStateLogicOperation::AND_INVERTED, FUDaePassStateLogicOperation::NOOP, FUDaePassStateLogicOperation::XOR, FUDaePassStateLogicOperation::OR, FUDaePassStateLogicOperation::NOR, FUDaePassStateLogicOperation::EQUIV, FUDaePassStateLogicOperation::INVERT, FUDaePassStateLogicOperation::OR_REVERSE, FUDaePassStateLogicOperation::COPY_INVERTED, FUDaePassStateLogicOperation::NAND, FUDaePassStateLogicOperation::SET};
		case 'P': return {FUDaePassStatePolygonMode::POINT, FUDaePassStatePolygonMode::LINE, FUDaePassStatePolygonMode::FILL};
		case 'S': return {FUDaePassStateShadeModel::FLAT, FUDaePassStateShadeModel::SMOOTH};
		}
		return {};
	}
	static S stateText(FCDEffectPassState* st)
	{
		const uint8* p = st->GetData(); S o;
		auto fl = [&](int n) { for (int i = 0; i < n; ++i, p += 4) { float v; memcpy(&v, p, 4); o += strf("%.7g ", v); } };
		for (const char* l = stateLayout(st->GetType()); *l; ++l) switch (*l)
		{
		case 'u': case 'i': o += strf("%d ", *p); ++p; break;
		case 'b': o += *p ? "true " : "false "; ++p; break;
		case 's': { uint16 v; memcpy(&v, p, 2); o += strf("%d ", v); p += 2; break; }
		case 'I': { uint32 v; memcpy(&v, p, 4); o += strf("%u ", v); p += 4; break; }
		case 'r': fl(1); break; case '2': fl(2); break; case '3': fl(3); break; case '4': fl(4); break; case 'm': fl(16); break;
		case 't': { o += S((const char*) p, strnlen((const char*) p, 254)); break; }
		default: { uint32 v; memcpy(&v, p, 4); o += strf("%#x ", v); p += 4; break; }
		}
		return o;
	}
	static void fillState(Build& b, FCDEffectPassState* st)
	{
		uint8* p = st->GetData();
		auto fl = [&](int n) { for (int i = 0; i < n; ++i, p += 4) { float v = b.f(); memcpy(p, &v, 4); } };
		for (const char* l = stateLayout(st->GetType()); *l; ++l) switch (*l)
		{
		case 'u': *p++ = (uint8) b.n(0, 255); break;
		case 'i': *p++ = (uint8) b.n(0, 31); break;
		case 'b': *(bool*) p = b.yes(); ++p; break;
		case 's': { uint16 v = (uint16) b.n(0, 65535); memcpy(p, &v, 2); p += 2; break; }
		case 'I': { uint32 v = (uint32) b.n(0, 100000); memcpy(p, &v, 4); p += 4; break; }
		case 'r': fl(1); break; case '2': fl(2); break; case '3': fl(3); break; case '4': fl(4); break; case 'm': fl(16); break;
		case 't': { S w = b.word(); memset(p, 0, 255); memcpy(p, w.data(), std::min<size_t>(w.size(), 200)); break; }
		default: { std::vector<uint32> e = enumValues(*l); uint32 v = e[b.rng.below(e.size())]; memcpy(p, &v, 4); p += 4; break; }
		}
	}

	// ---- description ------------------------------------------------------------------------------------------
	static S imageRef(const FCDImage* i) { return i ? S(i->GetDaeId().c_str()) : S("(none)"); }
	static void dumpSurface(Dump& d, const S& p, FCDEffectParameterSurface* s)
	{
		d.kv(p + ".surfacetype", s->GetSurfaceType().c_str());
		FCDEffectParameterSurfaceInit* in = s->GetInitMethod();
		d.ki(p + ".init", in ? (int) in->GetInitType() : -1);
		S im; for (size_t i = 0; i < s->GetImageCount(); ++i) im += imageRef(s->GetImage(i)) + " ";
		d.kv(p + ".images", im);
		if (in && in->GetInitType() == FCDEffectParameterSurfaceInitFactory::FROM)
		{
			auto* f = (FCDEffectParameterSurfaceInitFrom*) in; S t;
			for (auto* l : {&f->mip, &f->slice, &f->face}) { for (size_t i = 0; i < l->size(); ++i) t += S((*l)[i].c_str()) + " "; t += "/ "; }
			d.kv(p + ".from", t);
		}
		if (in && in->GetInitType() == FCDEffectParameterSurfaceInitFactory::CUBE) d.ki(p + ".cube", ((FCDEffectParameterSurfaceInitCube*) in)->cubeType);
		if (in && in->GetInitType() == FCDEffectParameterSurfaceInitFactory::VOLUME) d.ki(p + ".volume", ((FCDEffectParameterSurfaceInitVolume*) in)->volumeType);
		d.kv(p + ".format", s->GetFormat().c_str());
		if (FCDFormatHint* h = s->GetFormatHint()) { S o; for (size_t i = 0; i < h->options.size(); ++i) o += strf("%d ", (int) h->options[i]); d.kv(p + ".hint", strf("%d %d %d options %s", (int) h->channels, (int) h->range, (int) h->precision, o.c_str())); }
		FMVector3 z = s->GetSize(); d.kv(p + ".size", strf("%.7g %.7g %.7g", z.x, z.y, z.z));
		if (z.x == 0 && z.y == 0 && z.z == 0) d.kf(p + ".viewport", s->GetViewportRatio());
		d.ki(p + ".mips", s->GetMipLevelCount());
		d.ki(p + ".genmips", s->IsGenerateMipMaps());
	}
	void dumpEffectParameter(Dump& d, const S& p, FCDEffectParameter* e)
	{
		d.ki(p + ".type", e->GetType()); d.ki(p + ".kind", e->GetParamType()); d.kv(p + ".ref", e->GetReference().c_str());
		if (e->IsGenerator() || e->IsAnimator()) d.kv(p + ".semantic", e->GetSemantic().c_str());
		for (size_t i = 0; i < e->GetAnnotationCount(); ++i)
		{
			FCDEffectParameterAnnotation* a = e->GetAnnotation(i);
			d.kv(p + strf(".annotation[%zu]", i), S(a->name->c_str()) + strf(" type %d = ", (int) (uint32) a->type) + a->value->c_str());
		}
		if (e->IsReferencer() || e->IsAnimator()) return;
		switch (e->GetType())
		{
		case FCDEffectParameter::INTEGER: d.ki(p + ".value", ((FCDEffectParameterInt*) e)->GetValue()); break;
		case FCDEffectParameter::BOOLEAN: d.ki(p + ".value", ((FCDEffectParameterBool*) e)->GetValue() ? 1 : 0); break;
		case FCDEffectParameter::STRING: d.kv(p + ".value", ((FCDEffectParameterString*) e)->GetValue().c_str()); break;
		case FCDEffectParameter::FLOAT: { auto* x = (FCDEffectParameterFloat*) e; d.ki(p + ".half", x->GetFloatType()); d.kf(p + ".value", *x->GetValue()); dumpParamAnim(d, p + ".value", ((const FCDEffectParameterFloat*) x)->GetValue()); break; }
		case FCDEffectParameter::FLOAT2: { auto* x = (FCDEffectParameterFloat2*) e; d.ki(p + ".half", x->GetFloatType()); FMVector2 v = *x->GetValue(); d.kv(p + ".value", strf("%.7g %.7g", v.x, v.y)); break; }
		case FCDEffectParameter::FLOAT3: { auto* x = (FCDEffectParameterFloat3*) e; d.ki(p + ".half", x->GetFloatType()); FMVector3 v = *x->GetValue(); d.kv(p + ".value", strf("%.7g %.7g %.7g", v.x, v.y, v.z)); dumpParamAnim(d, p + ".value", ((const FCDEffectParameterFloat3*) x)->GetValue()); break; }
		case FCDEffectParameter::VECTOR: { auto* x = (FCDEffectParameterVector*) e; d.ki(p + ".half", x->GetFloatType()); FMVector4 v = *x->GetValue(); d.kv(p + ".value", strf("%.7g %.7g %.7g %.7g", v.x, v.y, v.z, v.w)); dumpParamAnim(d, p + ".value", ((const FCDEffectParameterVector*) x)->GetValue()); break; }
		case FCDEffectParameter::MATRIX: { auto* x = (FCDEffectParameterMatrix*) e; d.ki(p + ".half", x->GetFloatType()); d.floats(p + ".value", (const float*) *x->GetValue(), 16); break; }
		case FCDEffectParameter::SAMPLER:
		{
			auto* s = (FCDEffectParameterSampler*) e; d.ki(p + ".samplertype", s->GetSamplerType());
			d.kv(p + ".surface", s->GetSurface() ? s->GetSurface()->GetReference().c_str() : "(none)");
			d.ki(p + ".wraps", s->GetWrapS());
			if (s->GetSamplerType() != FCDEffectParameterSampler::SAMPLER1D) d.ki(p + ".wrapt", s->GetWrapT());
			if (s->GetSamplerType() == FCDEffectParameterSampler::SAMPLER3D || s->GetSamplerType() == FCDEffectParameterSampler::SAMPLERCUBE) d.ki(p + ".wrapp", s->GetWrapP());
			d.kv(p + ".filters", strf("%d %d %d", s->GetMinFilter(), s->GetMagFilter(), s->GetMipFilter()));
			break;
		}
		case FCDEffectParameter::SURFACE: dumpSurface(d, p, (FCDEffectParameterSurface*) e); break;
		default: break;
		}
	}
	template <class T> static void dumpParams(Dump& d, const S& p, T* owner) { for (size_t i = 0; i < owner->GetEffectParameterCount(); ++i) dumpEffectParameter(d, p + strf(".param[%zu]", i), owner->GetEffectParameter(i)); }
	static void dumpCode(Dump& d, const S& p, FCDEffectCode* c)
	{
		d.kv(p + ".sid", c->GetSubId().c_str()); d.ki(p + ".type", c->GetType());
		d.kv(p + ".text", c->GetType() == FCDEffectCode::CODE ? c->GetCode().c_str() : c->GetFilename().c_str());
	}
	static void dumpTexture(Dump& d, const S& p, FCDTexture* t)
	{
		FCDEffectParameterSampler* s = t->HasSampler() ? t->GetSampler() : nullptr;
		d.kv(p + ".sampler", s ? s->GetReference().c_str() : "(none)"); d.kv(p + ".image", imageRef(t->GetImage()));
		d.kv(p + ".set", t->GetSet()->GetSemantic().c_str());
		dumpExtra(d, p + ".extra", t->GetExtra());
	}
	static void dumpColor(Dump& d, const S& p, FCDEffectParameterColor4* c)
	{
		if (c->IsReferencer()) { d.kv(p + ".ref", c->GetReference().c_str()); return; }
		FMVector4 v = *c->GetValue(); d.kv(p, strf("%.7g %.7g %.7g %.7g", v.x, v.y, v.z, v.w)); dumpParamAnim(d, p, ((const FCDEffectParameterColor4*) c)->GetValue());
	}
	static void dumpFloat(Dump& d, const S& p, FCDEffectParameterFloat* c)
	{
		if (c->IsReferencer()) { d.kv(p + ".ref", c->GetReference().c_str()); return; }
		d.kf(p, *c->GetValue()); dumpParamAnim(d, p, ((const FCDEffectParameterFloat*) c)->GetValue());
	}
	static bool usesBucket(FCDEffectStandard* s, int k)
	{
		int t = s->GetLightingType(); bool lam = t != FCDEffectStandard::CONSTANT, spec = t == FCDEffectStandard::PHONG || t == FCDEffectStandard::BLINN;
		switch (k)
		{
		case FUDaeTextureChannel::AMBIENT: case FUDaeTextureChannel::DIFFUSE: return lam;
		case FUDaeTextureChannel::SPECULAR: case FUDaeTextureChannel::SPECULAR_LEVEL: case FUDaeTextureChannel::SHININESS: return spec;
		case FUDaeTextureChannel::EMISSION: return !s->IsEmissionFactor();
		case FUDaeTextureChannel::REFLECTION: return s->IsReflective();
		case FUDaeTextureChannel::REFRACTION: return s->IsRefractive();
		case FUDaeTextureChannel::TRANSPARENT: case FUDaeTextureChannel::BUMP: case FUDaeTextureChannel::DISPLACEMENT: case FUDaeTextureChannel::FILTER: return true;
		}
		return false;
	}
	static void dumpStandard(Dump& d, const S& p, FCDEffectStandard* s)
	{
		d.ki(p + ".lighting", s->GetLightingType());
		int t = s->GetLightingType(); bool lam = t != FCDEffectStandard::CONSTANT, spec = t == FCDEffectStandard::PHONG || t == FCDEffectStandard::BLINN;
		for (int k = 0; k < FUDaeTextureChannel::COUNT; ++k)
			if (usesBucket(s, k)) for (size_t i = 0; i < s->GetTextureCount((uint32) k); ++i) dumpTexture(d, p + strf(".bucket%d[%zu]", k, i), s->GetTexture((uint32) k, i));
		d.ki(p + ".emissionfactored", s->IsEmissionFactor());
		auto none = [&](int k) { return s->GetTextureCount((uint32) k) == 0; };
		if (s->IsEmissionFactor()) dumpFloat(d, p + ".emissionfactor", s->GetEmissionFactorParam()); else if (none(FUDaeTextureChannel::EMISSION)) dumpColor(d, p + ".emission", s->GetEmissionColorParam());
		if (lam) { if (none(FUDaeTextureChannel::AMBIENT)) dumpColor(d, p + ".ambient", s->GetAmbientColorParam()); if (none(FUDaeTextureChannel::DIFFUSE)) dumpColor(d, p + ".diffuse", s->GetDiffuseColorParam()); }
		if (spec)
		{
			if (none(FUDaeTextureChannel::SPECULAR)) dumpColor(d, p + ".specular", s->GetSpecularColorParam());
			if (none(FUDaeTextureChannel::SHININESS)) dumpFloat(d, p + ".shininess", s->GetShininessParam());
			if (none(FUDaeTextureChannel::SPECULAR_LEVEL)) dumpFloat(d, p + ".specularlevel", s->GetSpecularFactorParam());
		}
		d.ki(p + ".reflective", s->IsReflective());
		if (s->IsReflective()) { if (none(FUDaeTextureChannel::REFLECTION)) dumpColor(d, p + ".reflectivity", s->GetReflectivityColorParam()); dumpFloat(d, p + ".reflectivityfactor", s->GetReflectivityFactorParam()); }
		d.ki(p + ".refractive", s->IsRefractive());
		if (s->IsRefractive() && none(FUDaeTextureChannel::REFRACTION)) dumpFloat(d, p + ".refraction", s->GetIndexOfRefractionParam());
		d.ki(p + ".transparency", s->GetTransparencyMode());
		if (none(FUDaeTextureChannel::TRANSPARENT)) dumpColor(d, p + ".translucency", s->GetTranslucencyColorParam());
		dumpFloat(d, p + ".translucencyfactor", s->GetTranslucencyFactorParam());
	}
	void dumpMaterials(Dump& d, FCDocument* doc, int flags)
	{
		for (size_t i = 0; i < doc->GetImageLibrary()->GetEntityCount(); ++i)
		{
			FCDImage* m = doc->GetImageLibrary()->GetEntity(i); S p = strf("image[%zu]", i);
			dumpEntity(d, p, m, flags);
			d.kv(p + ".file", m->GetFilename().c_str()); d.kv(p + ".dims", strf("%u %u %u", m->GetWidth(), m->GetHeight(), m->GetDepth()));
		}
		for (size_t i = 0; i < doc->GetMaterialLibrary()->GetEntityCount(); ++i)
		{
			FCDMaterial* m = doc->GetMaterialLibrary()->GetEntity(i); S p = strf("material[%zu]", i);
			dumpEntity(d, p, m, flags);
			d.kv(p + ".effect", m->GetEffect() ? m->GetEffect()->GetDaeId().c_str() : "(none)");
			if (!m->GetEffect()) continue;
			for (size_t k = 0; k < m->GetTechniqueHints().size(); ++k) d.kv(p + strf(".hint[%zu]", k), S(m->GetTechniqueHints()[k].platform.c_str()) + "/" + m->GetTechniqueHints()[k].technique.c_str());
			dumpParams(d, p, m);
		}
		for (size_t i = 0; i < doc->GetEffectLibrary()->GetEntityCount(); ++i)
		{
			FCDEffect* e = doc->GetEffectLibrary()->GetEntity(i); S p = strf("effect[%zu]", i);
			dumpEntity(d, p, e, flags); dumpParams(d, p, e);
			for (size_t k = 0; k < e->GetProfileCount(); ++k)
			{
				FCDEffectProfile* pr = e->GetProfile(k); S q = p + strf(".profile[%zu]", k);
				d.ki(q + ".type", pr->GetType()); dumpParams(d, q, pr); dumpExtra(d, q + ".extra", pr->GetExtra());
				if (pr->GetType() == FUDaeProfileType::COMMON) { dumpStandard(d, q, (FCDEffectStandard*) pr); continue; }
				FCDEffectProfileFX* fx = (FCDEffectProfileFX*) pr; d.kv(q + ".platform", fx->GetPlatform().c_str());
				for (size_t c = 0; c < fx->GetCodeCount(); ++c) dumpCode(d, q + strf(".code[%zu]", c), fx->GetCode(c));
				for (size_t t = 0; t < fx->GetTechniqueCount(); ++t)
				{
					FCDEffectTechnique* te = fx->GetTechnique(t); S r = q + strf(".technique[%zu]", t);
					d.kv(r + ".name", te->GetName().c_str()); dumpParams(d, r, te);
					for (size_t c = 0; c < te->GetCodeCount(); ++c) dumpCode(d, r + strf(".code[%zu]", c), te->GetCode(c));
					for (size_t s = 0; s < te->GetPassCount(); ++s)
					{
						FCDEffectPass* pa = te->GetPass(s); S u = r + strf(".pass[%zu]", s); d.kv(u + ".name", pa->GetPassName().c_str());
						for (size_t x = 0; x < pa->GetRenderStateCount(); ++x) d.kv(u + strf(".state[%zu]", x), S(FUDaePassState::ToString(pa->GetRenderState(x)->GetType())) + " " + stateText(pa->GetRenderState(x)));
						for (size_t x = 0; x < pa->GetShaderCount(); ++x)
						{
							FCDEffectPassShader* sh = pa->GetShader(x); S v = u + strf(".shader[%zu]", x);
							d.kv(v + ".name", sh->GetName().c_str()); d.ki(v + ".fragment", sh->IsFragmentShader()); d.kv(v + ".target", sh->GetCompilerTarget().c_str()); d.kv(v + ".options", sh->GetCompilerOptions().c_str());
							d.kv(v + ".code", sh->GetCode() ? sh->GetCode()->GetSubId().c_str() : "(none)");
							for (size_t y = 0; y < sh->GetBindingCount(); ++y) d.kv(v + strf(".bind[%zu]", y), S(sh->GetBinding(y)->reference->c_str()) + " to " + sh->GetBinding(y)->symbol->c_str());
						}
					}
				}
			}
		}
	}

	// ---- construction -----------------------------------------------------------------------------------------
	void buildImage(Build& b)
	{
		int k = b.n(1, 1 + b.size);
		for (int i = 0; i < k; ++i)
		{
			FCDImage* m = b.doc->GetImageLibrary()->AddEntity(); buildEntityCommon(b, m);
			m->SetFilename(fstring((S("/pictures/") + b.word() + ".png").c_str()));
			if (b.yes(0.3)) m->SetWidth((uint32) b.n(1, 4096)); if (b.yes(0.3)) m->SetHeight((uint32) b.n(1, 4096)); if (b.yes(0.2)) m->SetDepth((uint32) b.n(1, 64));
		}
	}
	static FCDImage* anyImage(Build& b)
	{
		size_t n = b.doc->GetImageLibrary()->GetEntityCount(); return n ? b.doc->GetImageLibrary()->GetEntity(b.rng.below(n)) : nullptr;
	}
	static void fillSurface(Build& b, FCDEffectParameterSurface* s)
	{
		static const char* types[] = {"1D", "2D", "3D", "RECT", "CUBE", "DEPTH"};
		if (b.yes(0.7)) s->SetSurfaceType(types[b.n(0, 5)]);
		int k = b.n(0, 7); FCDImage* im = anyImage(b); typedef FCDEffectParameterSurfaceInitFactory F;
		std::vector<FCDImage*> six; for (size_t i = 0; i < b.doc->GetImageLibrary()->GetEntityCount() && six.size() < 6; ++i) six.push_back(b.doc->GetImageLibrary()->GetEntity(i));
		switch (k)
		{
		case 0: break;
		case 1: case 2: case 3: if (im)
		{
			auto* f = (FCDEffectParameterSurfaceInitFrom*) F::Create(F::FROM); s->SetInitMethod(f); s->AddImage(im);
			static const char* faces[] = {"POSITIVE_X", "NEGATIVE_X", "POSITIVE_Y", "NEGATIVE_Y", "POSITIVE_Z", "NEGATIVE_Z"};
			if (b.yes(0.4)) for (auto* x : six) s->AddImage(x);
			if (b.yes(0.4))
			{
				int what = b.n(1, 7);
				for (size_t i = 0; i < s->GetImageCount(); ++i)
				{
					if (what & 1) f->mip.push_back(strf("%d", b.n(0, 9)).c_str());
					if (what & 2) f->slice.push_back(strf("%d", b.n(0, 9)).c_str());
					if (what & 4) f->face.push_back(faces[b.n(0, 5)]);
				}
			}
			break;
		} break;
		case 4: s->SetInitMethod(F::Create(b.yes() ? F::AS_NULL : F::AS_TARGET)); break;
		case 5: if (im)
		{
			auto* c = (FCDEffectParameterSurfaceInitCube*) F::Create(F::CUBE); s->SetInitMethod(c);
			c->cubeType = six.size() == 6 && b.yes() ? FCDEffectParameterSurfaceInitCube::FACE : b.yes() ? FCDEffectParameterSurfaceInitCube::ALL : FCDEffectParameterSurfaceInitCube::PRIMARY;
			if (c->cubeType == FCDEffectParameterSurfaceInitCube::FACE) for (auto* x : six) s->AddImage(x); else s->AddImage(im);
			break;
		} break;
		case 6: if (im) { auto* v = (FCDEffectParameterSurfaceInitVolume*) F::Create(F::VOLUME); s->SetInitMethod(v); v->volumeType = b.yes() ? FCDEffectParameterSurfaceInitVolume::ALL : FCDEffectParameterSurfaceInitVolume::PRIMARY; s->AddImage(im); } break;
		case 7: if (im) { s->SetInitMethod(F::Create(F::PLANAR)); s->AddImage(im); } break;
		}
		if (b.yes(0.3)) s->SetFormat(b.word().c_str());
		if (b.yes(0.3))
		{
			FCDFormatHint* h = s->AddFormatHint(); h->channels = (FCDFormatHint::channelValues) b.n(1, 7); h->range = (FCDFormatHint::rangeValue) b.n(1, 6); h->precision = (FCDFormatHint::precisionValue) b.n(1, 3);
			int n = b.n(0, 3); for (int i = 0; i < n; ++i) h->options.push_back((FCDFormatHint::optionValue) b.n(0, 3));
		}
		if (b.yes(0.3)) s->SetSize(FMVector3((float) b.n(1, 512), (float) b.n(0, 512), (float) b.n(0, 512)));
		else if (b.yes(0.5)) s->SetViewportRatio(b.pos());
		if (b.yes(0.3)) s->SetMipLevelCount((uint16) b.n(1, 12));
		if (b.yes(0.2)) s->SetGenerateMipMaps(true);
	}
	// surfaces: those the sampler may use, by level.
	static FCDEffectParameter* fillParam(Build& b, FCDEffectParameter* e, bool modifier, std::vector<FCDEffectParameterSurface*>& surfaces, std::vector<FCDEffectParameterSampler*>& samplers)
	{
		if (modifier) e->SetModifier(); else e->SetGenerator();
		e->SetReference((S("ref") + b.word()).c_str());
		if (!modifier && b.yes(0.4)) e->SetSemantic((S("SEM") + b.word()).c_str());
		int na = b.yes(0.3) ? b.n(1, 3) : 0;
		for (int i = 0; i < na; ++i)
		{
			fstring n = (S("note") + b.word()).c_str();
			switch (b.n(0, 3))
			{
			case 0: e->AddAnnotation(n, FCDEffectParameter::BOOLEAN, b.yes() ? FC("true") : FC("false")); break;
			case 1: e->AddAnnotation(n, FCDEffectParameter::STRING, fstring(b.text().c_str())); break;
			case 2: e->AddAnnotation(n, FCDEffectParameter::INTEGER, fstring(strf("%d", b.n(-999, 999)).c_str())); break;
			case 3: e->AddAnnotation(n, FCDEffectParameter::FLOAT, fstring(strf("%g", b.f()).c_str())); break;
			}
		}
		switch (e->GetType())
		{
		case FCDEffectParameter::INTEGER: ((FCDEffectParameterInt*) e)->SetValue(b.n(-100000, 100000)); break;
		case FCDEffectParameter::BOOLEAN: ((FCDEffectParameterBool*) e)->SetValue(b.yes()); break;
		case FCDEffectParameter::STRING: ((FCDEffectParameterString*) e)->SetValue(b.text().c_str()); break;
		case FCDEffectParameter::FLOAT: { auto* x = (FCDEffectParameterFloat*) e; x->SetValue(b.f()); if (b.yes(0.3)) x->SetFloatType(FCDEffectParameterFloat::HALF); maybeAnimate(b, x->GetValue(), modifier ? 0 : 0.3); break; }
		case FCDEffectParameter::FLOAT2: { auto* x = (FCDEffectParameterFloat2*) e; float u = b.f(), v = b.f(); x->SetValue(FMVector2(u, v)); if (b.yes(0.3)) x->SetFloatType(FCDEffectParameterFloat2::HALF); break; }
		case FCDEffectParameter::FLOAT3: { auto* x = (FCDEffectParameterFloat3*) e; x->SetValue(b.v3()); if (b.yes(0.3)) x->SetFloatType(FCDEffectParameterFloat3::HALF); maybeAnimate(b, x->GetValue(), modifier ? 0 : 0.3); break; }
		case FCDEffectParameter::VECTOR: { auto* x = (FCDEffectParameterVector*) e; x->SetValue(b.v4()); if (b.yes(0.3)) x->SetFloatType(FCDEffectParameterVector::HALF); maybeAnimate(b, x->GetValue(), modifier ? 0 : 0.3); break; }
		case FCDEffectParameter::MATRIX: { auto* x = (FCDEffectParameterMatrix*) e; FMMatrix44 m; for (int i = 0; i < 16; ++i) ((float*) m)[i] = b.f(); x->SetValue(m); if (b.yes(0.3)) x->SetFloatType(FCDEffectParameterMatrix::HALF); break; }
		case FCDEffectParameter::SURFACE: fillSurface(b, (FCDEffectParameterSurface*) e); surfaces.push_back((FCDEffectParameterSurface*) e); break;
		case FCDEffectParameter::SAMPLER:
		{
			auto* s = (FCDEffectParameterSampler*) e; s->SetSamplerType((FCDEffectParameterSampler::SamplerType) b.n(0, 3));
			if (!surfaces.empty() && b.yes(0.8)) s->SetSurface(surfaces[b.rng.below(surfaces.size())]);
			auto w = [&] { return (FUDaeTextureWrapMode::WrapMode) b.n(FUDaeTextureWrapMode::NONE, FUDaeTextureWrapMode::BORDER); };
			auto f = [&] { return (FUDaeTextureFilterFunction::FilterFunction) b.n(FUDaeTextureFilterFunction::NONE, FUDaeTextureFilterFunction::LINEAR_MIPMAP_LINEAR); };
			if (b.yes(0.6)) { s->SetWrapS(w()); s->SetWrapT(w()); s->SetWrapP(w()); }
			if (b.yes(0.6)) { s->SetMinFilter(f()); s->SetMagFilter(f()); s->SetMipFilter(f()); }
			samplers.push_back(s);
			break;
		}
		default: break;
		}
		return e;
	}
	template <class T> static void buildParams(Build& b, T* owner, bool modifier, std::vector<FCDEffectParameterSurface*>& surfaces, std::vector<FCDEffectParameterSampler*>& samplers, std::vector<FCDEffectParameter*>* all, int most)
	{
		int n = b.n(0, most);
		for (int i = 0; i < n; ++i)
		{
			int t = b.n(0, 11); if (t >= 10) t = b.yes() ? FCDEffectParameter::SURFACE : FCDEffectParameter::SAMPLER;
			FCDEffectParameter* e = owner->AddEffectParameter((uint32) t); if (!e) continue;
			fillParam(b, e, modifier, surfaces, samplers); if (all) all->push_back(e);
		}
	}
	static void fillCode(Build& b, FCDEffectCode* c)
	{
		c->SetSubId((S("code") + b.word()).c_str());
		if (b.yes(0.6)) { c->SetType(FCDEffectCode::CODE); c->SetCode(fstring((b.text() + "x").c_str())); }
		else { c->SetType(FCDEffectCode::INCLUDE); c->SetFilename(fstring((S("/shaders/") + b.word() + ".cg").c_str())); }
	}
	static void buildStandard(Build& b, FCDEffectStandard* s, std::vector<FCDEffectParameterSampler*> samplers, std::vector<FCDEffectParameter*> all)
	{
		s->SetLightingType((FCDEffectStandard::LightingType) b.n(FCDEffectStandard::CONSTANT, FCDEffectStandard::BLINN));
		int t = s->GetLightingType(); bool lam = t != FCDEffectStandard::CONSTANT, spec = t == FCDEffectStandard::PHONG || t == FCDEffectStandard::BLINN;
		s->SetIsEmissionFactor(b.yes(0.15)); s->SetReflective(b.yes(0.4)); s->SetRefractive(b.yes(0.4));
		s->SetTransparencyMode(b.yes() ? FCDEffectStandard::A_ONE : FCDEffectStandard::RGB_ZERO);
		std::vector<FCDEffectParameter*> floats, colors; for (auto* p : all) { if (p->GetType() == FCDEffectParameter::FLOAT) floats.push_back(p); if (p->GetType() == FCDEffectParameter::VECTOR) colors.push_back(p); }
		auto color = [&](FCDEffectParameterColor4* c, int bucket)
		{
			if (!colors.empty() && b.yes(0.15) && (bucket < 0 || !s->GetTextureCount((uint32) bucket))) { c->SetReferencer(); c->SetReference(colors[b.rng.below(colors.size())]->GetReference().c_str()); return; }
			float x = b.unit01(), y = b.unit01(), z = b.unit01(), w = b.unit01(); c->SetValue(FMVector4(x, y, z, w));
			if (bucket < 0 || !s->GetTextureCount((uint32) bucket)) maybeAnimate(b, c->GetValue(), 0.25);
		};
		auto flt = [&](FCDEffectParameterFloat* c, float v, int bucket)
		{
			bool tex = bucket >= 0 && s->GetTextureCount((uint32) bucket);
			if (!tex && !floats.empty() && b.yes(0.15)) { c->SetReferencer(); c->SetReference(floats[b.rng.below(floats.size())]->GetReference().c_str()); return; }
			c->SetValue(v); if (!tex) maybeAnimate(b, c->GetValue(), 0.25);
		};
		for (int k = 0; k < FUDaeTextureChannel::COUNT; ++k)
		{
			if (!usesBucket(s, k) || !b.yes(0.2)) continue;
			int n = b.yes(0.2) ? 2 : 1;
			for (int i = 0; i < n; ++i)
			{
				FCDImage* im = anyImage(b); if (samplers.empty() && !im) break;
				FCDTexture* tx = s->AddTexture((uint32) k);
				if (!samplers.empty() && (b.yes() || !im)) tx->SetSampler(samplers[b.rng.below(samplers.size())]); else tx->SetImage(im);
				tx->GetSet()->SetSemantic(b.yes() ? strf("%d", b.n(0, 7)).c_str() : (S("TEX") + b.word()).c_str());
				if (b.yes(0.25)) buildExtra(b, tx->GetExtra(), 1, false);
			}
		}
		if (s->IsEmissionFactor()) flt(s->GetEmissionFactorParam(), b.unit01(), -1); else color(s->GetEmissionColorParam(), FUDaeTextureChannel::EMISSION);
		if (lam) { color(s->GetAmbientColorParam(), FUDaeTextureChannel::AMBIENT); color(s->GetDiffuseColorParam(), FUDaeTextureChannel::DIFFUSE); }
		if (spec) { color(s->GetSpecularColorParam(), FUDaeTextureChannel::SPECULAR); flt(s->GetSpecularFactorParam(), b.yes(0.4) ? 1.0f : b.unit01(), FUDaeTextureChannel::SPECULAR_LEVEL); flt(s->GetShininessParam(), b.pos(), FUDaeTextureChannel::SHININESS); }
		if (s->IsReflective()) { color(s->GetReflectivityColorParam(), FUDaeTextureChannel::REFLECTION); flt(s->GetReflectivityFactorParam(), b.unit01(), -1); }
		if (s->IsRefractive()) flt(s->GetIndexOfRefractionParam(), b.pos(), FUDaeTextureChannel::REFRACTION);
		color(s->GetTranslucencyColorParam(), FUDaeTextureChannel::TRANSPARENT); flt(s->GetTranslucencyFactorParam(), b.unit01(), -1);
	}
	static void buildEffect(Build& b, FCDEffect* e)
	{
		buildEntityCommon(b, e);
		std::vector<FCDEffectParameterSurface*> surfaces; std::vector<FCDEffectParameterSampler*> samplers; std::vector<FCDEffectParameter*> all;
		if (b.yes(0.5)) buildParams(b, e, false, surfaces, samplers, &all, 2 + b.size);
		int np = b.yes(0.6) ? 1 : b.n(0, 3); bool common = false;
		for (int i = 0; i < np; ++i)
		{
			auto surf = surfaces; auto samp = samplers; auto par = all;
			int ty = b.n(0, 5); if (ty >= 4) ty = 0;
			FUDaeProfileType::Type types[] = {FUDaeProfileType::COMMON, FUDaeProfileType::CG, FUDaeProfileType::HLSL, FUDaeProfileType::GLSL};
			FUDaeProfileType::Type type = b.yes(0.1) ? FUDaeProfileType::GLES : types[ty]; if (type == FUDaeProfileType::COMMON) { if (common) continue; common = true; }
			FCDEffectProfile* pr = e->AddProfile(type);
			buildParams(b, pr, false, surf, samp, &par, 1 + b.size);
			if (b.yes(0.3)) buildExtra(b, pr->GetExtra(), 1, false);
			if (type == FUDaeProfileType::COMMON) { buildStandard(b, (FCDEffectStandard*) pr, samp, par); continue; }
			FCDEffectProfileFX* fx = (FCDEffectProfileFX*) pr; if (b.yes(0.5)) fx->SetPlatform(fstring(b.word().c_str()));
			std::vector<FCDEffectCode*> codes; int nc = b.n(0, 2); for (int c = 0; c < nc; ++c) { FCDEffectCode* x = fx->AddCode(); fillCode(b, x); codes.push_back(x); }
			int nt = b.n(0, 2);
			for (int t = 0; t < nt; ++t)
			{
				auto surf2 = surf; auto samp2 = samp; FCDEffectTechnique* te = fx->AddTechnique(); te->SetName(fstring((S("tech") + b.word()).c_str()));
				buildParams(b, te, false, surf2, samp2, nullptr, 2); if (b.yes(0.3)) buildParams(b, te, true, surf2, samp2, nullptr, 2);
				auto codes2 = codes; int tc = b.n(0, 2); for (int c = 0; c < tc; ++c) { FCDEffectCode* x = te->AddCode(); fillCode(b, x); codes2.push_back(x); }
				int pc = b.n(1, 2);
				for (int q = 0; q < pc; ++q)
				{
					FCDEffectPass* pa = te->AddPass(); if (b.yes(0.7)) pa->SetPassName((S("pass") + b.word()).c_str());
					int sc = b.n(0, b.yes(0.15) ? 40 : 2 + 2 * b.size);
					for (int x = 0; x < sc; ++x) { FUDaePassState::State st = (FUDaePassState::State) b.n(0, FUDaePassState::COUNT - 1); if (pa->FindRenderState(st)) continue; fillState(b, pa->AddRenderState(st)); }
					int hc = b.n(0, 2);
					for (int x = 0; x < hc; ++x)
					{
						FCDEffectPassShader* sh = b.yes() ? pa->AddVertexShader() : pa->AddFragmentShader(); sh->SetName((S("main") + b.word()).c_str());
						if (b.yes()) sh->SetCompilerTarget(fstring(b.word().c_str())); if (b.yes(0.4)) sh->SetCompilerOptions(fstring((b.word() + " -" + b.word()).c_str()));
						if (!codes2.empty() && b.yes(0.7)) sh->SetCode(codes2[b.rng.below(codes2.size())]);
						int bc = b.n(0, 3); for (int y = 0; y < bc; ++y) { FCDEffectPassBind* bi = sh->AddBinding(); bi->reference = fm::string((S("ref") + b.word()).c_str()); bi->symbol = fm::string((S("sym") + b.word()).c_str()); }
					}
				}
			}
		}
	}
	void buildMaterial(Build& b)
	{
		if (b.yes(0.3)) buildImage(b);
		int k = b.n(1, b.size);
		for (int i = 0; i < k; ++i)
		{
			FCDEffect* e = nullptr; size_t n = b.doc->GetEffectLibrary()->GetEntityCount();
			if (n && b.yes(0.25)) e = b.doc->GetEffectLibrary()->GetEntity(b.rng.below(n)); else { e = b.doc->GetEffectLibrary()->AddEntity(); buildEffect(b, e); }
			if (b.yes(0.15)) continue; // an effect without a material
			FCDMaterial* m = b.doc->GetMaterialLibrary()->AddEntity(); buildEntityCommon(b, m);
			m->SetEffect(e);
			int nh = b.yes(0.3) ? b.n(1, 2) : 0;
			for (int x = 0; x < nh; ++x) { FCDMaterialTechniqueHint h; h.platform = b.word().c_str(); h.technique = b.word().c_str(); m->GetTechniqueHints().push_back(h); }
			std::vector<FCDEffectParameterSurface*> surf; std::vector<FCDEffectParameterSampler*> samp;
			if (b.yes(0.5)) buildParams(b, m, true, surf, samp, nullptr, 3);
		}
	}
}
