// Building and canonically describing documents. A description is a list of "path=value" lines that covers what a
// user stored in the document; two documents are the same document when their descriptions match.
#pragma once
#include "core.h"
#include "StdAfx.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDAnimated.h"
#include "FCDocument/FCDAnimation.h"
#include "FCDocument/FCDAnimationChannel.h"
#include "FCDocument/FCDAnimationClip.h"
#include "FCDocument/FCDAnimationCurve.h"
#include "FCDocument/FCDAnimationKey.h"
#include "FCDocument/FCDAsset.h"
#include "FCDocument/FCDCamera.h"
#include "FCDocument/FCDController.h"
#include "FCDocument/FCDControllerInstance.h"
#include "FCDocument/FCDEffect.h"
#include "FCDocument/FCDEmitter.h"
#include "FCDocument/FCDEmitterInstance.h"
#include "FCDocument/FCDEntityReference.h"
#include "FCDocument/FCDExternalReferenceManager.h"
#include "FCDocument/FCDExtra.h"
#include "FCDocument/FCDForceField.h"
#include "FCDocument/FCDGeometry.h"
#include "FCDocument/FCDGeometryInstance.h"
#include "FCDocument/FCDGeometryMesh.h"
#include "FCDocument/FCDGeometryPolygons.h"
#include "FCDocument/FCDGeometryPolygonsInput.h"
#include "FCDocument/FCDGeometrySource.h"
#include "FCDocument/FCDGeometrySpline.h"
#include "FCDocument/FCDImage.h"
#include "FCDocument/FCDLibrary.h"
#include "FCDocument/FCDLight.h"
#include "FCDocument/FCDMaterial.h"
#include "FCDocument/FCDMaterialInstance.h"
#include "FCDocument/FCDMorphController.h"
#include "FCDocument/FCDPhysicsModel.h"
#include "FCDocument/FCDPhysicsMaterial.h"
#include "FCDocument/FCDPhysicsScene.h"
#include "FCDocument/FCDPlaceHolder.h"
#include "FCDocument/FCDSceneNode.h"
#include "FCDocument/FCDSkinController.h"
#include "FCDocument/FCDTransform.h"
#include "FCDocument/FCDVersion.h"
#include "FUtils/FUDateTime.h"
#include "FUtils/FUFile.h"
#include "FUtils/FUFileManager.h"
#include "FUtils/FUUri.h"
#include "FUtils/FUError.h"
#undef FAIL

namespace model
{
	using sim::Rng;
	typedef std::string S;

	// ---- description ----------------------------------------------------------------------------
	struct Dump
	{
		std::vector<std::pair<S, S>> lines;
		void kv(const S& p, const S& v) { lines.push_back({p, v}); }
		void kv(const S& p, const char* v) { lines.push_back({p, v ? v : ""}); }
		void kf(const S& p, double v) { kv(p, sim::strf("%.9g", v)); }
		void ki(const S& p, long long v) { kv(p, sim::strf("%lld", v)); }
		void floats(const S& p, const float* f, size_t n);
		S text() const;
		S trace; // shape only
	};
	enum DumpFlags { DUMP_DATES = 1, DUMP_URL = 2, DUMP_NOANIM = 4 };
	Dump describe(FCDocument* doc, int flags = 0);
	// Returns true when equal. Otherwise: the class of the first difference (path without indices) and a message.
	bool same(const Dump& want, const Dump& got, S& cls, S& msg);
	bool sameStrict(const Dump& want, const Dump& got, S& cls, S& msg);
	S genericPath(const S& p);

	void dumpAsset(Dump& d, const S& p, const FCDAsset* a, bool dates);
	void dumpExtra(Dump& d, const S& p, const FCDExtra* x);
	void dumpEntity(Dump& d, const S& p, FCDEntity* e, int flags);
	void dumpAnimated(Dump& d, const S& p, const FCDAnimated* a);
	template <class P> void dumpParamAnim(Dump& d, const S& p, const P& x) { dumpAnimated(d, p, x.GetAnimated()); }
	void dumpInstance(Dump& d, const S& p, FCDEntityInstance* i, int flags);
	void dumpTransform(Dump& d, const S& p, FCDTransform* t);
	S entityRef(const FCDEntity* e, const FCDocument* doc);

	void dumpGeometries(Dump& d, FCDocument* doc, int flags);
	void dumpControllers(Dump& d, FCDocument* doc, int flags);
	void dumpMaterials(Dump& d, FCDocument* doc, int flags);
	void dumpPhysics(Dump& d, FCDocument* doc, int flags);
	void dumpEffectParameter(Dump& d, const S& p, FCDEffectParameter* e);

	// ---- construction ---------------------------------------------------------------------------
	// Text form that survives a process life on the simulated disk.
	S pack(const Dump& d); Dump unpack(const S& s);
	struct Build
	{
		FCDocument* doc; Rng rng; int size; int textLevel; bool anims; bool drive; bool wide = false; bool animExtra = false, mayAnimExtra = true; std::vector<FCDAnimated*> drivers;
		Build(FCDocument* d, uint64_t seed, int sz, int text, int an) : doc(d), rng(seed), size(sz), textLevel(text), anims(an != 0), drive(an == 1) { wide = seed % 4 == 1; }
		int n(int lo, int hi) { return (int) rng.range(lo, hi); }
		bool yes(double p = 0.5) { return rng.chance(p); }
		float f();                  // a value that survives decimal text exactly
		float pos(); FMVector3 dir();
		FMVector3 v3() { float a = f(), b = f(), c = f(); return FMVector3(a, b, c); }
		FMVector4 v4() { float a = f(), b = f(), c = f(), e = f(); return FMVector4(a, b, c, e); }
		float unit01() { return (float) rng.below(65) / 64.0f; }
		S word();                   // a token: letters and digits, unique within the run
		S text();                   // user text, spaces and markup characters at higher levels
	};
	void buildAsset(Build& b, FCDAsset* a);
	void buildExtra(Build& b, FCDExtra* x, int depth = 2, bool typed = true);
	void buildEntityCommon(Build& b, FCDEntity* e, double pExtra = 0.3);
	void buildCamera(Build& b);
	void buildLight(Build& b);
	void buildEmitter(Build& b);
	void buildForceField(Build& b);
	void buildScene(Build& b);
	void buildDocumentInfo(Build& b);
	void buildGeometry(Build& b);
	void buildSpline(Build& b);
	void buildController(Build& b);
	void buildImage(Build& b);
	void buildMaterial(Build& b);
	void buildPhysics(Build& b);
	void buildAnimationLib(Build& b);
	void animate(Build& b, FCDAnimated* a, bool drives = true);
	template <class P> void maybeAnimate(Build& b, P& x, double p, bool drives = true) { if (b.anims && b.yes(p)) animate(b, x.GetAnimated(), drives); }

	enum Family { F_INFO, F_CAMERA, F_LIGHT, F_EMITTER, F_FORCE, F_GEOM, F_SPLINE, F_CTRL, F_IMAGE, F_MATERIAL, F_PHYSICS, F_ANIM, F_SCENE, F_COUNT };
	extern const char* familyName[F_COUNT];
	// One op = "build <family> <subseed> <size> <textlevel> <anims>"
	void apply(FCDocument* doc, const sim::Op& op);
	sim::Op genBuild(Rng& rng, int family, int maxSize, int maxText, int anims);

	// ---- library session ------------------------------------------------------------------------
	struct Errors { std::vector<S> list; int errors = 0, warnings = 0; bool has(const char* prefix) const { for (auto& l : list) if (l.compare(0, strlen(prefix), prefix) == 0) return true; return false; } };
	// Owns FCollada::Initialize/Release and the error callbacks for one process life.
	struct Session
	{
		Errors err; int asserts = 0; bool assertsAreFatal = true;
		Session(); ~Session();
		void reset() { err = Errors(); }
		void close();
		bool open = false;
	};
	bool save(FCDocument* doc, const S& path);
	void checkXml(const S& path, bool complete = true); // the saved file is consistent: identifiers, references and, when the document is complete, counts and indices
	FCDocument* loadNew(const S& path, bool& ok);     // a fresh top document; ok = the load's answer
}
