// S23: piecewise export and import against whole-document saves and loads.
#include "model.h"
#include "FColladaPlugin.h"
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <algorithm>
using namespace sim; using namespace model;
namespace
{
	struct Kind { const char* library; size_t (*count)(FCDocument*); FCDEntity* (*at)(FCDocument*, size_t); FCDEntity* (*add)(FCDocument*); bool alone; /* needs nothing else to be loaded */ };
#define KIND(lib, element, alone) { element, [](FCDocument* d) { return (size_t) d->Get##lib##Library()->GetEntityCount(); }, [](FCDocument* d, size_t i) { return (FCDEntity*) d->Get##lib##Library()->GetEntity(i); }, [](FCDocument* d) { return (FCDEntity*) d->Get##lib##Library()->AddEntity(); }, alone }
	const Kind kinds[] = { KIND(Camera, "library_cameras", true), KIND(Light, "library_lights", true), KIND(Image, "library_images", true), KIND(Geometry, "library_geometries", true), KIND(PhysicsMaterial, "library_physics_materials", true), KIND(ForceField, "library_force_fields", true), KIND(Material, "library_materials", false), KIND(Effect, "library_effects", false), KIND(Controller, "library_controllers", false), KIND(PhysicsModel, "library_physics_models", false), KIND(PhysicsScene, "library_physics_scenes", false), KIND(VisualScene, "library_visual_scenes", false) };
	const int NKINDS = 12;
	void genPieces(Rng& r, Plan& p, int tier)
	{
		int n = (int) r.range(12, tier ? 90 : 40); bool fault = r.chance(0.5); int anims = r.chance(0.3) ? 1 : 0; auto R = [&](int m) { return (int64_t) r.below((uint64_t) m); };
		static const int fam[] = { F_CAMERA, F_LIGHT, F_GEOM, F_SPLINE, F_CTRL, F_IMAGE, F_MATERIAL, F_PHYSICS, F_SCENE, F_FORCE, F_INFO };
		for (int i = (int) r.range(1, 3); i > 0; --i) p.ops.push_back(genBuild(r, fam[R(11)], 2, 3, anims));
		for (int i = 0; i < n; ++i)
		{
			int x = (int) r.below(40);
			if (x < 5) p.ops.push_back(genBuild(r, fam[R(11)], 2, 3, anims));
			else if (x < 7) p.ops.push_back(Op("save", {R(2)}));
			else if (x < 8) p.ops.push_back(Op("load", {}));
			else if (x < 14) p.ops.push_back(Op("start", {R(3)}));
			else if (x < 25) p.ops.push_back(Op("piece", {r.chance(0.7) ? R(6) : R(NKINDS), R(100), R(2)}));
			else if (x < 31)
			{
				static const int fk[] = { disk::OPEN_FAIL, disk::WRITE_ENOSPC, disk::WRITE_ENOSPC, disk::WRITE_EIO, disk::CLOSE_FAIL, disk::CRASH_WRITE, disk::CRASH_OPEN };
				int k = fault && r.chance(0.3) ? fk[R(7)] : 0; p.ops.push_back(Op("end", {R(2), k, k == disk::OPEN_FAIL || k == disk::WRITE_EIO ? 1 : R(1800)}));
			}
			else if (x < 36) p.ops.push_back(Op("import", {R(100), r.chance(0.25) ? 1 + R(4) : 0, R(100000)}));
			else if (x < 37) p.ops.push_back(Op("misuse", {R(4)}));
			else if (x < 38) p.ops.push_back(Op("drop", {R(NKINDS), R(100)}));
			else if (x < 39) { if (r.chance(0.4)) p.ops.push_back(Op("restart", {R(2)})); }
			else p.ops.push_back(Op("noise", {R(100000), r.range(5, 100)}));
		}
	}
	S canon(xmlNode* n)
	{
		S s = S("<") + (const char*) n->name; for (xmlAttr* a = n->properties; a; a = a->next) { xmlChar* v = xmlNodeGetContent((xmlNode*) a); s += S(" ") + (const char*) a->name + "='" + (v ? (const char*) v : "") + "'"; xmlFree(v); } s += ">"; bool elements = false;
		for (xmlNode* c = n->children; c; c = c->next) elements |= c->type == XML_ELEMENT_NODE;
		for (xmlNode* c = n->children; c; c = c->next) { if (c->type == XML_ELEMENT_NODE) s += canon(c) + "\n"; else if (c->content && !(elements && S((const char*) c->content).find_first_not_of(" \t\r\n") == S::npos)) s += (const char*) c->content; }
		return s + "</>";
	}
	S attr(xmlNode* n, const char* a) { xmlChar* v = xmlGetProp(n, (const xmlChar*) a); S s = v ? (const char*) v : ""; xmlFree(v); return s; }
	// The element with this identifier in the whole document: only entities of the libraries, in file order.
	S whole(const S& text, const char* library, const S& id)
	{
		xmlDoc* d = xmlParseMemory(text.data(), (int) text.size()); S s; if (!d) violate("whole-unreadable", "a whole-document save is not well-formed");
		for (xmlNode* l = xmlDocGetRootElement(d)->children; l; l = l->next) if (l->type == XML_ELEMENT_NODE && S((const char*) l->name) == library) for (xmlNode* e = l->children; e; e = e->next) if (e->type == XML_ELEMENT_NODE && attr(e, "id") == id) s = canon(e);
		xmlFreeDoc(d); return s;
	}
	struct Piece { int kind; S text; };
	struct Export { std::vector<Piece> pieces; S data; bool onDisk; S path; };
	S packKinds(const std::vector<Piece>& p) { S s; for (auto& x : p) s += (char) ('a' + x.kind); return s; }
	void difference(const S& a, const S& b, S& x, S& y) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; i = i > 60 ? i - 60 : 0; x = a.substr(i, 200); y = b.substr(i, 200); }
	// The root is COLLADA, its children are the pieces in order.
	void checkData(const S& data, const std::vector<Piece>& want)
	{
		xmlDoc* d = xmlParseMemory(data.data(), (int) data.size()); if (!d) violate("export-malformed", "a piecewise export of %zu pieces is not well-formed", want.size());
		xmlNode* r = xmlDocGetRootElement(d); if (S((const char*) r->name) != "COLLADA") violate("export-root", "a piecewise export has the root '%s'", r->name); size_t i = 0;
		for (xmlNode* c = r->children; c; c = c->next)
		{
			if (c->type != XML_ELEMENT_NODE) continue; S got = canon(c); if (i >= want.size()) violate("export-extra", "a piecewise export of %zu pieces holds another piece '%s'", want.size(), got.substr(0, 100).c_str());
			if (got != want[i].text) { S x, y; difference(want[i].text, got, x, y); violate("export-differs", "piece %zu (%s) is not what a whole-document save writes:\n%s\ninstead of\n%s", i, kinds[want[i].kind].library, y.c_str(), x.c_str()); } ++i;
		}
		if (i != want.size()) violate("export-lost", "a piecewise export holds %zu of %zu pieces", i, want.size()); xmlFreeDoc(d); probe("export compared");
	}
	const char* wholePath = SIMDIR "/whole.dae";
	void runPieces(const Plan& plan)
	{
		size_t at = 0; int nexp = 0;
		while (at < plan.ops.size())
		{
			size_t begin = at; bool hard = false; setProgress(begin);
			bool ended = life([&]()
			{
				std::unique_ptr<Session> s(new Session()); FCDocument* doc = nullptr; FCPArchive* xml = nullptr; bool open = false; std::vector<Piece> pieces;
				auto init = [&]() { xml = FCollada::GetPluginManager()->GetArchivePlugin(0); doc = FCollada::NewTopDocument(); open = false; pieces.clear(); };
				auto wholeSave = [&]() { s->reset(); if (!save(doc, wholePath) || s->err.errors) violate("save-refused", "a whole-document save on a healthy disk failed: %s", s->err.list.empty() ? "" : s->err.list[0].c_str()); S t; disk::get(wholePath, t); return t; };
				auto load = [&]() { S t; if (!disk::get(wholePath, t)) return; doc->Release(); bool ok = false; doc = loadNew(wholePath, ok); if (!ok) violate("load-refused", "a whole-document save cannot be loaded"); };
				init(); disk::disarm(); std::vector<Export> done;
				for (int i = 0; i < 1000; ++i) { S k, t; if (!disk::get(strf("/meta%d", i), k)) break; if (k.empty() || !disk::get(strf(SIMDIR "/e%d.xml", i), t)) continue; Export e; e.data = t; e.onDisk = true; e.path = strf(SIMDIR "/e%d.xml", i); for (char c : k) e.pieces.push_back({c - 'a', ""}); done.push_back(e); if (begin) probe("export found by a later process"); }
				if (begin) load();
				for (size_t i = begin; i < plan.ops.size(); ++i)
				{
					const Op& o = plan.ops[i]; setProgress(i + 1); trace(o.name); const char* op = o.name.c_str(); logf("%s %d %d %d", op, (int) o.arg(0), (int) o.arg(1), (int) o.arg(2));
					if (o.name == "build") { if (doc->GetVisualSceneLibrary()->GetEntityCount() + doc->GetGeometryLibrary()->GetEntityCount() < 12) apply(doc, o); }
					else if (o.name == "noise") { Rng r((uint64_t) o.arg(0)); heapNoise(r, (int) std::min<int64_t>(o.arg(1), 2000)); }
					else if (o.name == "save") { wholeSave(); if (open) probe("whole save inside an export"); }
					else if (o.name == "load") { load(); if (open) probe("whole load inside an export"); }
					else if (o.name == "start")
					{
						bool was = open; s->assertsAreFatal = !was; bool ok = xml->StartExport(o.arg(0) == 0 ? NULL : o.arg(0) == 1 ? FC(SIMDIR "/e.dae") : FC("")); s->assertsAreFatal = true;
						if (ok == was) violate("start", "starting an export while %s is open answers %d", was ? "one" : "none", (int) ok); open = true; if (!was) pieces.clear();
					}
					else if (o.name == "piece")
					{
						const Kind& k = kinds[o.arg(0) % NKINDS]; size_t c = k.count(doc); if (!c || !open) continue; FCDEntity* e = k.at(doc, (size_t) o.arg(1) % c); S before, id;
						if (!disk::exists(wholePath)) wholeSave();   // the document has its URL from now on
						if (o.arg(2) == 0) { before = wholeSave(); }
						s->reset(); if (!xml->ExportObject(e)) violate("piece-refused", "exporting an entity of %s is refused: %s", k.library, s->err.list.empty() ? "" : s->err.list[0].c_str());
						if (s->err.errors) violate("piece-error", "exporting an entity of %s reported: %s", k.library, s->err.list[0].c_str());
						if (o.arg(2)) before = wholeSave(); id = e->GetDaeId().c_str(); S w = whole(before, k.library, id); if (w.empty()) violate("whole-lost", "the entity '%s' is not in the %s of a whole-document save", id.c_str(), k.library);
						pieces.push_back({(int) (o.arg(0) % NKINDS), w}); probe("piece exported");
					}
					else if (o.name == "end")
					{
						bool file = o.arg(0) != 0; if (!open) continue; Export x; x.pieces = pieces; x.onDisk = file; x.path = strf(SIMDIR "/e%d.xml", nexp); s->reset();
						if (file)
						{
							disk::put(strf("/meta%d", nexp), ""); if (o.arg(1)) disk::arm((disk::Kind) o.arg(1), o.arg(2), o.arg(1) == disk::CLOSE_FAIL ? 1 : 0);
							bool ok = xml->EndExport(TO_FSTRING(fm::string(x.path.c_str())).c_str()); hard = disk::firedHard() != 0; disk::disarm(); open = false;
							if (ok == hard) violate("end-answer", "ending an export to a file answers %d, the disk %s", (int) ok, hard ? "failed" : "is healthy");
							if (!ok && !s->err.errors) violate("end-silent", "ending an export to a failing disk reports no error"); if (ok && s->err.errors) violate("end-error", "ending an export reported: %s", s->err.list[0].c_str());
							if (ok) { if (!disk::get(x.path, x.data)) violate("end-lost", "an ended export is not on the disk"); disk::put(strf("/meta%d", nexp), packKinds(pieces)); } else { probe("export failed on disk"); disk::erase(x.path); ++nexp; continue; }
						}
						else { fm::vector<uint8> v; if (!xml->EndExport(v)) violate("end-answer", "ending an export into memory is refused"); open = false; x.data.assign((const char*) v.begin(), v.size()); disk::put(strf("/meta%d", nexp), ""); }
						++nexp; checkData(x.data, pieces); done.push_back(x);
					}
					else if (o.name == "import")
					{
						if (done.empty()) continue; Export& x = done[(size_t) o.arg(0) % done.size()]; S data = x.data; int how = (int) o.arg(1); if (x.onDisk && !disk::get(x.path, data)) violate("end-lost", "an ended export has left the disk"); Rng r((uint64_t) o.arg(2));
						if (x.pieces.empty() && how == 0) how = 4;
						int kind = x.pieces.empty() ? (int) r.below(6) : x.pieces[0].kind; if (!kinds[kind].alone) { if (how == 0) continue; }
						if (how == 1) data.resize(r.below(data.size() + 1)); else if (how == 2) for (int k = 0; k < 3; ++k) data[r.below(data.size())] = (char) r.below(256); else if (how == 3) kind = (int) r.below(6);
						FCDocument* d = FCollada::NewTopDocument(); FCDEntity* e = kinds[kind % 6].add(d); if (how) kind %= 6; fm::vector<uint8> v; v.resize(data.size()); if (!data.empty()) memcpy(v.begin(), data.data(), data.size());
						s->reset(); s->assertsAreFatal = how == 0; bool ok = xml->ImportObject(e, v); s->assertsAreFatal = true;
						if (how) { probe("damaged or wrong data imported"); if (data.empty() && ok) violate("import-nothing", "importing nothing answers success"); d->Release(); continue; }
						if (!ok || s->err.errors) violate("import-refused", "importing an exported entity of %s answers %d: %s", kinds[kind].library, (int) ok, s->err.list.empty() ? "" : s->err.list[0].c_str());
						// The same piece in a whole document.
						xmlDoc* xd = xmlParseMemory(data.data(), (int) data.size()); xmlNode* c = xmlDocGetRootElement(xd)->children; while (c && c->type != XML_ELEMENT_NODE) c = c->next; xmlBuffer* b = xmlBufferCreate(); xmlNodeDump(b, xd, c, 0, 0);
						S t = S("<?xml version='1.0'?><COLLADA xmlns='http://www.collada.org/2005/11/COLLADASchema' version='1.4.1'><") + kinds[kind].library + ">" + (const char*) xmlBufferContent(b) + "</" + kinds[kind].library + "></COLLADA>"; xmlBufferFree(b); xmlFreeDoc(xd);
						FCDocument* m = FCollada::NewTopDocument(); if (!FCollada::LoadDocumentFromMemory(FC(SIMDIR "/mirror.dae"), m, &t[0], t.size())) violate("load-refused", "a document with one exported entity of %s cannot be loaded: %s", kinds[kind].library, s->err.list.empty() ? "" : s->err.list[0].c_str());
						S cls, msg; if (!same(describe(m), describe(d), cls, msg)) violate("import-" + cls, "an entity of %s imported alone is not what a document load gives:\n%s", kinds[kind].library, msg.c_str()); probe("piece imported"); m->Release(); d->Release();
					}
					else if (o.name == "misuse")
					{
						s->assertsAreFatal = false; bool ok = false;
						if (o.arg(0) == 0) { if (xml->ExportObject(NULL)) ok = true; } else if (open) {} else if (o.arg(0) == 1) { fm::vector<uint8> v; ok = xml->EndExport(v); } else if (o.arg(0) == 2) { ok = xml->EndExport(FC(SIMDIR "/no.xml")); if (disk::exists(SIMDIR "/no.xml")) violate("misuse", "ending an export that was not started writes a file"); } else { FCDEntity* e = doc->GetCameraLibrary()->AddEntity(); ok = xml->ExportObject(e); e->Release(); }
						s->assertsAreFatal = true; if (ok) violate("misuse", "an operation of an export that was not started answers success"); probe("misused");
					}
					else if (o.name == "drop") { const Kind& k = kinds[o.arg(0) % NKINDS]; size_t c = k.count(doc); if (c && o.arg(0) % NKINDS < 2) k.at(doc, (size_t) o.arg(1) % c)->Release(); }
					else if (o.name == "restart")
					{
						if (open) probe("export abandoned"); if (o.arg(0)) { fault("process killed"); crash(); }
						doc->Release(); s->close(); s.reset(); s.reset(new Session()); init(); load();
					}
				}
				doc->Release(); s->close(); xmlCleanupParser();
			});
			if (ended) break; at = (size_t) progress(); if (at <= begin) break; ++nexp;
			// What was half written by the process that died is never looked at.
			S k; if (!disk::get(strf("/meta%d", nexp - 1), k)) disk::put(strf("/meta%d", nexp - 1), "");
		}
	}
	Reg r0("pieces", genPieces, runPieces);
}
