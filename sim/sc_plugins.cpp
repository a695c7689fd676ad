// S20: archive and extra-technique plug-ins registered, discovered, used and released in any order.
#include "model.h"
#include "FColladaPlugin.h"
#include "FCDocument/FCDExtra.h"
#include "FUtils/FUPluginManager.h"
#include <algorithm>
#include <set>
using namespace sim; using namespace model;
namespace
{
	const char* names[] = { SIMDIR "/a.dae", SIMDIR "/b.xml", SIMDIR "/c.st0", SIMDIR "/d.ST1", SIMDIR "/e.tar.st2", SIMDIR "/noext", SIMDIR "/f.unk", SIMDIR "/dir.st0/g", SIMDIR "/h.dae.st0", SIMDIR "/i.Dae", SIMDIR "/sub dir/j.st1", SIMDIR "/k.st0.st", "file://" SIMDIR "/l.st1", SIMDIR "/m.unk.dae" };
	const int NNAMES = 14;
	const char* exts[] = { "st0", "st1", "st2", "dae", "St1", "unk" };
	// The last two have the same checksum.
	const char* profiles[] = { "PA", "PB", "PC", "pbubanxn", "pnidmovh" };
	const int NPROF = 5;
	enum { ANSWER_OK, ANSWER_NO, NESTED };
	void genPlugins(Rng& r, Plan& p, int tier)
	{
		int n = (int) r.range(15, tier ? 120 : 55); bool fault = r.chance(0.4); auto R = [&](int m) { return (int64_t) r.below(m); };
		p.ops.push_back(Op("start", {r.chance(0.5) ? R(6) : 0, R(64), R(1000)}));
		for (int i = 0; i < n; ++i)
		{
			int x = (int) r.below(40); int64_t s = R(3);
			if (x < 4) p.ops.push_back(Op("archive", {R(1 << 6), R(1 << 6), R(3)}));
			else if (x < 8) p.ops.push_back(Op("extra", {R(NPROF), R(3)}));
			else if (x < 9) p.ops.push_back(Op("bad", {R(4)}));
			else if (x < 12) p.ops.push_back(Op("unreg", {R(16)}));
			else if (x < 14) p.ops.push_back(Op("mode", {R(16), R(3)}));
			else if (x < 19) p.ops.push_back(Op("make", {s, R(1000000)}));
			else if (x < 25) p.ops.push_back(Op("save", {s, r.chance(0.5) ? R(2) : R(NNAMES), fault && r.chance(0.2) ? 1 + R(3000) : 0}));
			else if (x < 32) p.ops.push_back(Op("load", {s, r.chance(0.5) ? R(2) : R(NNAMES), fault && r.chance(0.2) ? 1 + R(3000) : 0, R(3)}));
			else if (x < 34) p.ops.push_back(Op("addext", {R(6)}));
			else if (x < 35) p.ops.push_back(Op("remext", {R(6)}));
			else if (x < 36) p.ops.push_back(Op("close", {s}));
			else if (x < 37) p.ops.push_back(Op("manager", {R(100000)}));
			else if (x < 38) p.ops.push_back(Op("kill", {s, R(20)}));
			else if (r.chance(0.4)) p.ops.push_back(Op("start", {R(6), R(64), R(1000)}));
		}
	}
	struct Call { S what; int id; S name; FCDETechnique* t; S tree; const FUTrackable* handle; FUObject* parent; };
	struct Plug { int id; FUPlugin* p; bool archive; std::vector<S> ext; int mode = 0; S profile; };
	struct Tech { S light, type, profile, tree; int handle = 0; S kept; };
	struct Doc { FCDocument* d = nullptr; std::vector<Tech> techs; };
	struct World;
	World* W = nullptr;
	int pluginsAlive = 0, handlesAlive = 0, handleSerial = 0;
	S treeText(const FCDENode* n)
	{
		S s; for (size_t i = 0; i < n->GetChildNodeCount(); ++i) { const FCDENode* c = n->GetChildNode(i); s += S("<") + c->GetName(); for (size_t a = 0; a < c->GetAttributeCount(); ++a) s += S(" ") + c->GetAttribute(a)->GetName().c_str() + "=" + c->GetAttribute(a)->GetValue().c_str(); s += S(">") + c->GetContent() + treeText(c) + "</>"; }
		return s;
	}
	// Trees are <v a=N>N</v> and a nested <g><w>N</w></g>: the serial says it all.
	void makeTree(FCDENode* t, int64_t n) { FCDENode* v = t->AddParameter("v", FUStringConversion::ToFString((int32) n)); v->AddAttribute("a", FUStringConversion::ToFString((int32) n)); if (n % 3) { FCDENode* g = t->AddChildNode("g"); for (int i = 0; i < n % 4; ++i) g->AddParameter("w", FUStringConversion::ToFString((int32) (n + i))); if (n % 4 == 0) g->AddAttribute("q", FS("x")); } }
	struct Handle : public FUTrackable { S tree; int id; int64_t serial; Handle(const S& t) : tree(t), id(++handleSerial) { ++handlesAlive; serial = atoll(t.c_str() + (t.find('>') == S::npos ? 0 : t.find('>') + 1)); } protected: virtual ~Handle() { --handlesAlive; } };
	struct Archive : public FCPArchive
	{
		int id; std::vector<S> ext;
		Archive(int i, const std::vector<S>& e) : id(i), ext(e) { ++pluginsAlive; }
		const char* GetPluginName() const { return "simulated archive"; } uint32 GetPluginVersion() const { return 1; }
		bool IsImportSupported() { return true; } bool IsExportSupported() { return true; } bool IsPartialExportSupported() { return false; }
		bool IsExtensionSupported(const char* e) { for (auto& x : ext) if (x == e) return true; return false; }
		int GetSupportedExtensionsCount() { return (int) ext.size(); } const char* GetSupportedExtensionAt(int i) { return i >= 0 && i < (int) ext.size() ? ext[i].c_str() : NULL; }
		bool ImportFile(const fchar* f, FCDocument* d); bool ImportFileFromMemory(const fchar* f, FCDocument* d, const void* c, size_t n); bool ExportFile(FCDocument* d, const fchar* f);
		bool StartExport(const fchar*) { return false; } bool ExportObject(FCDObject*) { return false; } bool EndExport(fm::vector<uint8>&) { return false; } bool EndExport(const fchar*) { return false; } bool ImportObject(FCDObject*, const fm::vector<uint8>&) { return false; }
	protected: virtual ~Archive();
	};
	struct Extra : public FCPExtraTechnique
	{
		int id; S profile; Extra(int i, const S& p) : id(i), profile(p) { ++pluginsAlive; }
		const char* GetPluginName() const { return "simulated extra"; } uint32 GetPluginVersion() const { return 1; } const char* GetProfileName() { return profile.c_str(); }
		FUTrackable* ReadFromArchive(FCDETechnique* t, FUObject* parent); void WriteToArchive(FCDETechnique* t, const FUTrackable* h) const;
	protected: virtual ~Extra();
	};
	struct Other : public FUPlugin { Other() { ++pluginsAlive; } const char* GetPluginName() const { return "other"; } uint32 GetPluginVersion() const { return 1; } protected: virtual ~Other() { --pluginsAlive; } };
	struct World
	{
		std::vector<Plug> plugs; std::vector<S> xmlExt; Doc slot[3]; std::map<S, std::vector<Tech>> files; std::vector<Call> calls; int serial = 0, trees = 0, depth = 0; bool starting = false; Session* s = nullptr;
		Plug* plug(int id) { for (auto& p : plugs) if (p.id == id) return &p; return nullptr; }
		static S norm(S n) { if (n.compare(0, 7, "file://") == 0) n = n.substr(7); return n; }
		static S extension(const S& n) { size_t d = n.rfind('.'), l = n.rfind('/'); if (d == S::npos || (l != S::npos && l > d)) return S(); S e = n.substr(d + 1); for (auto& c : e) c = (char) tolower(c); return e; }
		std::set<int> handlers(const S& n)
		{
			std::set<int> h; S e = extension(n); auto has = [&](const std::vector<S>& v) { for (auto x : v) { for (auto& c : x) c = (char) tolower(c); if (x == e) return true; } return false; };
			for (auto& p : plugs) if (p.archive && has(p.ext)) h.insert(p.id); if (has(xmlExt)) h.insert(0); return h;
		}
		std::set<int> readers(const S& profile) { std::set<int> r; for (auto& p : plugs) if (!p.archive && p.profile == profile) r.insert(p.id); return r; }
		FCDETechnique* technique(FCDocument* d, const Tech& t)
		{
			for (size_t i = 0; i < d->GetLightLibrary()->GetEntityCount(); ++i) { FCDEntity* l = d->GetLightLibrary()->GetEntity(i); if (S(l->GetName().c_str()) != t.light || !l->GetExtra()) continue; FCDEType* y = l->GetExtra()->FindType(t.type.c_str()); return y ? y->FindTechnique(t.profile.c_str()) : nullptr; }
			return nullptr;
		}
		// The techniques of a document are what the model says, in memory.
		void check(Doc& d, const char* op)
		{
			if (!d.d) return;
			for (auto& t : d.techs)
			{
				FCDETechnique* x = technique(d.d, t); if (!x) violate("technique-lost", "after '%s' the technique '%s' of '%s' is gone", op, t.profile.c_str(), t.light.c_str());
				S tree = treeText(x); Handle* h = (Handle*) x->GetPluginObject(); if ((h ? h->id : 0) != t.handle) violate("handle", "after '%s' the technique '%s' of '%s' has handle %d instead of %d", op, t.profile.c_str(), t.light.c_str(), h ? h->id : 0, t.handle);
				S want = t.handle ? S() : t.tree; if (tree != want) violate("technique-tree", "after '%s' the technique '%s' of '%s' holds '%s' instead of '%s'", op, t.profile.c_str(), t.light.c_str(), tree.c_str(), want.c_str());
			}
		}
		void counts(const char* op)
		{
			int want = 0; for (auto& s : slot) for (auto& t : s.techs) want += t.handle != 0; if (depth == 0 && handlesAlive != want) violate(handlesAlive > want ? "handles-kept" : "handles-lost", "after '%s' %d plug-in objects are alive, the open documents hold %d", op, handlesAlive, want);
		}
		// One load into d; the plug-ins may load other files meanwhile.
		bool load(Doc& d, const S& name, int64_t fault, int how)
		{
			std::vector<Call> outer; outer.swap(calls); size_t errs = s->err.list.size(); ++depth; std::set<int> h = handlers(name); S path = norm(name); bool ok; S data; bool memory = how == 1 && h.size() == 1 && *h.begin() == 0 && disk::get(path, data);
			if (fault && depth == 1) disk::arm(disk::READ_EIO, fault - 1); int opens = disk::opensSinceDisarm();
			if (memory) ok = FCollada::LoadDocumentFromMemory(TO_FSTRING(fm::string(name.c_str())).c_str(), d.d, &data[0], data.size()); else ok = FCollada::LoadDocumentFromFile(d.d, TO_FSTRING(fm::string(name.c_str())).c_str());
			bool hard = disk::firedHard() != 0; opens = disk::opensSinceDisarm() - opens; if (depth == 1) disk::disarm();
			std::vector<Call> arch, rest; for (auto& c : calls) (c.what == "import" || c.what == "export" ? arch : rest).push_back(c);
			int by = -1; if (h.empty()) { if (!arch.empty() || ok || opens) violate("handled-by-nobody", "no plug-in handles '%s', but a load of it %s", name.c_str(), ok ? "answers success" : "was tried"); bool told = false; for (size_t i = errs; i < s->err.list.size(); ++i) told |= s->err.list[i].find("No plug-in") != S::npos || s->err.list[i].find(strf("%d", (int) FUError::NO_MATCHING_PLUGIN)) != S::npos; if (!told) violate("no-plugin-error", "nobody handles '%s', but no error was raised", name.c_str()); probe("nobody handles the file"); }
			else
			{
				if (arch.size() > 1) violate("plugin-twice", "a load of '%s' called %zu archive plug-ins", name.c_str(), arch.size()); by = arch.empty() ? 0 : arch[0].id;
				if (!h.count(by)) violate("wrong-plugin", "a load of '%s' was given to plug-in %d, which does not handle it", name.c_str(), by);
				if (by && (arch[0].what != "import" || arch[0].name != name)) violate("wrong-plugin", "plug-in %d was given '%s' instead of '%s'", by, arch[0].name.c_str(), name.c_str());
				auto f = files.find(path); bool want = by ? plug(by)->mode != ANSWER_NO : f != files.end();
				if (ok != want && !(hard && !ok)) violate("load-answer", "the load of '%s' answers %s, plug-in %d %s", name.c_str(), ok ? "success" : "failure", by, want ? "succeeded" : "failed");
				if (ok) { if (by == 0) d.techs = f->second; probe(by ? "loaded by a plug-in" : "loaded by the XML plug-in"); }
			}
			// Each technique with a registered profile goes once, complete, to a plug-in of that profile, after a load that succeeded.
			std::map<S, int> used; size_t due = 0;
			if (ok) for (auto& t : d.techs)
			{
				std::set<int> rd = readers(t.profile); FCDETechnique* x = technique(d.d, t); if (!x) violate("technique-lost", "the technique '%s' of '%s' was not loaded", t.profile.c_str(), t.light.c_str()); if (rd.empty()) continue; ++due; size_t n = 0;
				for (auto& c : rest) if (c.t == x)
				{
					++n; if (c.what != "read" || !rd.count(c.id)) violate("wrong-extra-plugin", "the technique '%s' was given to plug-in %d of profile '%s'", t.profile.c_str(), c.id, c.name.c_str());
					if (used.count(t.profile) && used[t.profile] != c.id) violate("wrong-extra-plugin", "two plug-ins were used for the profile '%s' in one load", t.profile.c_str()); used[t.profile] = c.id;
					if (c.tree != t.tree) violate("technique-incomplete", "the technique '%s' was given as '%s', the file holds '%s'", t.profile.c_str(), c.tree.c_str(), t.tree.c_str());
					if (!c.parent || !c.parent->HasType(FCDEntity::GetClassType()) || S(((FCDEntity*) c.parent)->GetName().c_str()) != t.light) violate("technique-parent", "the technique '%s' of '%s' was given with another parent", t.profile.c_str(), t.light.c_str());
					Handle* hd = (Handle*) x->GetPluginObject(); t.handle = plug(c.id)->mode == 1 ? hd ? hd->id : -1 : 0; t.kept = t.handle ? t.tree : S(); if (t.handle) probe("technique taken over"); else probe("technique kept");
				}
				if (n != 1) violate("extra-once", "the technique '%s' of '%s' was given to its plug-in %zu times", t.profile.c_str(), t.light.c_str(), n);
			}
			if (rest.size() != due) violate("extra-unasked", "a load of '%s' made %zu calls of extra plug-ins, %zu are due", name.c_str(), rest.size(), due);
			--depth; calls.swap(outer); if (ok) check(d, "load"); return ok;
		}
		void save(Doc& d, const S& name, int64_t fault)
		{
			calls.clear(); std::set<int> h = handlers(name); S path = norm(name); if (fault) disk::arm(disk::WRITE_ENOSPC, fault - 1); int opens = disk::opensSinceDisarm(); size_t errs = s->err.list.size();
			++depth; bool ok = FCollada::SaveDocument(d.d, TO_FSTRING(fm::string(name.c_str())).c_str()); --depth; bool hard = disk::firedHard() != 0; opens = disk::opensSinceDisarm() - opens; disk::disarm();
			std::vector<Call> arch, rest; for (auto& c : calls) (c.what == "import" || c.what == "export" ? arch : rest).push_back(c);
			// What the file has to hold.
			std::vector<Tech> out = d.techs; size_t due = 0;
			for (auto& t : out)
			{
				if (!t.handle) continue; std::set<int> rd = readers(t.profile); FCDETechnique* x = technique(d.d, t); if (rd.empty()) { t.tree.clear(); t.handle = 0; continue; }
				size_t n = 0; for (auto& c : rest) if (c.t == x) { ++n; if (c.what != "write" || !rd.count(c.id) || ((Handle*) c.handle)->id != t.handle) violate("wrong-extra-plugin", "the plug-in object of '%s' was given to plug-in %d to be saved", t.profile.c_str(), c.id); }
				due += n; if (n > 1 || (n == 0 && !h.empty())) violate("extra-once", "the technique '%s' of '%s' was given to its plug-in %zu times to be saved", t.profile.c_str(), t.light.c_str(), n); t.tree = t.kept; t.handle = 0;
			}
			if (rest.size() != due) violate("extra-unasked", "a save made %zu calls of extra plug-ins, %zu are due", rest.size(), due);
			if (h.empty()) { bool told = false; for (size_t i = errs; i < s->err.list.size(); ++i) told |= s->err.list[i].find("No plug-in") != S::npos || s->err.list[i].find(strf("%d", (int) FUError::NO_MATCHING_PLUGIN)) != S::npos; if (ok || !arch.empty() || opens || !told) violate("handled-by-nobody", "no plug-in handles '%s', but a save to it %s", name.c_str(), ok ? "answers success" : "was tried"); }
			else
			{
				if (arch.size() > 1) violate("plugin-twice", "a save to '%s' called %zu archive plug-ins", name.c_str(), arch.size()); int by = arch.empty() ? 0 : arch[0].id;
				if (!h.count(by) || (by && (arch[0].what != "export" || arch[0].name != name))) violate("wrong-plugin", "a save to '%s' was given to plug-in %d", name.c_str(), by);
				bool want = by ? plug(by)->mode != ANSWER_NO : !hard; if (ok != want) violate("save-answer", "the save to '%s' answers %s, plug-in %d %s", name.c_str(), ok ? "success" : "failure", by, want ? "succeeded" : "failed");
				if (by) { S got = arch[0].tree, exp; for (auto& t : out) exp += t.light + "/" + t.type + "/" + t.profile + "=" + t.tree + "\n"; if (got != exp) violate("export-incomplete", "plug-in %d was given a document with the techniques\n%s instead of\n%s", by, got.c_str(), exp.c_str()); if (opens) violate("save-opens", "a save by plug-in %d opened a file", by); probe("saved by a plug-in"); }
				else if (ok) { files[path] = out; probe("saved by the XML plug-in"); } else { disk::erase(path); files.erase(path); }
			}
			check(d, "save"); counts("save");
		}
		// All techniques of the model as the document shows them.
		S show(FCDocument* d) { S r; for (auto& s : slot) if (s.d == d) for (auto& t : s.techs) { FCDETechnique* x = technique(d, t); r += t.light + "/" + t.type + "/" + t.profile + "=" + (x ? treeText(x) : S("?")) + "\n"; } return r; }
	};
	Archive::~Archive() { --pluginsAlive; } Extra::~Extra() { --pluginsAlive; }
	bool nested()
	{
		if (W->depth > 2) return true; Doc d; d.d = FCollada::NewTopDocument(); W->load(d, names[0], 0, 0); d.d->Release(); probe("load inside a load"); return true;
	}
	bool Archive::ImportFile(const fchar* f, FCDocument*) { W->calls.push_back({"import", id, f, nullptr, S(), nullptr, nullptr}); int m = W->plug(id)->mode; if (m == NESTED) nested(); return m != ANSWER_NO; }
	bool Archive::ImportFileFromMemory(const fchar* f, FCDocument*, const void*, size_t) { W->calls.push_back({"import", id, f, nullptr, S(), nullptr, nullptr}); return W->plug(id)->mode != ANSWER_NO; }
	bool Archive::ExportFile(FCDocument* d, const fchar* f) { W->calls.push_back({"export", id, f, nullptr, W->show(d), nullptr, nullptr}); return W->plug(id)->mode != ANSWER_NO; }
	FUTrackable* Extra::ReadFromArchive(FCDETechnique* t, FUObject* parent) { S tree = treeText(t); W->calls.push_back({"read", id, profile, t, tree, nullptr, parent}); Plug* p = W->plug(id); return p && p->mode == 1 ? new Handle(tree) : NULL; }
	void Extra::WriteToArchive(FCDETechnique* t, const FUTrackable* h) const { W->calls.push_back({"write", id, profile, t, treeText(t), h, nullptr}); const Handle* x = (const Handle*) h; if (!x->tree.empty()) makeTree(t, x->serial); }
	// ---- libraries found in the folder of the program
	struct LibSpec { int plugins = 0; int64_t kinds = 0; } specs[3];
	template <int L> uint32 libCount() { return (uint32) specs[L].plugins; }
	template <int L> const FUObjectType* libType(uint32 i) { return (specs[L].kinds >> (2 * i)) & 3 ? ((specs[L].kinds >> (2 * i)) & 3) == 3 ? &FUPlugin::GetClassType() : &FCPArchive::GetClassType() : &FCPExtraTechnique::GetClassType(); }
	template <int L> FUPlugin* libCreate(uint32 i)
	{
		int k = (int) (specs[L].kinds >> (2 * i)) & 3; Plug p; p.id = ++W->serial; if (k == 3) return NULL;
		if (k) { p.archive = true; p.ext.push_back(exts[(L + i) % 6]); p.p = new Archive(p.id, p.ext); } else { p.archive = false; p.profile = profiles[(L + i) % NPROF]; p.mode = 1; p.p = new Extra(p.id, p.profile); }
		W->plugs.push_back(p); probe("plug-in discovered"); return p.p;
	}
	typedef uint32 (*CountFn)(uint32);
	void runPlugins(const Plan& plan)
	{
		life([&]()
		{
			World w; W = &w; Modules mods; sim::modules = &mods; std::unique_ptr<Session> s;
			auto stop = [&]()
			{
				for (auto& x : w.slot) { if (x.d) x.d->Release(); x = Doc(); } w.counts("close"); s->close(); s.reset(); w.s = nullptr;
				if (pluginsAlive != 0) violate("plugins-kept", "%d plug-ins are alive after the library was released", pluginsAlive); for (auto& m : mods.loaded) if (m.second != 0) violate("library-kept", "the library '%s' is opened %d times after the release", m.first.c_str(), m.second); w.plugs.clear();
			};
			auto start = [&](int64_t where, int64_t what, int64_t kinds)
			{
				static const char* exes[] = { "", "/app/bin/tool", "/tool", "/a/tool", "/a folder/with.dots/x.y", "/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/tool" };
				mods = Modules(); mods.exe = exes[where % 6]; S dir = mods.exe.substr(0, mods.exe.rfind('/') == S::npos ? 0 : mods.exe.rfind('/')); mods.folder = mods.exe.empty() ? S("?") : dir + "/Plugins/";
				const char* file[] = { "one.fcp", "two.fvp", "three.fcp", "readme.txt", "sub.fcp/", "broken.fcp" };
				for (int i = 0; i < 6; ++i) if ((what >> i) & 1) mods.names.push_back(file[i]);
				if (kinds & 1) std::reverse(mods.names.begin(), mods.names.end());
				for (int i = 0; i < 3; ++i) { specs[i].plugins = (int) ((kinds >> i) % 4); specs[i].kinds = kinds * (i + 7) >> i; }
				auto put = [&](int i, void* a, void* b, void* c) { auto& m = mods.symbols[mods.folder + file[i]]; m["GetPluginCount"] = a; m["GetPluginType"] = b; m["CreatePlugin"] = c; };
				put(0, (void*) &libCount<0>, (void*) &libType<0>, (void*) &libCreate<0>); put(1, (void*) &libCount<1>, (void*) &libType<1>, (void*) &libCreate<1>); put(2, (void*) &libCount<2>, (void*) &libType<2>, (void*) &libCreate<2>); mods.symbols[mods.folder + file[5]]; // 'broken' has none of the symbols
				w.xmlExt = {"dae", "xml"}; s.reset(new Session()); w.s = s.get(); s->assertsAreFatal = true;
				if (!mods.exe.empty()) for (int i = 0; i < 3; ++i) { bool there = (what >> i) & 1; if (mods.loaded[mods.folder + file[i]] != (there ? 1 : 0)) violate("library-not-found", "the program is '%s': the library '%s' was opened %d times", mods.exe.c_str(), (mods.folder + file[i]).c_str(), mods.loaded[mods.folder + file[i]]); }
				// Each library's plug-ins were created once.
				size_t want = 0; if (!mods.exe.empty()) for (int i = 0; i < 3; ++i) if ((what >> i) & 1) for (int k = 0; k < specs[i].plugins; ++k) want += ((specs[i].kinds >> (2 * k)) & 3) != 3;
				if (w.plugs.size() != want) violate("plugins-created", "%zu plug-ins were created, the libraries have %zu", w.plugs.size(), want);
				size_t arch = 0; for (auto& p : w.plugs) arch += p.archive; if (FCollada::GetPluginManager()->GetArchivePluginsCount() != arch + 1) violate("plugins-registered", "%zu archive plug-ins are registered, %zu were found", FCollada::GetPluginManager()->GetArchivePluginsCount() - 1, arch);
			};
			for (auto& o : plan.ops)
			{
				trace(o.name); const char* op = o.name.c_str(); logf("%s %d %d %d %d", op, (int) o.arg(0), (int) o.arg(1), (int) o.arg(2), (int) o.arg(3));
				if (o.name == "start") { if (s) stop(); start(o.arg(0), o.arg(1), o.arg(2)); continue; }
				if (!s) start(0, 0, 0); FColladaPluginManager* m = FCollada::GetPluginManager(); Doc& d = w.slot[o.arg(0) % 3]; w.calls.clear();
				if (o.name == "archive")
				{
					if (w.plugs.size() > 12) continue; Plug p; p.id = ++w.serial; p.archive = true; for (int k = 0; k < 6; ++k) if (((o.arg(0) & o.arg(1)) >> k) & 1) p.ext.push_back(exts[k]); p.mode = (int) (o.arg(2) % 3); p.p = new Archive(p.id, p.ext); w.plugs.push_back(p);
					if (!FCollada::RegisterPlugin(p.p)) violate("register", "an archive plug-in was refused"); probe("archive plug-in registered");
				}
				else if (o.name == "extra")
				{
					if (w.plugs.size() > 12) continue; Plug p; p.id = ++w.serial; p.archive = false; p.profile = profiles[o.arg(0) % NPROF]; p.mode = (int) (o.arg(1) % 2); p.p = new Extra(p.id, p.profile); w.plugs.push_back(p);
					if (!m->RegisterPlugin(p.p)) violate("register", "an extra plug-in was refused"); probe("extra plug-in registered");
				}
				else if (o.name == "bad")
				{
					FUPlugin* b = o.arg(0) == 0 ? nullptr : o.arg(0) == 1 ? (FUPlugin*) new Other() : new Extra(-1, ""); if (m->RegisterPlugin(b)) violate("register", "a plug-in that cannot be used was accepted"); if (b) b->Release(); probe("plug-in refused");
				}
				else if (o.name == "unreg") { if (w.plugs.empty()) continue; size_t k = (size_t) o.arg(0) % w.plugs.size(); int before = pluginsAlive; w.plugs[k].p->Release(); w.plugs.erase(w.plugs.begin() + (long) k); if (pluginsAlive != before - 1) violate("plugin-release", "a released plug-in is still there"); probe("plug-in released"); }
				else if (o.name == "mode") { if (w.plugs.empty()) continue; Plug& p = w.plugs[(size_t) o.arg(0) % w.plugs.size()]; p.mode = (int) (o.arg(1) % (p.archive ? 3 : 2)); }
				else if (o.name == "make")
				{
					if (d.d) { d.d->Release(); d = Doc(); } d.d = FCollada::NewTopDocument(); Rng r((uint64_t) o.arg(1)); int lights = (int) r.range(1, 3);
					for (int i = 0; i < lights; ++i)
					{
						FCDLight* l = d.d->GetLightLibrary()->AddEntity(); S nm = strf("L%d", i); l->SetName(nm.c_str()); l->SetDaeId(fm::string(nm.c_str()));
						for (int y = 0; y < 2; ++y) { if (!r.chance(y ? 0.4 : 0.9)) continue; S ty = y ? "ty1" : ""; FCDEType* t = y ? l->GetExtra()->AddType("ty1") : l->GetExtra()->GetDefaultType(); for (int k = 0; k < NPROF; ++k) if (r.chance(0.45)) { Tech x; x.light = nm; x.type = ty; x.profile = profiles[k]; FCDETechnique* q = t->AddTechnique(profiles[k]); makeTree(q, ++w.trees); x.tree = treeText(q); d.techs.push_back(x); } }
					}
				}
				else if (o.name == "kill")
				{
					if (!d.d || d.techs.empty()) continue; size_t k = (size_t) o.arg(1) % d.techs.size(); FCDETechnique* t = w.technique(d.d, d.techs[k]); if (!t) violate("technique-lost", "a technique is gone"); bool h = d.techs[k].handle != 0; int before = handlesAlive; t->Release(); d.techs.erase(d.techs.begin() + (long) k); if (handlesAlive != before - (h ? 1 : 0)) violate("handles-kept", "the plug-in object of a released technique is %s", handlesAlive < before ? "gone" : "still there");
				}
				else if (o.name == "close") { if (d.d) d.d->Release(); d = Doc(); }
				else if (o.name == "save") { if (d.d) w.save(d, names[o.arg(1) % NNAMES], o.arg(2)); continue; }
				else if (o.name == "load")
				{
					if (d.d) d.d->Release(); d = Doc(); d.d = FCollada::NewTopDocument(); if (!w.load(d, names[o.arg(1) % NNAMES], o.arg(2), (int) o.arg(3))) { d.d->Release(); d = Doc(); }
				}
				else if (o.name == "addext" || o.name == "remext")
				{
					FCPArchive* x = nullptr; for (size_t k = 0; k < m->GetArchivePluginsCount(); ++k) { bool sim = false; for (auto& p : w.plugs) sim |= p.p == (FUPlugin*) m->GetArchivePlugin(k); if (!sim) x = m->GetArchivePlugin(k); } if (!x) violate("xml-plugin-lost", "the XML plug-in is not registered any more");
					S e = exts[o.arg(0) % 6]; auto& v = w.xmlExt; auto at = std::find(v.begin(), v.end(), e); bool done;
					if (o.name == "addext") { done = x->AddExtraExtension(e.c_str()); if (done != (at == v.end())) violate("extension", "adding the extension '%s' answers %d", e.c_str(), (int) done); if (done) v.push_back(e); probe("extension added"); }
					else { bool can = at != v.end() && at - v.begin() >= 2; done = x->RemoveExtraExtension(e.c_str()); if (done != can) violate("extension", "removing the extension '%s' answers %d", e.c_str(), (int) done); if (can) v.erase(at); }
					if (x->GetSupportedExtensionsCount() != (int) v.size()) violate("extension", "%d extensions are supported instead of %zu", x->GetSupportedExtensionsCount(), v.size());
				}
				else if (o.name == "manager")
				{
					// A loader of its own, given its libraries by hand.
					std::vector<Plug> mine = w.plugs; w.plugs.clear(); int before = pluginsAlive; int64_t a = o.arg(0); specs[0].plugins = (int) (a % 4); specs[0].kinds = a * 13; specs[2].plugins = (int) (a / 4 % 4); specs[2].kinds = a * 29; size_t all = 0, arch = 0;
					for (int l = 0; l < 3; l += 2) for (int k = 0; k < specs[l].plugins; ++k) { int q = (int) (specs[l].kinds >> (2 * k)) & 3; all += q != 3; arch += q && q != 3; }
					Modules none; sim::modules = &none; none.exe = "/x/y"; { FUPluginManager loader(FC("*.none")); loader.AddPluginLibrary(&libCount<0>, &libType<0>, &libCreate<0>); loader.AddPluginLibrary(&libCount<2>, &libType<2>, &libCreate<2>);
					loader.LoadPlugins(FUPlugin::GetClassType()); if (loader.GetLoadedPluginCount() != all || pluginsAlive != before + (int) all) violate("loader", "%zu plug-ins were loaded, the libraries have %zu", loader.GetLoadedPluginCount(), all); for (size_t k = 0; k < all; ++k) if (loader.GetLoadedPlugin(k) != w.plugs[k].p) violate("loader", "a loaded plug-in is not the one created"); loader.UnloadPlugins(); if (loader.GetLoadedPluginCount() || pluginsAlive != before) violate("loader", "unloaded plug-ins are still there");
					w.plugs.clear(); loader.LoadPlugins(FCPArchive::GetClassType()); if (loader.GetLoadedPluginCount() != arch) violate("loader", "%zu archive plug-ins were loaded, the libraries have %zu", loader.GetLoadedPluginCount(), arch); if (arch) { w.plugs[0].p->Release(); if (loader.GetLoadedPluginCount() != arch - 1) violate("loader", "a released plug-in is still listed"); } }
					if (pluginsAlive != before) violate("loader", "plug-ins outlive their loader"); sim::modules = &mods; w.plugs = mine; probe("loader used by hand");
				}
				w.counts(op); for (auto& x : w.slot) w.check(x, op);
			}
			if (s) stop(); sim::modules = nullptr;
		});
	}
	Reg r0("plugins", genPlugins, runPlugins);
}
