// S01, S02, S10, S11: saves and loads on a failing disk, repeated saves, and loads after other loads.
#include "model.h"
#include <set>
#include <libxml/parser.h>
#include <libxml/tree.h>
using namespace sim; using namespace model;
namespace
{
	void genDoc(Rng& r, Plan& p, int maxOps, int size, double animP = 0.3)
	{
		static const int fam[] = {F_SCENE, F_GEOM, F_CTRL, F_MATERIAL, F_PHYSICS, F_ANIM, F_CAMERA, F_LIGHT, F_IMAGE, F_SPLINE, F_EMITTER, F_FORCE, F_INFO};
		int k = (int) r.range(1, maxOps), text = (int) r.range(0, 3), an = r.chance(animP) ? 1 : 0;
		if (r.chance(0.6)) p.ops.push_back(genBuild(r, F_GEOM, 1, text, an));
		for (int i = 0; i < k; ++i) p.ops.push_back(genBuild(r, fam[r.below(13)], size, text, an));
		if (r.chance(0.7)) p.ops.push_back(genBuild(r, F_SCENE, size, text, an));
	}
	S desc(FCDocument* d)
	{
		// Saving numbers the animated elements of arrays: book-keeping of the writer, not content.
		Dump x = describe(d); S t = x.text(), o; for (size_t i = 0; i < t.size();) { size_t q = t.find("(in array) ", i); o.append(t, i, q == S::npos ? S::npos : q - i); if (q == S::npos) break; i = q + 11; } return o;
	}
	S firstDiff(const S& a, const S& b)
	{
		size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
		size_t l = a.rfind('\n', i ? i - 1 : 0); l = l == S::npos ? 0 : l + 1;
		auto line = [&](const S& s) { size_t q = s.find('\n', i); return l < s.size() ? s.substr(l, std::min<size_t>((q == S::npos ? s.size() : q) - l, 300)) : S("(end)"); };
		return "before: " + line(a) + "\nafter:  " + line(b);
	}
	struct Loaded { FCDocument* doc; bool ok; };
	std::map<S, S> files() { std::map<S, S> m; for (auto& f : disk::list()) { S d; disk::get(f, d); m[f] = d; } return m; }

	// ---- S01 ---------------------------------------------------------------------------------------------------------
	const int saveFaults[] = {disk::OPEN_FAIL, disk::WRITE_ENOSPC, disk::WRITE_EIO, disk::CLOSE_FAIL};
	void genSave(Rng& r, Plan& p, int tier)
	{
		genDoc(r, p, tier ? 5 : 4, r.chance(0.2) ? 4 : 2);
		int k = (int) r.range(1, tier ? 8 : 5);
		for (int i = 0; i < k; ++i)
		{
			if (r.chance(0.2)) p.ops.push_back(genBuild(r, F_SCENE, 1, 1, 0));
			int x = (int) r.below(10);
			// "save <target> <fault> <point in millionths of the whole> <second fault> <point>"
			if (x < 2) p.ops.push_back(Op("save", {(int64_t) r.below(2), 0, 0, 0, 0}));
			else if (x < 8)
			{
				int64_t f = saveFaults[r.below(4)], g = r.chance(0.15) ? saveFaults[r.below(4)] : 0;
				auto at = [&](int64_t kind) -> int64_t { return kind == disk::CLOSE_FAIL && r.chance(0.3) ? 0 : (int64_t) r.below(1000001); };
				int64_t a = at(f), b = at(g); p.ops.push_back(Op("save", {(int64_t) r.below(2), f, a, g, b}));
			}
			else p.ops.push_back(Op("crash", {(int64_t) r.below(2), r.chance(0.2) ? (int64_t) disk::CRASH_OPEN : (int64_t) disk::CRASH_WRITE, (int64_t) r.below(1000001)}));
		}
		p.ops.push_back(Op("save", {(int64_t) r.below(2), 0, 0, 0, 0}));
	}
	void armAt(int64_t kind, int64_t ppm, size_t whole, uint64_t calls)
	{
		int64_t at = (int64_t) ((double) ppm * (double) whole / 1e6);
		switch (kind)
		{
		case disk::OPEN_FAIL: disk::arm(disk::OPEN_FAIL, ppm % 3 == 0 ? ENOSPC : ppm % 3 == 1 ? EACCES : EMFILE, 1); break;
		case disk::WRITE_ENOSPC: case disk::CRASH_WRITE: disk::arm((disk::Kind) kind, std::min<int64_t>(at, (int64_t) whole - 1)); break;
		case disk::WRITE_EIO: disk::arm(disk::WRITE_EIO, 1 + (int64_t) (ppm % (int64_t) std::max<uint64_t>(1, calls))); break;
		case disk::CLOSE_FAIL: disk::arm(disk::CLOSE_FAIL, at); break;
		case disk::CRASH_OPEN: disk::arm(disk::CRASH_OPEN, 0); break;
		case disk::READ_EIO: disk::arm(disk::READ_EIO, std::min<int64_t>(at, (int64_t) whole)); break;
		case disk::READ_SHORT: disk::arm(disk::READ_SHORT, ppm); break;
		case disk::SEEK_FAIL: disk::arm(disk::SEEK_FAIL, 1 + ppm % 2); break;
		default: break;
		}
	}
	void runSave(const Plan& plan)
	{
		disk::put(SIMDIR "/bystander.dae", "not to be touched");
		size_t at = 0;
		while (at < plan.ops.size())
		{
			size_t stop = plan.ops.size(); bool died = !life([&]()
			{
				Session s; FCDocument* doc = FCollada::NewTopDocument();
				for (size_t i = 0; i < at; ++i) if (plan.ops[i].name == "build") apply(doc, plan.ops[i]);
				S ref; uint64_t calls = 1; bool fresh = false;
				for (size_t i = at; i < plan.ops.size(); ++i)
				{
					const Op& o = plan.ops[i];
					if (o.name == "build") { apply(doc, o); fresh = false; continue; }
					S target = strf(SIMDIR "/t%d.dae", (int) o.arg(0));
					if (!fresh)
					{
						disk::disarm();
						if (!save(doc, SIMDIR "/ref.dae")) violate("save-refused", "a save to a healthy disk was refused");
						calls = disk::writeCalls(); disk::get(SIMDIR "/ref.dae", ref); fresh = true;
						if (ref.size() < 20 || ref.compare(ref.size() - 11, 10, "</COLLADA>") != 0) violate("save-incomplete", "an acknowledged save to a healthy disk does not end with the end of the document");
					}
					std::map<S, S> before = files(); S d0 = desc(doc);
					s.reset(); disk::disarm();
					if (o.name == "crash") { armAt(o.arg(1), o.arg(2), ref.size(), calls); setProgress(i + 1); save(doc, target); violate("save-bypassed-disk", "the save ended without writing what it had written before"); }
					armAt(o.arg(1), o.arg(2), ref.size(), calls); armAt(o.arg(3), o.arg(4), ref.size(), calls);
					bool ok = save(doc, target); uint64_t hard = disk::firedHard(); disk::disarm();
					trace(strf("save %d %d %d", (int) o.arg(1), (int) hard, ok));
					if (disk::openHandles() != 0) violate("save-handle-leak", "%d files are still open after the save", disk::openHandles());
					S got; disk::get(target, got);
					bool claims = ok && s.err.errors == 0;
					if (claims && got != ref) violate("save-silent-loss", "the save answered success without an error but the file holds %zu of %zu bytes", got.size(), ref.size());
					if (ok && hard) violate("save-false-success", "the disk failed during the save (%s) but the save answered success%s", disk::kindName[o.arg(1)], s.err.errors ? " although it reported an error" : "");
					if (!ok && !hard) violate("save-false-failure", "the disk was healthy but the save answered failure; %s", s.err.list.empty() ? "" : s.err.list[0].c_str());
					if (!ok && s.err.errors == 0) violate("save-no-error", "a save failed without reporting an error");
					for (auto& f : before) if (f.first != target) { S now; if (!disk::get(f.first, now) || now != f.second) violate("save-touched-other-file", "the save of %s changed %s", target.c_str(), f.first.c_str()); }
					for (auto& f : files()) if (f.first != target && !before.count(f.first)) violate("save-stray-file", "the save of %s left %s behind", target.c_str(), f.first.c_str());
					S d1 = desc(doc); if (d0 != d1) violates("save-harmed-document", "a save changed the document in memory:\n" + firstDiff(d0, d1));
					if (!ok)
					{
						s.reset(); if (!save(doc, target) || s.err.errors) violate("save-retry-refused", "after a failed save the retry on a healthy disk was refused");
						disk::get(target, got); if (got != ref) violate("save-retry-differs", "after a failed save the retry wrote other bytes (%zu, expected %zu)", got.size(), ref.size());
						probe("retry after a failed save");
					}
				}
				doc->Release(); s.close();
			});
			if (!died) break;
			at = (size_t) progress(); (void) stop; probe("restart after a crash in a save");
			S b; disk::get(SIMDIR "/bystander.dae", b); if (b != "not to be touched") violate("crash-touched-other-file", "a crash during a save changed another file");
		}
	}

	// ---- S02 ---------------------------------------------------------------------------------------------------------
	enum Damage { D_NONE, D_CUT, D_ZERO_TAIL, D_LOST, D_HOLE, D_EMPTY, D_TORN, D_TREE, D_COUNT };
	// Damage that keeps the text well-formed: elements and values lost, doubled, moved or exchanged.
	S damageTree(const S& whole, uint64_t seed)
	{
		xmlDoc* d = xmlParseMemory(whole.data(), (int) whole.size()); if (!d) return S(); Rng r(seed); std::vector<xmlNode*> all; std::vector<S> values = {"", "#", "#nothing", "0", "-1", "1", "2", "7", "1e30", "nan", "x", "4000000000", "-0.5", "1 2 3", "file:///simfs/whole.dae#none", "true"};
		std::function<void(xmlNode*)> walk = [&](xmlNode* n) { for (; n; n = n->next) if (n->type == XML_ELEMENT_NODE) { all.push_back(n); for (xmlAttr* a = n->properties; a; a = a->next) { xmlChar* v = xmlNodeGetContent((xmlNode*) a); values.push_back((const char*) v); xmlFree(v); } walk(n->children); } };
		int k = (int) r.range(1, 4);
		for (int i = 0; i < k; ++i)
		{
			all.clear(); walk(xmlDocGetRootElement(d)->children); if (all.empty()) break; xmlNode* n = all[r.below(all.size())]; xmlNode* m = all[r.below(all.size())]; bool inside = false; for (xmlNode* q = m; q; q = q->parent) inside |= q == n; int x = (int) r.below(14); int count = 0; for (xmlAttr* a = n->properties; a; a = a->next) ++count;
			xmlAttr* at = n->properties; for (int c = count ? (int) r.below((uint64_t) count) : 0; c > 0; --c) at = at->next; bool leaf = true; for (xmlNode* c = n->children; c; c = c->next) leaf &= c->type != XML_ELEMENT_NODE;
			if (x < 3) { xmlUnlinkNode(n); xmlFreeNode(n); }
			else if (x < 4) { if (at) xmlRemoveProp(at); }
			else if (x < 7) { if (at) xmlSetProp(n, at->name, (const xmlChar*) values[r.below(values.size())].c_str()); }
			else if (x < 8) { xmlNode* c = xmlCopyNode(n, 1); xmlAddNextSibling(n, c); }
			else if (x < 9) { if (!inside) { xmlUnlinkNode(n); xmlAddChild(m, n); } }
			else if (x < 10) { if (!inside) { xmlNode* c = xmlCopyNode(n, 1); xmlAddChild(m, c); } }
			else if (x < 11) { S name = (const char*) m->name; xmlNodeSetName(n, (const xmlChar*) name.c_str()); }
			else if (leaf && n->children)
			{
				xmlChar* v = xmlNodeGetContent(n); S t = (const char*) v; xmlFree(v); int y = (int) r.below(4);
				if (y == 0) t = values[r.below(values.size())]; else if (y == 1) t = t.substr(0, r.below(t.size() + 1)); else if (y == 2) t = t + " " + t; else { size_t p = t.find_first_of("0123456789", r.below(t.size() + 1)); if (p != S::npos) t[p] = "0123456789-. "[r.below(13)]; }
				xmlNodeSetContent(n, nullptr); xmlNodeAddContent(n, (const xmlChar*) t.c_str());
			}
			else if (at) xmlSetProp(n, at->name, (const xmlChar*) values[r.below(values.size())].c_str());
		}
		xmlChar* out = nullptr; int size = 0; xmlDocDumpMemory(d, &out, &size); S s((const char*) out, (size_t) size); xmlFree(out); xmlFreeDoc(d); return s;
	}
	void genLoad(Rng& r, Plan& p, int tier)
	{
		genDoc(r, p, tier ? 5 : 4, r.chance(0.2) ? 4 : 2);
		int k = (int) r.range(2, tier ? 14 : 9);
		for (int i = 0; i < k; ++i)
		{
			static const int rf[] = {0, disk::READ_EIO, disk::READ_SHORT, disk::OPEN_FAIL, disk::SEEK_FAIL};
			int64_t dm = r.chance(0.4) ? (int64_t) D_TREE : r.chance(0.6) ? r.range(1, D_TORN) : 0, f = dm && r.chance(0.7) ? 0 : rf[r.below(5)];
			// "load <from memory> <damage> <point> <fault> <point>"
			p.ops.push_back(Op("load", {r.chance(0.2) ? 1 : 0, dm, r.chance(0.15) ? 1000000 - (int64_t) r.below(300) : (int64_t) r.below(1000001), f, (int64_t) r.below(1000001)}));
		}
	}
	S damage(const S& whole, int64_t kind, int64_t ppm)
	{
		size_t at = std::min(whole.size(), (size_t) ((double) ppm * (double) whole.size() / 1e6));
		switch (kind)
		{
		case D_CUT: return whole.substr(0, at);
		case D_ZERO_TAIL: return whole.substr(0, at) + S(whole.size() - at, '\0');
		case D_HOLE: { S x = whole; for (size_t i = at & ~(size_t) 511; i < std::min(x.size(), (at & ~(size_t) 511) + 512); ++i) x[i] = 0; return x; }
		case D_EMPTY: return S();
		case D_TORN: { S x = whole; Rng r((uint64_t) ppm); for (size_t i = 0; i + 512 <= x.size(); i += 512) if (r.chance(0.1) && x.size() >= 1024) x.replace(i, 512, whole, r.below(x.size() - 512) & ~(size_t) 511, 512); return x; }
		case D_TREE: return damageTree(whole, (uint64_t) ppm);
		default: return whole;
		}
	}
	void runLoad(const Plan& plan)
	{
		life([&]()
		{
			Session s; FCDocument* doc = FCollada::NewTopDocument();
			for (auto& o : plan.ops) if (o.name == "build") apply(doc, o);
			if (!save(doc, SIMDIR "/whole.dae")) violate("save-refused", "a save to a healthy disk was refused");
			doc->Release(); s.close();
		});
		S whole; disk::get(SIMDIR "/whole.dae", whole); size_t end = whole.rfind('>') + 1;
		life([&]()
		{
			Session s; bool ok = false; FCDocument* d = loadNew(SIMDIR "/whole.dae", ok); if (!ok) violate("load-refused", "an intact file was refused");
			disk::put("/want", desc(d)); d->Release(); s.close();
		});
		life([&]()
		{
			Session s; S want; disk::get("/want", want);
			for (auto& o : plan.ops)
			{
				if (o.name != "load") continue;
				S text = damage(whole, o.arg(1), o.arg(2)); bool intact = text.size() >= end && text.compare(0, end, whole, 0, end) == 0; bool zeroes = intact && text.find('\0') != S::npos;
				if (o.arg(1) == D_LOST) { disk::erase(SIMDIR "/d.dae"); intact = false; } else disk::put(SIMDIR "/d.dae", text);
				s.reset(); disk::disarm(); bool mem = o.arg(0) != 0; if (mem && o.arg(1) == D_LOST) continue;
				if (o.arg(1) && !intact) { static const char* n[] = {"", "file cut short", "file tail lost (zeros)", "file lost", "file block lost (zeros)", "file emptied", "file blocks written to the wrong place", "elements of the file damaged"}; fault(n[o.arg(1)]); }
				if (!mem) armAt(o.arg(3), o.arg(4), text.size(), 1);
				s.assertsAreFatal = o.arg(1) < D_TORN; FCDocument* d = FCollada::NewTopDocument(); bool got;
				if (mem) { void* buf = malloc(text.size() + 1); memcpy(buf, text.data(), text.size()); ((char*) buf)[text.size()] = 0; got = FCollada::LoadDocumentFromMemory(SIMDIR "/d.dae", d, buf, text.size()); memset(buf, 0x55, text.size()); free(buf); }
				else got = FCollada::LoadDocumentFromFile(d, SIMDIR "/d.dae");
				uint64_t hard = disk::firedHard(); disk::disarm(); trace(strf("load %d %d %d %d", (int) o.arg(1), (int) hard, intact, got));
				if (disk::openHandles() != 0) violate("load-handle-leak", "%d files are still open after the load", disk::openHandles());
				if (got && !intact && o.arg(1) != D_TORN && o.arg(1) != D_TREE) violate("load-accepted-damage", "a file that lost part of its text was loaded with success (%zu of %zu bytes, damage %d)", text.size(), whole.size(), (int) o.arg(1));
				if (got && hard) violate("load-accepted-fault", "the disk failed during the load (%s) but the load answered success", disk::kindName[o.arg(3)]);
				if (!got && s.err.errors == 0 && o.arg(1) != D_TREE) violate("load-no-error", "a load failed without reporting an error");
				if (intact && !zeroes && !hard)
				{
					if (!got) violate("load-refused", "an intact file was refused");
					S now = desc(d); if (now != want) violates("load-differs", "an intact file loaded differently after earlier failed loads:\n" + firstDiff(want, now));
				}
				if (intact && hard == 0) probe("intact load after damage");
				if (got)
				{
					S again = desc(d); (void) again;
					// What was accepted must be usable: it can be saved, and what was saved can be loaded and read.
					if (o.arg(1) >= D_TORN && FCollada::SaveDocument(d, SIMDIR "/again.dae")) { FCDocument* e = FCollada::NewTopDocument(); if (FCollada::LoadDocumentFromFile(e, SIMDIR "/again.dae")) { S third = desc(e); (void) third; probe("damaged document saved and loaded"); } e->Release(); disk::erase(SIMDIR "/again.dae"); }
				}
				d->Release(); s.assertsAreFatal = true;
			}
			s.reset(); bool ok = false; FCDocument* d = loadNew(SIMDIR "/whole.dae", ok);
			if (!ok) violate("load-refused", "the intact file was refused after failed loads");
			S now = desc(d); if (now != want) violates("load-differs", "the intact file loaded differently after failed loads:\n" + firstDiff(want, now));
			d->Release(); s.close();
		});
	}

	// ---- S10 ---------------------------------------------------------------------------------------------------------
	void genRepeat(Rng& r, Plan& p, int tier)
	{
		genDoc(r, p, tier ? 6 : 4, r.chance(0.3) ? 4 : 2);
		int k = (int) r.range(1, tier ? 7 : 4);
		for (int i = 0; i < k; ++i)
		{
			int x = (int) r.below(10);
			if (x < 4) p.ops.push_back(Op("save", {(int64_t) r.below(3), 0, 0}));
			else if (x < 6) p.ops.push_back(Op("save", {(int64_t) r.below(3), saveFaults[r.below(4)], (int64_t) r.below(1000001)}));
			else if (x < 7) p.ops.push_back(Op("noise", {(int64_t) r.below(1000000), r.range(5, 300)}));
			else if (x < 8) p.ops.push_back(Op("aside", {(int64_t) r.below(1000000), (int64_t) r.below(2)}));
			else p.ops.push_back(genBuild(r, (int) r.pick(std::vector<int>{F_SCENE, F_CAMERA, F_GEOM}), 1, 1, 0));
		}
		p.ops.push_back(Op("clones", {(int64_t) r.below(1000000), (int64_t) r.below(1000000)}));
	}
	void runRepeat(const Plan& plan)
	{
		life([&]()
		{
			Session s; FCDocument* doc = FCollada::NewTopDocument(); FCDocument* other = nullptr; S ref; uint64_t calls = 1;
			for (auto& o : plan.ops) if (o.name == "build") { apply(doc, o); } else break;
			bool past = false;
			auto checkedSave = [&](const S& target, int64_t f, int64_t at)
			{
				S d0 = desc(doc); uint64_t c0 = hashStr(d0); disk::disarm(); if (f) armAt(f, at, ref.empty() ? 2000 : ref.size(), calls);
				bool ok = save(doc, target); bool hard = disk::firedHard() != 0; if (!hard) calls = disk::writeCalls(); disk::disarm();
				S d1 = desc(doc); if (d0 != d1) violates(hard ? "failed-save-changed-document" : "save-changed-document", S(hard ? "a failed save" : "a save") + " changed the document:\n" + firstDiff(d0, d1));
				S x; disk::get(target, x); (void) c0; trace(strf("save %d", ok));
				if (ok && !hard)
				{
					if (!ref.empty() && x != ref) violates("save-not-repeatable", "two saves of the same unchanged document differ:\n" + firstDiff(ref, x));
					if (!ref.empty()) probe("same bytes saved again");
					ref = x;
				}
			};
			for (auto& o : plan.ops)
			{
				if (o.name == "save") { past = true; checkedSave(strf(SIMDIR "/r%d.dae", (int) o.arg(0)), o.arg(1), o.arg(2)); }
				else if (o.name == "noise") { Rng r((uint64_t) o.arg(0)); heapNoise(r, (int) std::min<int64_t>(o.arg(1), 2000)); past = true; }
				else if (o.name == "build" && past) { apply(doc, o); ref.clear(); }
				else if (o.name == "aside")
				{
					past = true; if (other && o.arg(1)) { other->Release(); other = nullptr; }
					if (!other) { other = FCollada::NewTopDocument(); Op b("build", {F_SCENE, o.arg(0), 2, 0, 0}); apply(other, b); }
					if (!save(other, SIMDIR "/aside.dae")) violate("save-refused", "a save to a healthy disk was refused");
				}
			}
			checkedSave(SIMDIR "/file.dae", 0, 0); checkedSave(SIMDIR "/again.dae", 0, 0);
			if (other) other->Release();
			doc->Release(); s.close();
		});
		int64_t a = 1, b = 2; for (auto& o : plan.ops) if (o.name == "clones") { a = o.arg(0); b = o.arg(1); }
		for (int k = 0; k < 2; ++k) life([&]()
		{
			Rng r((uint64_t) (k ? b : a)); heapNoise(r, 50 + (int) r.below(400)); fault("another memory layout");
			Session s; bool ok = false; FCDocument* d = loadNew(SIMDIR "/file.dae", ok); if (!ok) violate("load-refused", "an intact file was refused");
			heapNoise(r, (int) r.below(300));
			if (!save(d, strf(SIMDIR "/copy%d.dae", k))) violate("save-refused", "a save to a healthy disk was refused");
			d->Release(); s.close();
		});
		S x, y; disk::get(SIMDIR "/copy0.dae", x); disk::get(SIMDIR "/copy1.dae", y);
		if (x != y) violates("save-depends-on-memory-layout", "two processes that loaded the same file saved different bytes:\n" + firstDiff(x, y));
		probe("same bytes from two processes");
	}

	// ---- S11 ---------------------------------------------------------------------------------------------------------
	// "file" ends one file's builds; then the history.
	void genHistory(Rng& r, Plan& p, int tier)
	{
		int nf = (int) r.range(1, 3);
		for (int i = 0; i < nf; ++i) { genDoc(r, p, 3, 2, 0.4); p.ops.push_back(Op("file")); }
		int k = (int) r.range(3, tier ? 20 : 12);
		for (int i = 0; i < k; ++i)
		{
			int64_t f = (int64_t) r.below((uint64_t) nf); int x = (int) r.below(20);
			if (x < 6) p.ops.push_back(Op("load", {f, r.chance(0.3) ? 1 : 0}));
			else if (x < 9) p.ops.push_back(Op("cancel", {f, r.chance(0.3) ? 1 : 0, (int64_t) r.below(60)}));
			else if (x < 12) p.ops.push_back(Op("failing", {f, r.chance(0.5) ? (int64_t) disk::READ_EIO : (int64_t) D_CUT * -1, (int64_t) r.below(1000001)}));
			else if (x < 14) p.ops.push_back(Op("save", {(int64_t) r.below(8), r.chance(0.4) ? saveFaults[r.below(4)] : 0, (int64_t) r.below(1000001)}));
			else if (x < 18) p.ops.push_back(Op("close", {(int64_t) r.below(8)}));
			else if (x < 19) p.ops.push_back(Op("bare", {(int64_t) r.below(3)}));
			else p.ops.push_back(Op("new", {(int64_t) r.below(1000000)}));
		}
		p.ops.push_back(Op("load", {(int64_t) r.below((uint64_t) nf), 0}));
	}
	int cancelIn = -1, cancelled = 0;
	void runHistory(const Plan& plan)
	{
		int nf = 0; size_t start = 0;
		for (size_t i = 0; i < plan.ops.size(); ++i) if (plan.ops[i].name == "file")
		{
			size_t lo = start, hi = i; start = i + 1; S path = strf(SIMDIR "/f%d.dae", nf);
			life([&]() { Session s; FCDocument* d = FCollada::NewTopDocument(); for (size_t k = lo; k < hi; ++k) if (plan.ops[k].name == "build") apply(d, plan.ops[k]); if (!save(d, path)) violate("save-refused", "a save to a healthy disk was refused"); d->Release(); s.close(); });
			life([&]()
			{
				Session s; bool ok = false; FCDocument* d = loadNew(path, ok); if (!ok) violate("load-refused", "an intact file was refused");
				S e; for (auto& l : s.err.list) e += l + "\n";
				disk::put(strf("/base%d", nf), desc(d)); disk::put(strf("/err%d", nf), e); d->Release(); s.close();
			});
			++nf;
		}
		if (!nf) return;
		life([&]()
		{
			Session s; std::vector<std::pair<FCDocument*, S>> open; std::vector<S> base(nf), errs(nf), text(nf);
			for (int i = 0; i < nf; ++i) { disk::get(strf("/base%d", i), base[i]); disk::get(strf("/err%d", i), errs[i]); disk::get(strf(SIMDIR "/f%d.dae", i), text[i]); }
			std::function<bool()> cb = []() { if (cancelIn < 0) return false; if (cancelIn == 0) { cancelled = 1; return true; } --cancelIn; return false; };
			FCollada::SetCancelLoadingCallback(&cb); cancelIn = -1;
			auto loadInto = [&](FCDocument* d, int f, bool mem, const S& data) -> bool
			{
				if (!mem) return FCollada::LoadDocumentFromFile(d, strf(SIMDIR "/f%d.dae", f).c_str());
				S copy = data; return FCollada::LoadDocumentFromMemory(strf(SIMDIR "/f%d.dae", f).c_str(), d, &copy[0], copy.size());
			};
			auto others = [&](const char* what) { for (auto& o : open) { S now = desc(o.first); if (now != o.second) violates(S("other-document-changed-by-") + what, S(what) + " changed another open document:\n" + firstDiff(o.second, now)); } };
			for (size_t i = start; i < plan.ops.size(); ++i)
			{
				const Op& o = plan.ops[i]; int f = nf ? (int) (o.arg(0) % nf) : 0;
				if (o.name == "load" || o.name == "cancel")
				{
					bool c = o.name == "cancel"; cancelled = 0; cancelIn = c ? (int) o.arg(2) : -1; s.reset();
					FCDocument* d = FCollada::NewTopDocument(); bool ok = loadInto(d, f, o.arg(1) != 0, text[f]); cancelIn = -1; trace(strf("%s %d %d", o.name.c_str(), ok, cancelled));
					if (cancelled)
					{
						fault("load cancelled");
						if (ok && desc(d) != base[f]) violate("cancelled-load-succeeded", "a cancelled load answered success with an incomplete document");
						d->Release(); others("cancelled load"); continue;
					}
					if (!ok) violate("load-refused", "an intact file was refused; %s", s.err.list.empty() ? "" : s.err.list[0].c_str());
					S now = desc(d), e; for (auto& l : s.err.list) e += l + "\n";
					if (now != base[f]) violates("load-depends-on-history", "the file loads differently than in a new process:\n" + firstDiff(base[f], now));
					if (e != errs[f]) violates("load-messages-depend-on-history", "the load reports other messages than in a new process:\n" + firstDiff(errs[f], e));
					probe("load compared with a new process"); open.push_back({d, now}); others("load");
				}
				else if (o.name == "failing")
				{
					s.reset(); disk::disarm(); FCDocument* d = FCollada::NewTopDocument(); bool ok;
					if (o.arg(1) > 0) { armAt(o.arg(1), o.arg(2), text[f].size(), 1); ok = loadInto(d, f, false, text[f]); if (disk::firedHard() && ok) violate("load-accepted-fault", "the disk failed during the load but the load answered success"); disk::disarm(); }
					else { ok = loadInto(d, f, true, damage(text[f], -o.arg(1), o.arg(2) % 990000)); fault("file cut short"); if (ok) violate("load-accepted-damage", "a cut file was accepted"); }
					trace(strf("failing %d", ok)); d->Release(); others("failed load");
				}
				else if (o.name == "bare") { static const char* t[] = {"", "<COLLADA/>", "<?xml version=\"1.0\"?><other/>"}; FCDocument* d = FCollada::NewTopDocument(); S x = t[o.arg(0) % 3]; FCollada::LoadDocumentFromMemory(SIMDIR "/bare.dae", d, &x[0], x.size()); d->Release(); others("load"); trace("bare"); }
				else if (o.name == "new") { FCDocument* d = FCollada::NewTopDocument(); apply(d, Op("build", {F_SCENE, o.arg(0), 1, 0, 0})); open.push_back({d, desc(d)}); }
				else if (o.name == "save" && !open.empty())
				{
					auto& x = open[(size_t) o.arg(0) % open.size()]; disk::disarm(); armAt(o.arg(1), o.arg(2), 4000, 1);
					save(x.first, SIMDIR "/out.dae"); disk::disarm(); others("save"); trace("save");
				}
				else if (o.name == "close" && !open.empty()) { size_t k = (size_t) o.arg(0) % open.size(); open[k].first->Release(); open.erase(open.begin() + (long) k); others("closing"); trace("close"); }
			}
			FCollada::SetCancelLoadingCallback(nullptr);
			for (auto& x : open) x.first->Release();
			s.close();
		});
	}
	Reg a("save_faults", genSave, runSave), b("load_faults", genLoad, runLoad), c("save_repeat", genRepeat, runRepeat), d("load_history", genHistory, runHistory);
}
