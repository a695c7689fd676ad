// S03..S09: what a save acknowledged is what a new process loads, generation after generation.
#include "model.h"
using namespace sim; using namespace model;
namespace
{
	struct Mix { std::vector<std::pair<int, int>> fam; int maxOps; int size; int textMax = 3; int anims = 1; };   // family, weight
	void genMix(Rng& r, Plan& p, int tier, const Mix& m, const std::vector<int>& always, double animP)
	{
		int gens = (int) r.range(1, tier ? 4 : 3); int total = 0; for (auto& f : m.fam) total += f.second;
		int anims = r.chance(animP) ? m.anims : 0; int text = r.chance(0.02) && m.textMax > 3 ? 4 : (int) r.range(0, 3);
		for (int g = 0; g < gens; ++g)
		{
			int k = (int) r.range(g == 0 ? 1 : 0, g == 0 ? m.maxOps : 2);
			if (g == 0) for (int a : always) p.ops.push_back(genBuild(r, a, m.size, text, anims));
			for (int i = 0; i < k; ++i)
			{
				int w = (int) r.below((uint64_t) total), f = 0; for (auto& x : m.fam) { if (w < x.second) { f = x.first; break; } w -= x.second; }
				p.ops.push_back(genBuild(r, f, m.size, text, anims));
			}
			if (r.chance(0.3)) p.ops.push_back(Op("noise", {(int64_t) r.below(1000000), r.range(5, 200)}));
			if (r.chance(0.3)) p.ops.push_back(Op("clock", {r.range(-40000000, 40000000)}));
			if (r.chance(0.25)) p.ops.push_back(Op("shortread", {(int64_t) r.below(1000000)}));
			if (r.chance(0.15)) p.ops.push_back(Op("aside", {(int64_t) r.below(1000000)}));
			p.ops.push_back(Op("gen", {r.chance(0.5) ? 1 : 0, r.chance(0.3) ? 1 : 0}));
		}
	}
	// A life runs every op up to and including the next "gen" (or the end). "gen crash resave": save, remember what was
	// stored, then die (crash=1) or shut down; the next life loads it and compares before it goes on.
	void run(const Plan& plan)
	{
		size_t at = 0; int gen = 0; bool have = false;
		while (at < plan.ops.size())
		{
			size_t end = at; while (end < plan.ops.size() && plan.ops[end].name != "gen") ++end;
			bool hasGen = end < plan.ops.size(); const Op g = hasGen ? plan.ops[end] : Op();
			S path = strf(SIMDIR "/g%d.dae", gen), prev = strf(SIMDIR "/g%d.dae", gen - 1);
			life([&]()
			{
				Session s; FCDocument* doc; bool shortRead = false;
				for (size_t i = at; i < end; ++i)
				{
					const Op& o = plan.ops[i];
					if (o.name == "noise") { Rng r((uint64_t) o.arg(0)); heapNoise(r, (int) std::min<int64_t>(o.arg(1), 2000)); }
					if (o.name == "shortread") { shortRead = true; disk::arm(disk::READ_SHORT, o.arg(0)); }
				}
				if (have)
				{
					bool ok = false; doc = loadNew(prev, ok); disk::disarm();
					if (!ok) violate("load-refused", "the library refused to load the file it had saved; %s", s.err.list.empty() ? "no error reported" : s.err.list[0].c_str());
					if (s.err.errors || s.err.has("warning 165")) violate("load-error", "loading an acknowledged save reported: %s", s.err.errors ? s.err.list[0].c_str() : "a cycle of scene nodes");
					S w; disk::get("/want", w); Dump want = unpack(w), got = describe(doc); S cls, msg;
					logf("loaded gen %d: %zu lines hash %016llx", gen - 1, got.lines.size(), (unsigned long long) hashStr(got.text()));
					if (!same(want, got, cls, msg)) { violates(cls, "after save, restart and load the document differs:\n" + msg); }
					probe("generation compared");
					if (gen >= 2) probe("third or later generation compared");
				}
				else doc = FCollada::NewTopDocument();
				(void) shortRead;
				for (size_t i = at; i < end; ++i)
				{
					const Op& o = plan.ops[i];
					if (o.name == "build") { apply(doc, o); trace(strf("b%d", (int) o.arg(0))); }
					else if (o.name == "failsave")
					{
						// A save that the disk refuses comes before.
						static const disk::Kind kinds[] = {disk::WRITE_ENOSPC, disk::WRITE_EIO, disk::OPEN_FAIL, disk::CLOSE_FAIL};
						disk::Kind f = kinds[o.arg(0) & 3]; disk::arm(f, f == disk::OPEN_FAIL ? EACCES : f == disk::WRITE_ENOSPC ? o.arg(1) : 1, 1); save(doc, SIMDIR "/spoilt.dae"); disk::disarm(); s.reset(); trace("failed save");
					}
					else if (o.name == "clock") setNow(now() + o.arg(0));
					else if (o.name == "aside")
					{
						// Another document is made, saved and closed in between.
						FCDocument* other = FCollada::NewTopDocument(); Op b("build", {F_SCENE, o.arg(0), 1, 0, 0}); apply(other, b); save(other, SIMDIR "/aside.dae"); other->Release();
						trace("aside");
					}
				}
				if (hasGen)
				{
					Dump want = describe(doc);
					s.reset();
					if (!save(doc, path)) violate("save-refused", "saving to a healthy disk was refused; %s", s.err.list.empty() ? "no error reported" : s.err.list[0].c_str());
					checkXml(path);
					if (s.err.errors) violate("save-error", "saving to a healthy disk reported: %s", s.err.list[0].c_str());
					disk::disarm();
					disk::put("/want", pack(want));
					S text; disk::get(path, text);
					logf("saved gen %d: %zu bytes hash %016llx", gen, text.size(), (unsigned long long) hashStr(text));
					trace("save");
					if (g.arg(0)) { fault("process killed after save"); crash(); }
				}
				doc->Release(); s.close();
			});
			if (hasGen) { have = true; ++gen; }
			at = end + 1;
			if (at >= plan.ops.size() && have && hasGen)
			{
				// The last generation is checked by one more life.
				life([&]()
				{
					Session s; bool ok = false; FCDocument* doc = loadNew(strf(SIMDIR "/g%d.dae", gen - 1), ok);
					if (!ok) violate("load-refused", "the library refused to load the file it had saved; %s", s.err.list.empty() ? "no error reported" : s.err.list[0].c_str());
					if (s.err.errors || s.err.has("warning 165")) violate("load-error", "loading an acknowledged save reported: %s", s.err.errors ? s.err.list[0].c_str() : "a cycle of scene nodes");
					S w; disk::get("/want", w); Dump want = unpack(w), got = describe(doc); S cls, msg;
					if (!same(want, got, cls, msg)) violates(cls, "after save, restart and load the document differs:\n" + msg);
					probe("generation compared"); logf("final %016llx", (unsigned long long) hashStr(got.text()));
					doc->Release(); s.close();
				});
			}
		}
	}
	void genInfo(Rng& r, Plan& p, int tier) { genMix(r, p, tier, {{{F_INFO, 2}, {F_CAMERA, 3}, {F_LIGHT, 3}, {F_EMITTER, 1}, {F_FORCE, 1}, {F_SCENE, 1}}, 4, 2, 4}, {F_SCENE}, 0.0); }
	void genScene(Rng& r, Plan& p, int tier) { genMix(r, p, tier, {{{F_SCENE, 4}, {F_CAMERA, 1}, {F_LIGHT, 1}, {F_EMITTER, 1}, {F_FORCE, 1}, {F_MATERIAL, 1}, {F_GEOM, 1}, {F_CTRL, 1}}, 5, 4, 4}, {}, 0.0); }
	void genGeom(Rng& r, Plan& p, int tier) { genMix(r, p, tier, {{{F_GEOM, 4}, {F_SPLINE, 2}}, 4, 3}, {}, 0.0); }
	void genCtrl(Rng& r, Plan& p, int tier) { genMix(r, p, tier, {{{F_CTRL, 4}, {F_GEOM, 1}, {F_SCENE, 2}}, 4, 3}, {F_GEOM}, 0.0); }
	void genMat(Rng& r, Plan& p, int tier) { genMix(r, p, tier, {{{F_MATERIAL, 4}, {F_IMAGE, 2}}, 4, 3}, {F_IMAGE}, 0.0); }
	void genAnim(Rng& r, Plan& p, int tier) { genMix(r, p, tier, {{{F_CAMERA, 2}, {F_LIGHT, 2}, {F_SCENE, 4}, {F_ANIM, 2}, {F_MATERIAL, 2}, {F_CTRL, 1}, {F_GEOM, 1}}, 5, 2}, {F_SCENE}, 1.0); }
	void genPhys(Rng& r, Plan& p, int tier) { genMix(r, p, tier, {{{F_PHYSICS, 4}, {F_SCENE, 1}, {F_GEOM, 1}, {F_FORCE, 1}}, 4, 3, 3, 2}, {F_GEOM, F_SCENE}, 0.3); }
	void genAll(Rng& r, Plan& p, int tier)
	{
		Mix m = {{}, 6, 3, 3, 2}; for (int f = 0; f < F_COUNT; ++f) m.fam.push_back({f, f == F_SCENE || f == F_GEOM || f == F_CTRL || f == F_MATERIAL ? 3 : 1});
		genMix(r, p, tier, m, {F_SCENE}, 0.4);
		for (int k = (int) r.range(0, 2); k > 0; --k) { std::vector<size_t> at; for (size_t i = 0; i < p.ops.size(); ++i) if (p.ops[i].name == "gen") at.push_back(i); if (!at.empty()) p.ops.insert(p.ops.begin() + (long) at[r.below(at.size())], Op("failsave", {r.range(0, 3), (int64_t) r.below(6000)})); }
	}
	Reg a0("rt_all", genAll, run);
	Reg a1("rt_info", genInfo, run), a2("rt_scene", genScene, run), a3("rt_geom", genGeom, run), a4("rt_ctrl", genCtrl, run), a5("rt_mat", genMat, run), a6("rt_anim", genAnim, run), a7("rt_phys", genPhys, run);
}
