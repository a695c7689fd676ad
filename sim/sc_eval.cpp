// S22: animation evaluation over histories of evaluation times, edits, saves and loads, against an interval model.
#include "model.h"
#include "FCDocument/FCDAnimationCurveTools.h"
#include "FCDocument/FCDAnimationMultiCurve.h"
#include <algorithm>
#include <cmath>
#include <memory>
using namespace sim; using namespace model;
namespace
{
	enum { STEP = 0, LINEAR = 1, BEZIER = 2, TCB = 3 };
	const FUDaeInterpolation::Interpolation kinds[] = {FUDaeInterpolation::STEP, FUDaeInterpolation::LINEAR, FUDaeInterpolation::BEZIER, FUDaeInterpolation::TCB};
	struct Key { float t = 0, v = 0; int k = 0; float ix = 0, iy = 0, ox = 0, oy = 0, tc[5] = {0, 0, 0, 0, 0}; };
	struct Curve { int light = 0, el = 0; int pre = 0, post = 0; std::vector<Key> keys; std::map<float, float> seen; FCDAnimationCurve* c = nullptr; };
	bool flat2d = true;
	float q8(Rng& r, int lo, int hi) { return (float) r.range(lo, hi) / 8.0f; }

	void genEval(Rng& r, Plan& p, int tier)
	{
		p.ops.push_back(Op("mode", {r.chance(0.65) ? 1 : 0}));
		int style = (int) r.below(6), curves = (int) r.range(1, 5), n = (int) r.range(8, tier ? 120 : 60);
		for (int i = 0; i < curves; ++i) p.ops.push_back(Op("curve", {(int64_t) r.next() >> 1, style, (int64_t) r.below(6)}));
		for (int i = 0; i < n; ++i)
		{
			int x = (int) r.below(40); int64_t c = (int64_t) r.below(100), s = (int64_t) (r.next() >> 1);
			if (x < 24) p.ops.push_back(Op("eval", {c, (int64_t) r.below(8), s}));
			else if (x < 29) p.ops.push_back(Op("animated", {c, (int64_t) r.below(8), s}));
			else if (x < 31) p.ops.push_back(Op("addkey", {c, s, style}));
			else if (x < 32) p.ops.push_back(Op("delkey", {c, s}));
			else if (x < 33) p.ops.push_back(Op("cut", {c, s}));
			else if (x < 35) p.ops.push_back(Op("clone", {c, s}));
			else if (x < 37) p.ops.push_back(Op("merge", {c, s}));
			else if (x < 38) p.ops.push_back(Op("inf", {c, (int64_t) r.below(5), (int64_t) r.below(5)}));
			else if (x < 39) p.ops.push_back(Op("sweep", {c, s}));
			else p.ops.push_back(Op("reload"));
		}
		p.ops.push_back(Op("reload")); p.ops.push_back(Op("sweep", {0, 1}));
	}
	Key randomKey(Rng& r, float t, int style)
	{
		Key k; k.t = t; k.v = q8(r, -80, 80); k.k = style < 4 ? style : (int) r.below(4);
		// Tangents: in thirds like most tools write, anywhere between the keys, or beyond them.
		if (k.k == BEZIER) { int how = (int) r.below(8); float d = how < 6 ? q8(r, 0, 4) : q8(r, -16, 40); k.ix = t - d; k.ox = t + (how < 6 ? q8(r, 0, 4) : d); k.iy = k.v + q8(r, -40, 40); k.oy = k.v + q8(r, -40, 40); }
		if (k.k == TCB) { bool plain = r.chance(0.5); for (int i = 0; i < 3; ++i) k.tc[i] = plain ? 0.0f : q8(r, -8, 8); k.tc[3] = q8(r, 0, 8); k.tc[4] = q8(r, 0, 8); }
		return k;
	}
	void thirds(std::vector<Key>& ks) { for (size_t i = 0; i < ks.size(); ++i) if (ks[i].k == BEZIER) { float a = i ? (ks[i].t - ks[i - 1].t) / 3 : 0.25f, b = i + 1 < ks.size() ? (ks[i + 1].t - ks[i].t) / 3 : 0.25f; ks[i].ix = ks[i].t - a; ks[i].ox = ks[i].t + b; } }
	void store(FCDAnimationKey* d, const Key& k)
	{
		d->input = k.t; d->output = k.v;
		if (k.k == BEZIER) { auto* z = (FCDAnimationKeyBezier*) d; z->inTangent = FMVector2(k.ix, k.iy); z->outTangent = FMVector2(k.ox, k.oy); }
		if (k.k == TCB) { auto* z = (FCDAnimationKeyTCB*) d; z->tension = k.tc[0]; z->continuity = k.tc[1]; z->bias = k.tc[2]; z->easeIn = k.tc[3]; z->easeOut = k.tc[4]; }
	}
	void checkKeys(const FCDAnimationCurve* c, const Curve& m, const char* when)
	{
		FCDAnimationCurve* w = const_cast<FCDAnimationCurve*>(c);
		if (w->GetKeyCount() != m.keys.size()) violate("keys-changed", "the curve has %zu keys instead of %zu %s", w->GetKeyCount(), m.keys.size(), when);
		if ((int) w->GetPreInfinity() != m.pre || (int) w->GetPostInfinity() != m.post) violate("infinity-changed", "the infinities are %d/%d instead of %d/%d %s", (int) w->GetPreInfinity(), (int) w->GetPostInfinity(), m.pre, m.post, when);
		for (size_t i = 0; i < m.keys.size(); ++i)
		{
			const FCDAnimationKey* d = w->GetKey(i); const Key& k = m.keys[i];
			bool ok = d->interpolation == (uint32) kinds[k.k] && d->input == k.t && d->output == k.v;
			if (ok && k.k == BEZIER) { auto* z = (const FCDAnimationKeyBezier*) d; ok = z->inTangent.x == k.ix && z->inTangent.y == k.iy && z->outTangent.x == k.ox && z->outTangent.y == k.oy; }
			if (ok && k.k == TCB) { auto* z = (const FCDAnimationKeyTCB*) d; ok = z->tension == k.tc[0] && z->continuity == k.tc[1] && z->bias == k.tc[2] && z->easeIn == k.tc[3] && z->easeOut == k.tc[4]; }
			if (!ok) violate("keys-changed", "key %zu of the curve is (%g, %g, kind %u) instead of (%g, %g, kind %d) %s", i, d->input, d->output, d->interpolation, k.t, k.v, (int) kinds[k.k], when);
		}
	}
	// What a correct evaluation may answer: an interval, or unknown.
	struct Range { double lo = 1e300, hi = -1e300; bool any = false; void add(double v) { lo = std::min(lo, v); hi = std::max(hi, v); } void wide() { any = true; } };
	double bez(double a, double b, double c, double d, double t) { double s = 1 - t; return a * s * s * s + 3 * b * s * s * t + 3 * c * s * t * t + d * t * t * t; }
	void tcb(const Key* p, const Key& k, const Key* n, double* left, double* right)
	{
		double px, py, nx, ny;
		if (p) { px = p->t - k.t; py = p->v - k.v; } else { px = n ? n->t - k.t : 0.5; py = 0; }
		if (n) { nx = n->t - k.t; ny = n->v - k.v; } else { nx = p ? k.t - p->t : 0.5; ny = 0; }
		double T = k.tc[0], C = k.tc[1], B = k.tc[2];
		double k1 = (1 - T) * (1 - C) * (1 + B) / 2, k2 = (1 - T) * (1 + C) * (1 - B) / 2, k3 = (1 - T) * (1 + C) * (1 + B) / 2, k4 = (1 - T) * (1 - C) * (1 - B) / 2;
		left[0] = k1 * px + k2 * nx; left[1] = k1 * py + k2 * ny; right[0] = k3 * px + k4 * nx; right[1] = k3 * py + k4 * ny;
	}
	// The interior: x in [first key, last key].
	void inside(const std::vector<Key>& k, double x, double off, Range& r)
	{
		// Just at a key, both sides are right.
		for (size_t i = 0; i + 1 < k.size(); ++i)
		{
			const Key& a = k[i]; const Key& b = k[i + 1]; if (x < a.t || x > b.t) continue;
			int kind = a.k; if (kind == BEZIER || kind == TCB) { if (b.k == LINEAR) kind = LINEAR; else if (b.k == STEP) kind = STEP; }
			if (a.t == b.t) { r.add(off + a.v); r.add(off + b.v); continue; }
			if (kind == STEP) { r.add(off + a.v); if (x == b.t) r.add(off + b.v); continue; }
			double u = (x - a.t) / ((double) b.t - a.t);
			if (kind == LINEAR) { r.add(off + a.v + u * ((double) b.v - a.v)); continue; }
			double x1, y1, x2, y2, d1[2], d2[2];
			const Key* before = i ? &k[i - 1] : nullptr; const Key* after = i + 2 < k.size() ? &k[i + 2] : nullptr;
			if (a.k == BEZIER) { x1 = a.ox; y1 = a.oy; } else { tcb(before, a, &b, d1, d2); x1 = a.t - d2[0]; y1 = a.v - d2[1]; }
			if (b.k == BEZIER) { x2 = b.ix; y2 = b.iy; } else { tcb(&a, b, after, d1, d2); x2 = b.t + d1[0]; y2 = b.v + d1[1]; }
			if (!flat2d)
			{
				double third = ((double) b.t - a.t) / 3; bool known = a.k != BEZIER || (std::fabs(x1 - a.t - third) < 1e-5 * (1 + third) && std::fabs(b.t - x2 - third) < 1e-5 * (1 + third));
				if (known) { for (int s = -1; s <= 1; ++s) r.add(off + bez(a.v, y1, y2, b.v, std::min(1.0, std::max(0.0, u + s * 2e-6)))); double m = std::fabs(y1) + std::fabs(y2) + std::fabs(a.v) + std::fabs(b.v); r.lo -= m * 1e-4; r.hi += m * 1e-4; }
				else if (x == b.t) r.add(off + b.v); else if (x == a.t) r.add(off + a.v); else r.wide();
				continue;
			}
			// The tangents must not leave the interval: otherwise the curve turns back in time and has several answers.
			if (x1 < a.t - 1e-5 || x1 > b.t + 1e-5 || x2 < a.t - 1e-5 || x2 > b.t + 1e-5) { r.wide(); continue; }
			// The parameter is searched to a thousandth, in itself or in time.
			double lo = 0, hi = 1; for (int s = 0; s < 60; ++s) { double m = (lo + hi) / 2; if (bez(a.t, x1, x2, b.t, m) < x - 0.0011) lo = m; else hi = m; } double t0 = hi;
			lo = 0; hi = 1; for (int s = 0; s < 60; ++s) { double m = (lo + hi) / 2; if (bez(a.t, x1, x2, b.t, m) < x + 0.0011) lo = m; else hi = m; } double t1 = lo;
			t0 = std::max(0.0, t0 - 0.0011); t1 = std::min(1.0, t1 + 0.0011);
			double slope = 3 * std::max({std::fabs(y1 - a.v), std::fabs(y2 - y1), std::fabs(b.v - y2)}), step = (t1 - t0) / 64;
			Range q; for (int s = 0; s <= 64; ++s) q.add(bez(a.v, y1, y2, b.v, t0 + s * step));
			r.add(off + q.lo - slope * step / 2); r.add(off + q.hi + slope * step / 2);
		}
	}
	Range expect(const Curve& c, float xf)
	{
		Range r; const std::vector<Key>& k = c.keys;
		if (k.empty()) { r.add(0); return r; }
		if (k.size() == 1) { r.add(k[0].v); return r; }
		double x = xf, s = k.front().t, e = k.back().t, span = e - s, eps = 0;
		double vs = k.front().v, ve = k.back().v;
		int mode = x < s ? c.pre : x > e ? c.post : -1; std::vector<std::pair<double, double>> at; // (time inside, offset)
		if (mode < 0) at.push_back({x, 0});
		else if (mode == FUDaeInfinity::CONSTANT || (span <= 0 && mode != FUDaeInfinity::LINEAR)) { if (span <= 0) { for (auto& q : k) r.add(q.v); } else r.add(x < s ? vs : ve); }
		else if (mode == FUDaeInfinity::LINEAR)
		{
			const Key& a = x < s ? k[0] : k[k.size() - 2]; const Key& b = x < s ? k[1] : k.back(); if (a.t == b.t) { r.wide(); return r; }
			double slope = ((double) b.v - a.v) / ((double) b.t - a.t); r.add(x < s ? vs - slope * (s - x) : ve + slope * (x - e));
		}
		else
		{
			double cycles = x < s ? std::ceil((s - x) / span) : -std::ceil((x - e) / span); eps = 1e-6 * (std::fabs(x) + std::fabs(cycles * span) + 1);
			if (mode == FUDaeInfinity::OSCILLATE) { double u = std::fmod(x - s, 2 * span); if (u < 0) u += 2 * span; at.push_back({u > span ? e - (u - span) : s + u, 0}); }
			else { double u = x + cycles * span, off = mode == FUDaeInfinity::CYCLE_RELATIVE ? -cycles * (ve - vs) : 0; at.push_back({u, off}); if (u - s < eps || e - u < eps) { at.push_back({s, off}); at.push_back({e, off}); double o2 = mode == FUDaeInfinity::CYCLE_RELATIVE ? (u - s < eps ? off - (ve - vs) : off + (ve - vs)) : 0; at.push_back({u - s < eps ? e : s, o2}); } }
		}
		for (auto& a : at)
		{
			std::vector<double> xs; double lo = std::max(s, a.first - eps), hi = std::min(e, a.first + eps); xs.push_back(std::min(e, std::max(s, a.first))); xs.push_back(lo); xs.push_back(hi);
			for (auto& q : k) if (q.t >= lo && q.t <= hi) xs.push_back(q.t);
			for (double v : xs) inside(k, v, a.second, r);
		}
		double scale = std::fabs(r.lo) + std::fabs(r.hi) + std::fabs(vs) + std::fabs(ve); for (auto& q : k) scale = std::max(scale, (double) std::fabs(q.v)); r.lo -= scale * 4e-6 + 1e-6; r.hi += scale * 4e-6 + 1e-6; return r;
	}
	struct Eval
	{
		FCDocument* doc = nullptr; std::vector<Curve> cs; Session& s; std::vector<FCDLight*> lights;
		explicit Eval(Session& x) : s(x) {}
		FCDAnimated* animated(const Curve& c) { FCDLight* l = lights[(size_t) c.light]; return c.el < 0 ? l->GetIntensity().GetAnimated() : l->GetColor().GetAnimated(); }
		int index(const Curve& c) { return c.el < 0 ? 0 : c.el; }
		void addCurve(const Op& o)
		{
			Rng r((uint64_t) o.arg(0)); Curve c; int style = (int) o.arg(1);
			// One curve for each light value.
			int at = (int) cs.size(); c.light = at / 2; c.el = at % 2 ? (int) r.below(3) : -1; if (r.chance(0.3) && at % 2) c.el = 2;
			while ((int) lights.size() <= c.light) { FCDLight* l = doc->GetLightLibrary()->AddEntity(); l->SetDaeId(fm::string(strf("light%zu", lights.size()).c_str())); l->SetName(strf("light%zu", lights.size()).c_str()); l->SetIntensity(1000.5f); l->SetColor(FMVector3(2000.5f, 2001.5f, 2002.5f)); lights.push_back(l); }
			int n = r.chance(0.15) ? 2 : r.chance(0.3) ? (int) r.range(5, 24) : (int) r.range(1, 6); float t = q8(r, -40, 40); bool dup = r.chance(0.1); int regular = (int) o.arg(2);
			for (int i = 0; i < n; ++i) { c.keys.push_back(randomKey(r, t, style)); t += regular == 0 ? 1.0f : (dup && r.chance(0.3)) ? 0 : q8(r, 1, r.chance(0.2) ? 200 : 24); }
			if (regular == 1) { float u = c.keys[0].t; for (auto& k : c.keys) { float d = k.t - u; (void) d; k.t = u; k.ix = u - 0.25f; k.ox = u + 0.25f; u += 0.75f; } thirds(c.keys); }
			if (r.chance(0.7)) c.pre = (int) r.below(5); if (r.chance(0.7)) c.post = (int) r.below(5);
			FCDAnimation* an = doc->GetAnimationLibrary()->GetEntityCount() && r.chance(0.5) ? doc->GetAnimationLibrary()->GetEntity(0) : doc->GetAnimationLibrary()->AddEntity();
			c.c = an->AddChannel()->AddCurve(); c.c->SetPreInfinity((FUDaeInfinity::Infinity) c.pre); c.c->SetPostInfinity((FUDaeInfinity::Infinity) c.post);
			if (r.chance(0.5)) for (auto& k : c.keys) store(c.c->AddKey(kinds[k.k]), k);
			else { std::vector<size_t> order; for (size_t i = 0; i < c.keys.size(); ++i) order.push_back(i); bool d = false; for (size_t i = 1; i < c.keys.size(); ++i) d |= c.keys[i].t == c.keys[i - 1].t; if (!d) for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
				for (size_t i : order) { size_t where = 999; FCDAnimationKey* k = c.c->AddKey(kinds[c.keys[i].k], c.keys[i].t, where); store(k, c.keys[i]); if (where >= c.c->GetKeyCount() || c.c->GetKey(where) != k) violate("insert-index", "the key inserted at %g is reported at another place than where it is", c.keys[i].t); } }
			animated(c)->AddCurve((size_t) index(c), c.c); checkKeys(c.c, c, "after building it"); cs.push_back(c);
		}
		float timeFor(const Curve& c, int64_t sel, int64_t seed)
		{
			Rng r((uint64_t) seed); if (c.keys.empty()) return q8(r, -20, 20); const Key& k = c.keys[r.below(c.keys.size())]; float s = c.keys.front().t, e = c.keys.back().t, span = e - s;
			switch (sel)
			{
			case 0: return k.t;
			case 1: return std::nextafter(k.t, r.chance(0.5) ? 1e9f : -1e9f);
			case 2: return s + span * (float) r.below(65) / 64.0f;
			case 3: return s - q8(r, 1, 100);
			case 4: return e + q8(r, 1, 100);
			case 5: return r.chance(0.5) ? s - span * (float) r.below(9) : e + span * (float) r.below(9);
			case 6: return k.t + span * (float) r.range(-6, 6) + (r.chance(0.5) ? 0 : q8(r, -4, 4));
			default: return (r.chance(0.5) ? s : e) + (r.chance(0.5) ? -1.0f : 1.0f) * (float) (r.below(10000)) * 1.37f;
			}
		}
		void judge(Curve& c, float t, float got, const char* how)
		{
			simTimeAdvance(0.04);
			if (std::isnan(got) || std::isinf(got)) { Range r = expect(c, t); if (!r.any) violate("not-a-number", "%s at %.9g gives %g", how, t, got); }
			auto it = c.seen.find(t);
			if (it != c.seen.end()) { probe("same time again"); if (memcmp(&it->second, &got, 4)) violate("history-dependent", "%s at %.9g gives %.9g, it gave %.9g before", how, t, got, it->second); }
			c.seen[t] = got;
			Range r = expect(c, t); if (r.any) { probe("no model for the tangents"); return; }
			if (!(got >= r.lo && got <= r.hi))
			{
				bool key = false; for (auto& k : c.keys) key |= k.t == t; S ks; for (auto& k : c.keys) ks += strf(" (%g %g k%d i%g,%g o%g,%g)", k.t, k.v, k.k, k.ix, k.iy, k.ox, k.oy);
				bool out = t < c.keys.front().t || t > c.keys.back().t; violate(key && !out ? "key-missed" : out ? "infinity-value" : "wrong-value", "%s at %.9g gives %.9g, not within [%.9g, %.9g]; infinities %d/%d, %s, keys%s", how, t, got, r.lo, r.hi, c.pre, c.post, flat2d ? "2D" : "1D", ks.c_str());
			}
			for (auto& k : c.keys) if (k.t == t) probe("evaluated at a key"); if (t < c.keys.front().t || t > c.keys.back().t) probe("evaluated outside of the keys");
		}
	};
	S put(float f) { return strf("%a ", f); }
	void runEval(const Plan& plan)
	{
		size_t at = 0; int gen = 0; flat2d = true;
		while (at < plan.ops.size())
		{
			size_t end = at; while (end < plan.ops.size() && plan.ops[end].name != "reload") ++end;
			life([&]()
			{
				Session s; Eval e(s);
				for (auto& o : plan.ops) if (o.name == "mode") flat2d = o.arg(0) != 0;
				FCDAnimationCurve::Set2DCurveEvaluation(flat2d);
				if (!gen) e.doc = FCollada::NewTopDocument();
				else
				{
					bool ok = false; e.doc = loadNew(SIMDIR "/eval.dae", ok); if (!ok || s.err.errors) violate("load-refused", "the saved file does not load: %s", s.err.list.empty() ? "no error" : s.err.list[0].c_str());
					S w; disk::get("/want", w); const char* p = w.c_str(); char* q; auto F = [&]() { float f = strtof(p, &q); p = q; return f; };
					int lights = (int) F(); for (int i = 0; i < lights; ++i) { FCDLight* l = (FCDLight*) e.doc->FindEntity(strf("light%d", i).c_str()); if (!l || l->GetType() != FCDEntity::LIGHT) violate("light-lost", "light%d is not in the loaded document", i); e.lights.push_back(l); }
					int n = (int) F(); for (int i = 0; i < n; ++i)
					{
						Curve c; c.light = (int) F(); c.el = (int) F(); c.pre = (int) F(); c.post = (int) F(); int nk = (int) F();
						for (int j = 0; j < nk; ++j) { Key k; k.t = F(); k.v = F(); k.k = (int) F(); k.ix = F(); k.iy = F(); k.ox = F(); k.oy = F(); for (float& x : k.tc) x = F(); c.keys.push_back(k); }
						int ns = (int) F(); for (int j = 0; j < ns; ++j) { float t = F(); c.seen[t] = F(); }
						FCDAnimated* a = e.animated(c); if (!a->GetCurveCount((size_t) e.index(c))) { if (c.keys.empty()) continue; violate("curve-lost", "the curve of light%d, value %d is gone after loading", c.light, c.el); }
						c.c = a->GetCurve((size_t) e.index(c)); checkKeys(c.c, c, "after loading"); e.cs.push_back(c);
					}
				}
				for (size_t i = at; i < end; ++i)
				{
					const Op& o = plan.ops[i]; trace(o.name); if (o.name == "curve") { if (e.cs.size() < 8) e.addCurve(o); continue; }
					if (e.cs.empty() || o.name == "mode") continue;
					Curve& c = e.cs[(size_t) o.arg(0) % e.cs.size()];
					if (o.name == "eval") { float t = e.timeFor(c, o.arg(1), o.arg(2)); e.judge(c, t, c.c->Evaluate(t), "evaluating the curve"); }
					else if (o.name == "sweep")
					{
						Rng r((uint64_t) o.arg(1)); std::vector<float> ts; for (auto& x : c.seen) ts.push_back(x.first); for (auto& k : c.keys) ts.push_back(k.t); if (r.chance(0.5)) std::reverse(ts.begin(), ts.end()); for (size_t j = ts.size(); j > 1 && r.chance(0.7); --j) std::swap(ts[j - 1], ts[r.below(j)]);
						for (float t : ts) e.judge(c, t, c.c->Evaluate(t), "evaluating the curve again");
					}
					else if (o.name == "animated")
					{
						float t = e.timeFor(c, o.arg(1), o.arg(2)); FCDAnimated* a = e.animated(c); std::vector<float> before; for (size_t v = 0; v < a->GetValueCount(); ++v) before.push_back(*a->GetValue(v));
						a->Evaluate(t);
						for (size_t v = 0; v < a->GetValueCount(); ++v)
						{
							Curve* mine = nullptr; for (auto& x : e.cs) if (x.light == c.light && (x.el < 0) == (c.el < 0) && e.index(x) == (int) v) mine = &x;
							if (mine) { float now = *a->GetValue(v); e.judge(*mine, t, now, "evaluating the animated value"); }
							else if (!a->GetCurveCount(v) && before[v] != *a->GetValue(v)) violate("value-without-curve", "evaluating changes value %zu, which has no curve, from %g to %g", v, before[v], *a->GetValue(v));
						}
						FCDLight* l = e.lights[(size_t) c.light]; if (c.el < 0 ? l->GetIntensity() != *a->GetValue(0) : ((const FMVector3&) l->GetColor()).y != *a->GetValue(1)) violate("value-elsewhere", "the evaluated value does not arrive in the light");
					}
					else if (o.name == "addkey")
					{
						if (c.keys.size() > 40) continue; Rng r((uint64_t) o.arg(1)); float t = c.keys.empty() ? 0.0f : e.timeFor(c, r.chance(0.7) ? 2 : 3 + (int) r.below(2), (int64_t) (r.next() >> 1)); t = std::floor(t * 8) / 8; bool clash = false; for (auto& k : c.keys) clash |= k.t == t; if (clash) continue;
						Key k = randomKey(r, t, (int) o.arg(2)); size_t where = 999; FCDAnimationKey* d = c.c->AddKey(kinds[k.k], t, where); store(d, k); size_t want = 0; while (want < c.keys.size() && c.keys[want].t < t) ++want; c.keys.insert(c.keys.begin() + (long) want, k); c.seen.clear();
						if (where != want) violate("insert-index", "a key inserted at %g is reported at place %zu instead of %zu", t, where, want);
					}
					else if (o.name == "delkey") { if (c.keys.size() < 2) continue; size_t n = (size_t) o.arg(1) % c.keys.size(); if (!c.c->DeleteKey(c.c->GetKey(n))) violate("delete-refused", "deleting a key of the curve is refused"); c.keys.erase(c.keys.begin() + (long) n); c.seen.clear(); }
					else if (o.name == "cut") { if (c.keys.size() < 3) continue; size_t n = 2 + (size_t) o.arg(1) % (c.keys.size() - 2); c.c->SetKeyCount(n, FUDaeInterpolation::LINEAR); c.keys.resize(n); c.seen.clear(); }
					else if (o.name == "inf") { c.pre = (int) o.arg(1); c.post = (int) o.arg(2); c.c->SetPreInfinity((FUDaeInfinity::Infinity) c.pre); c.c->SetPostInfinity((FUDaeInfinity::Infinity) c.post); std::map<float, float> keep; if (!c.keys.empty()) for (auto& x : c.seen) if (x.first >= c.keys.front().t && x.first < c.keys.back().t) keep.insert(x); c.seen = keep; }
					else if (o.name == "clone")
					{
						FCDAnimationCurve* k = c.c->Clone(); checkKeys(k, c, "in a clone"); for (int j = 0; j < 3; ++j) { float t = e.timeFor(c, j * 2, o.arg(1) + j); e.judge(c, t, k->Evaluate(t), "evaluating a clone of the curve"); }
						std::vector<float> was; for (auto& x : c.keys) was.push_back(x.v); for (size_t j = 0; j < k->GetKeyCount(); ++j) k->GetKey(j)->output += 1; checkKeys(c.c, c, "after changing a clone"); k->Release();
					}
					else if (o.name == "merge")
					{
						Rng r((uint64_t) o.arg(1)); FCDAnimationCurveConstList list; std::vector<Curve*> part; FloatList defs; bool uniform = true, sameTimes = true, dup = false; int kind = -1; const Curve* first = nullptr;
						size_t n = (size_t) r.range(1, 4); for (size_t j = 0; j < n; ++j) { Curve* x = r.chance(0.15) ? nullptr : &e.cs[r.below(e.cs.size())]; part.push_back(x); list.push_back(x ? x->c : nullptr); defs.push_back(q8(r, -8, 8)); if (x) { if (!first) first = x; for (auto& k : x->keys) { if (kind < 0) kind = k.k; uniform &= kind == k.k; } for (size_t i = 1; i < x->keys.size(); ++i) dup |= x->keys[i].t == x->keys[i - 1].t; sameTimes &= x->keys.size() == first->keys.size(); for (size_t i = 0; sameTimes && i < x->keys.size(); ++i) sameTimes &= x->keys[i].t == first->keys[i].t; } }
						FCDAnimationMultiCurve* mc = FCDAnimationCurveTools::MergeCurves(list, defs); if (!mc) { if (first) violate("merge-refused", "curves cannot be merged"); continue; } mc->Set2DCurveEvaluation(flat2d);
						std::vector<float> times; for (size_t i = 0; i < mc->GetKeyCount(); ++i) { times.push_back(mc->GetKey(i)->input); if (i && times[i] < times[i - 1]) violate("merge-order", "the merged keys are not in order"); }
						for (size_t j = 0; j < n; ++j) if (part[j]) for (auto& k : part[j]->keys) if (std::find_if(times.begin(), times.end(), [&](float t) { return std::fabs(t - k.t) < 1e-4f; }) == times.end()) violate("merge-lost-key", "the key at %g is not in the merged curve", k.t);
						float out[8];
						if (!dup) for (int j = 0; j < 6; ++j)
						{
							float t = first ? e.timeFor(*part[(size_t) (std::find_if(part.begin(), part.end(), [](Curve* x) { return x != nullptr; }) - part.begin())], j < 2 ? 0 : j < 5 ? 2 : 3, (int64_t) (r.next() >> 1)) : 0; for (float& v : out) v = 1e9f; mc->Evaluate(t, out);
							for (size_t d = 0; d < n; ++d)
							{
								if (!part[d]) { if (std::fabs(out[d] - defs[d]) > 1e-3) violate("merge-default", "a merged value without a curve is %g at %g instead of %g", out[d], t, defs[d]); continue; }
								const Curve& x = *part[d]; if (x.keys.empty()) continue; bool key = false; for (auto& k : x.keys) key |= k.t == t;
								// Sampled exactly: straight lines between straight lines, and keys that all curves share.
								bool inRange = t >= x.keys.front().t && t <= x.keys.back().t; bool exact = (uniform && kind == LINEAR && inRange) || (uniform && sameTimes && kind != TCB && (inRange || (x.pre == 0 && x.post == 0)));
								if (sameTimes && uniform && kind == BEZIER && !flat2d) exact = key; if (kind == BEZIER && x.keys.size() < 2 && !key) exact = false;
								if (!exact) continue;
								Curve c2 = x; Range g = expect(c2, t); if (g.any) continue; probe("merged value compared");
								if (!(out[d] >= g.lo - 1e-3 && out[d] <= g.hi + 1e-3)) violate("merge-value", "the merged curve gives %g at %g for dimension %zu, not within [%g, %g] (kind %d, same times %d, %s)", out[d], t, d, g.lo, g.hi, kind, sameTimes, flat2d ? "2D" : "1D");
							}
						}
						FCDAnimationCurve* back = FCDAnimationCurveTools::Collapse(mc, FCDAnimationCurveTools::TakeFirst);
						if (back) { for (size_t i = 0; i < mc->GetKeyCount(); ++i) { if (back->GetKey(i)->input != mc->GetKey(i)->input || back->GetKey(i)->output != mc->GetKey(i)->output[0]) violate("collapse", "a collapsed curve differs from the first dimension of the merged one"); if (!dup && mc->GetKey(i)->interpolation == FUDaeInterpolation::BEZIER) { auto* a = (FCDAnimationMKeyBezier*) mc->GetKey(i); auto* b = (FCDAnimationKeyBezier*) back->GetKey(i); if (a->inTangent[0].x != b->inTangent.x || a->inTangent[0].y != b->inTangent.y || a->outTangent[0].x != b->outTangent.x || a->outTangent[0].y != b->outTangent.y) violate("collapse", "the tangents of a collapsed curve differ from those of the merged one"); } } back->Release(); }
						mc->Release();
						for (auto* x : part) if (x) checkKeys(x->c, *x, "after merging it");
					}
					for (auto& x : e.cs) checkKeys(x.c, x, "after the operation");
				}
				if (end < plan.ops.size())
				{
					s.reset(); if (!save(e.doc, SIMDIR "/eval.dae") || s.err.errors) violate("save-refused", "the document could not be saved: %s", s.err.list.empty() ? "no error" : s.err.list[0].c_str());
					for (auto& x : e.cs) checkKeys(x.c, x, "after saving");
					S w = strf("%zu %zu\n", e.lights.size(), e.cs.size());
					for (auto& c : e.cs) { w += strf("%d %d %d %d %zu\n", c.light, c.el, c.pre, c.post, c.keys.size()); for (auto& k : c.keys) { w += put(k.t) + put(k.v) + strf("%d ", k.k) + put(k.ix) + put(k.iy) + put(k.ox) + put(k.oy); for (float x : k.tc) w += put(x); } w += strf("\n%zu ", c.seen.size()); for (auto& x : c.seen) w += put(x.first) + put(x.second); w += "\n"; }
					disk::put("/want", w); probe("saved and loaded");
				}
				e.doc->Release(); s.close();
			});
			at = end + 1; ++gen;
		}
	}
	Reg r0("eval", genEval, runEval);
}
