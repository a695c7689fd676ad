// S15: tracked pointers, tracked lists, owned containers, references, vectors, lists, maps and trees against simple models.
#include "model.h"
#include <algorithm>
#include <list>
#include <set>
#include "FUtils/FUTracker.h"
#include "FMath/FMTree.h"
#include "FMath/FMSort.h"
using namespace sim; using namespace model;
namespace
{
	// A value that knows where it lives: bitwise moves, double destruction and lost destruction all show.
	int fatLive = 0;
	struct Fat
	{
		int v; Fat* self; int* heap;
		Fat() : v(0), self(this), heap(new int(0)) { ++fatLive; }
		Fat(int x) : v(x), self(this), heap(new int(x)) { ++fatLive; }
		Fat(const Fat& o) : v(o.v), self(this), heap(new int(o.v)) { o.check(); ++fatLive; }
		Fat& operator=(const Fat& o) { check(); o.check(); v = o.v; *heap = o.v; return *this; }
		~Fat() { check(); self = nullptr; delete heap; heap = nullptr; --fatLive; }
		void check() const { if (self != this || !heap || *heap != v) violate("value-corrupt", "a value in a container was moved, destroyed or never built"); }
		bool operator==(const Fat& o) const { check(); o.check(); return v == o.v; }
		bool operator<(const Fat& o) const { check(); o.check(); return v < o.v; }
	};
	typedef std::vector<int> VI;

	// ---- vectors, lists, maps ----------------------------------------------------------------------------------------
	template <class T> struct Get { static int g(const T& x) { return (int) x; } };
	template <> struct Get<Fat> { static int g(const Fat& x) { x.check(); return x.v; } };
	template <class V, class T> void compareVec(const V& v, const VI& m, const char* what)
	{
		bool bad = v.size() != m.size() || v.empty() != m.empty(); size_t i = 0;
		for (; !bad && i < m.size(); ++i) bad = Get<T>::g(v[i]) != m[i] || Get<T>::g(v.at(i)) != m[i];
		if (!bad) { i = 0; for (auto it = v.begin(); it != v.end(); ++it, ++i) if (i >= m.size() || Get<T>::g(*it) != m[i]) { bad = true; break; } bad = bad || i != m.size(); }
		if (!bad && v.capacity() < v.size()) bad = true;
		if (bad) violate(S("vector-differs:") + what, "%s holds %zu values, the model %zu; first difference at %zu", what, v.size(), m.size(), i);
	}
	template <class T> struct VecWorld
	{
		fm::vector<T>* v[3]; VI m[3];
		VecWorld() { for (auto& x : v) x = new fm::vector<T>(); }
		~VecWorld() { for (auto& x : v) delete x; }
		void op(int64_t kind, int64_t a, int64_t b, int64_t c)
		{
			size_t i = (size_t) a % 3; fm::vector<T>& x = *v[i]; VI& y = m[i]; size_t n = y.size(); int val = (int) (c % 1000); size_t at = n ? (size_t) b % (n + 1) : 0; size_t el = n ? (size_t) b % n : 0;
			switch (kind % 28)
			{
			case 0: case 1: x.push_back(T(val)); y.push_back(val); break;
			case 2: x.push_front(T(val)); y.insert(y.begin(), val); break;
			case 3: { auto it = x.insert(x.begin() + at, T(val)); if ((size_t) (it - x.begin()) != at) violate("vector-iterator", "insert answered position %zu, not %zu", (size_t) (it - x.begin()), at); y.insert(y.begin() + (long) at, val); break; }
			case 4: x.insert(at, T(val)); y.insert(y.begin() + (long) at, val); break;
			case 5: if (n) { x.pop_back(); y.pop_back(); } break;
			case 6: if (n) { x.pop_front(); y.erase(y.begin()); } break;
			case 7: if (n) { auto it = x.erase(x.begin() + el); if ((size_t) (it - x.begin()) != el) violate("vector-iterator", "erase answered position %zu, not %zu", (size_t) (it - x.begin()), el); y.erase(y.begin() + (long) el); } break;
			case 8: if (n) { x.erase(el); y.erase(y.begin() + (long) el); } break;
			case 9: if (n) { size_t to = el + 1 + (size_t) c % (n - el); if (c & 1) x.erase(x.begin() + el, x.begin() + to); else x.erase(el, to); y.erase(y.begin() + (long) el, y.begin() + (long) to); } break;
			case 10: { bool had = std::find(y.begin(), y.end(), val % 8) != y.end(); if (x.erase(T(val % 8)) != had) violate("vector-erase-value", "erasing a value answered %d, the model %d", !had, had); if (had) y.erase(std::find(y.begin(), y.end(), val % 8)); break; }
			case 11: { size_t k = (size_t) c % 6; x.resize(k, T(val)); size_t o = y.size(); y.resize(k, val); (void) o; break; }
			case 12: { size_t k = (size_t) c % 40; x.reserve(std::max(k, n)); break; }
			case 13: x.clear(); y.clear(); break;
			case 14: { size_t k = (size_t) c % 50; x.insert(x.begin() + at, k, T(val)); y.insert(y.begin() + (long) at, k, val); break; }
			case 15: { size_t k = (size_t) c % 5; x.insert(at, k, T(val)); y.insert(y.begin() + (long) at, k, val); break; }
			case 16: { size_t k = (size_t) c % 60; std::vector<T> src; for (size_t q = 0; q < k; ++q) src.push_back(T((int) (val + (int) q) % 1000)); x.insert(x.begin() + at, src.data(), k); for (size_t q = 0; q < k; ++q) y.insert(y.begin() + (long) (at + q), (int) (val + (int) q) % 1000); break; }
			case 17: { size_t o = (size_t) c % 3; if (o != i) { x.insert(x.begin() + at, v[o]->begin(), v[o]->end()); VI cp = m[o]; y.insert(y.begin() + (long) at, cp.begin(), cp.end()); } break; }
			case 18: { size_t o = (size_t) c % 3; x = *v[o]; VI cp = m[o]; y = cp; break; }
			case 19: { size_t o = (size_t) c % 3; fm::vector<T>* nv = new fm::vector<T>(*v[o]); VI cp = m[o]; delete v[i]; v[i] = nv; m[i] = cp; break; }
			case 20: { x.replace(T(val % 8), T(val % 5)); std::replace(y.begin(), y.end(), val % 8, val % 5); break; }
			case 21: { bool had = std::find(y.begin(), y.end(), val % 8) != y.end(); if (x.contains(T(val % 8)) != had) violate("vector-contains", "contains answers %d, the model %d", !had, had); break; }
			case 22: { size_t o = (size_t) c % 3; if ((x == *v[o]) != (y == m[o])) violate("vector-equality", "comparing two vectors answers %d, the model %d", !(y == m[o]), y == m[o]); break; }
			case 23: { delete v[i]; size_t k = (size_t) c % 30; v[i] = new fm::vector<T>(k, T(val)); m[i].assign(k, val); break; }
			// An element of the vector itself is put in again: it moves while it is being copied.
			case 25: if (n) { int own = y[el]; if (c & 1) { x.push_back(x[el]); y.push_back(own); } else { x.insert(x.begin() + at, x[el]); y.insert(y.begin() + (long) at, own); } probe("vector: own element added"); } break;
			case 26: if (n) { int own = y[el]; size_t k = (size_t) c % 40; x.insert(x.begin() + at, k, x[el]); y.insert(y.begin() + (long) at, k, own); } break;
			case 27: if (n) { int own = y[el]; size_t k = (size_t) c % 60; x.resize(k, x[el]); y.resize(k, own); } break;
			case 24: if (n) { x[el] = T(val); y[el] = val; if (!(x.front() == T(y.front())) || !(x.back() == T(y.back()))) violate("vector-ends", "front or back differ from the model"); } break;
			}
			for (int q = 0; q < 3; ++q) compareVec<fm::vector<T>, T>(*v[q], m[q], std::is_same<T, Fat>::value ? "vector of objects" : "vector of numbers");
		}
	};
	template <class D> struct MapWorld
	{
		fm::map<int, D>* t[2]; std::map<int, int> m[2];
		MapWorld() { for (auto& x : t) x = new fm::map<int, D>(); }
		~MapWorld() { for (auto& x : t) delete x; }
		void compare(int i)
		{
			const fm::map<int, D>& c = *t[i]; if (c.size() != m[i].size() || c.empty() != m[i].empty()) violate("map-size", "the map holds %zu elements, the model %zu", c.size(), m[i].size());
			auto w = m[i].begin(); size_t n = 0;
			for (auto it = c.begin(); it != c.end(); ++it, ++w, ++n) if (w == m[i].end() || it->first != w->first || Get<D>::g(it->second) != w->second) violate("map-order", "walking the map forwards differs from the model at element %zu", n);
			if (w != m[i].end()) violate("map-order", "walking the map forwards ends after %zu of %zu elements", n, m[i].size());
			if (!m[i].empty())
			{
				auto r = m[i].rbegin(); auto it = t[i]->last(); n = 0;
				while (true) { if (r == m[i].rend() || it->first != r->first) violate("map-order", "walking the map backwards differs from the model at element %zu", n); ++r; ++n; if (it == t[i]->begin()) break; --it; }
				if (r != m[i].rend()) violate("map-order", "walking the map backwards ends after %zu of %zu elements", n, m[i].size());
			}
		}
		void op(int64_t kind, int64_t a, int64_t b, int64_t c)
		{
			size_t i = (size_t) a % 2; int key = (int) (b % 40), val = (int) (c % 1000); auto& x = *t[i]; auto& y = m[i];
			switch (kind % 10)
			{
			case 0: case 1: case 2: { auto it = x.insert(key, D(val)); y[key] = val; if (it->first != key || Get<D>::g(it->second) != val) violate("map-insert", "insert answers another element"); break; }
			case 3: x[key] = D(val); y[key] = val; break;
			case 4: case 5: if (y.count(key)) { x.erase(key); y.erase(key); } break;
			case 6: { auto it = x.find(key); bool had = y.count(key) != 0; if ((it != x.end()) != had || (had && Get<D>::g(it->second) != y[key])) violate("map-find", "looking up a key gives another answer than the model"); if (had && (c & 1)) { x.erase(it); y.erase(key); } break; }
			case 7: if (b % 7 == 0) { x.clear(); y.clear(); } break;
			case 8: { size_t o = (size_t) c % 2; std::map<int, int> cp = m[o]; if (b & 1) x = *t[o]; else { auto* nw = new fm::map<int, D>(*t[o]); delete t[i]; t[i] = nw; } m[i] = cp; break; }
			case 9: { for (int k = 0; k < (int) (c % 30); ++k) { int kk = key + ((c & 1) ? k : -k); x.insert(kk, D(k)); y[kk] = k; } break; }
			}
			compare(0); compare(1);
		}
	};

	// ---- objects, pointers, lists, owners ----------------------------------------------------------------------------
	class TObj; class Hook;
	std::vector<TObj*> obj; std::vector<int> alive, parent; // parent: -1 none, 0..99 object, 100+ container, 200+ reference
	const int NP = 6, NL = 3, NC = 3, NR = 3, NH = 5;
	std::vector<FUTrackedPtr<TObj>*> tp; VI mp; FUTrackedList<TObj>* tl[NL]; VI ml[NL]; FUObjectContainer<TObj>* oc[NC]; VI mc[NC]; FUObjectRef<TObj>* rf[NR]; int mr[NR]; Hook* hk[NH]; std::vector<VI> kidsOf;
	int deaths = 0; bool inDeath = false; int hookFired = 0;
	void modelDeath(int id);
	class TObj : public FUTrackable
	{
	public:
		int id; FUObjectContainer<TObj> kids;
		TObj(int i) : id(i) {}
		bool destroyed = false;
		virtual ~TObj() { if (alive[(size_t) id]) violate("destroyed-unreleased", "object %d was destroyed without a release", id); if (destroyed) violate("destroyed-twice", "object %d was destroyed twice", id); destroyed = true; ++deaths; }
		virtual void Release() { if (!alive[(size_t) id]) violate("released-twice", "object %d was released twice", id); modelDeath(id); FUTrackable::Release(); }
	};
	class Hook : public FUTracker
	{
	public:
		int target = -1; int64_t act = 0, x = 0, y = 0;
		void set(int id) { if (target >= 0 && alive[(size_t) target]) UntrackObject(obj[(size_t) target]); target = id; if (id >= 0) TrackObject(obj[(size_t) id]); }
		virtual void OnObjectReleased(FUTrackable* o);
		virtual ~Hook() { }
	};
	void rm(VI& v, int x) { v.erase(std::remove(v.begin(), v.end(), x), v.end()); }
	void detachModel(int id)
	{
		int p = parent[(size_t) id]; if (p >= 200) mr[p - 200] = -1; else if (p >= 100) rm(mc[p - 100], id); else if (p >= 0) rm(kidsOf[(size_t) p], id);
		parent[(size_t) id] = -1;
	}
	void modelDeath(int id)
	{
		alive[(size_t) id] = 0; detachModel(id);
		for (auto& p : mp) if (p == id) p = -1;
		for (auto& l : ml) rm(l, id);
	}
	int firstAlive(int64_t n) { std::vector<int> l; for (size_t i = 0; i < obj.size(); ++i) if (alive[i]) l.push_back((int) i); return l.empty() ? -1 : l[(size_t) n % l.size()]; }
	bool ancestorOrSelf(int a, int of) { while (of >= 0 && of < 100) { if (a == of) return true; of = parent[(size_t) of]; } return false; }
	void setPtr(size_t k, int id) { *tp[k] = id < 0 ? nullptr : obj[(size_t) id]; mp[k] = id; }
	void kill(int id) { obj[(size_t) id]->Release(); if (alive[(size_t) id]) violate("not-destroyed", "a released object was not destroyed"); }
	void Hook::OnObjectReleased(FUTrackable* o)
	{
		if (target < 0 || o != obj[(size_t) target]) violate("tracker-called-wrongly", "a tracker was told of an object it does not track (any more)");
		target = -1; ++hookFired; probe("tracker acts while an object dies");
		size_t k = (size_t) x % (size_t) NP;
		switch (act % 6)
		{
		case 1: setPtr(k, -1); break;                                                       // stop tracking, maybe the dying object itself
		case 2: { delete tp[k]; tp[k] = new FUTrackedPtr<TObj>(); mp[k] = -1; break; }        // a pointer disappears
		case 3: setPtr(k, firstAlive(y)); break;                                            // a pointer moves to another object
		case 4: { int id = firstAlive(y); auto& l = ml[x % NL]; if (id >= 0 && std::find(l.begin(), l.end(), id) == l.end()) { tl[x % NL]->push_back(obj[(size_t) id]); l.push_back(id); } break; }
		case 5: { int h = (int) (x % NH); if (hk[h]->target >= 0) { Hook* q = hk[h]; int t = q->target; q->target = -1; struct Acc : Hook { static void un(Hook* z, FUTrackable* ob) { (z->*(&Acc::UntrackObject))(ob); } }; Acc::un(q, obj[(size_t) t]); } break; } // another tracker gives up
		default: break;
		}
	}
	void worldCheck()
	{
		for (size_t k = 0; k < tp.size(); ++k)
		{
			TObj* p = *tp[k]; TObj* want = mp[k] < 0 ? nullptr : obj[(size_t) mp[k]];
			if (p != want) violate(mp[k] < 0 ? "pointer-dangling" : "pointer-lost", "tracked pointer %zu points to %s, the model says %s", k, p ? "an object" : "nothing", want ? "an object that lives" : "nothing");
		}
		for (int k = 0; k < NL; ++k)
		{
			auto& l = *tl[k]; bool bad = l.size() != ml[k].size() || l.empty() != ml[k].empty(); for (size_t i = 0; !bad && i < l.size(); ++i) bad = l[i] != obj[(size_t) ml[k][i]] || l.at(i) != l[i] || !l.contains(l[i]) || !l.TracksObject(l[i]);
			if (bad) violate("list-differs", "tracked list %d holds %zu objects, the model %zu", k, l.size(), ml[k].size());
		}
		for (int k = 0; k < NC; ++k)
		{
			auto& c = *oc[k]; bool bad = c.size() != mc[k].size(); for (size_t i = 0; !bad && i < c.size(); ++i) bad = c.at(i) != obj[(size_t) mc[k][i]] || !c.contains(c.at(i));
			if (bad) violate("container-differs", "container %d holds %zu objects, the model %zu", k, c.size(), mc[k].size());
		}
		for (int k = 0; k < NR; ++k) { TObj* p = *rf[k]; TObj* want = mr[k] < 0 ? nullptr : obj[(size_t) mr[k]]; if (p != want) violate("reference-differs", "reference %d does not hold what the model says", k); }
		for (size_t i = 0; i < obj.size(); ++i) if (alive[i])
		{
			auto& kd = obj[i]->kids; bool bad = kd.size() != kidsOf[i].size(); for (size_t q = 0; !bad && q < kd.size(); ++q) bad = kd.at(q) != obj[(size_t) kidsOf[i][q]];
			if (bad) violate("children-differ", "object %zu owns %zu objects, the model %zu", i, kd.size(), kidsOf[i].size());
			size_t tr = 0; for (auto p : mp) tr += p == (int) i; for (auto& l : ml) tr += std::find(l.begin(), l.end(), (int) i) != l.end(); for (auto h : hk) tr += h->target == (int) i;
			if (obj[i]->GetTrackerCount() != tr) violate("tracker-count", "object %zu has %zu trackers, the model %zu", i, obj[i]->GetTrackerCount(), tr);
		}
		for (auto h : hk) if (h->target >= 0 && !alive[(size_t) h->target]) violate("tracker-not-told", "an object died and one of its trackers was not told");
	}
	void objOp(int64_t kind, int64_t a, int64_t b, int64_t c)
	{
		int id = firstAlive(b), id2 = firstAlive(c); size_t k = (size_t) a % (size_t) NP; int l = (int) (a % NL), q = (int) (a % NC), r = (int) (a % NR);
		auto inList = [&](int x) { return std::find(ml[l].begin(), ml[l].end(), x) != ml[l].end(); };
		auto unowned = [&](int x) { return x >= 0 && parent[(size_t) x] == -1; };
		size_t n = ml[l].size(), cn = mc[q].size();
		switch (kind % 36)
		{
		case 0: case 1: case 2: if (obj.size() < 90) { int i = (int) obj.size(); alive.push_back(1); parent.push_back(-1); kidsOf.emplace_back(); obj.push_back(nullptr); obj[(size_t) i] = new TObj(i); } break;
		case 3: case 4: if (id >= 0) kill(id); break;
		case 5: case 6: if (id >= 0) setPtr(k, id); break;
		case 7: setPtr(k, -1); break;
		case 8: { size_t o = (size_t) b % (size_t) NP; *tp[k] = *tp[o]; mp[k] = mp[o]; break; }
		case 9: { size_t o = (size_t) b % (size_t) NP; auto* nw = new FUTrackedPtr<TObj>(*tp[o]); int m = mp[o]; delete tp[k]; tp[k] = nw; mp[k] = m; break; }
		case 10: case 11: if (id >= 0 && !inList(id)) { tl[l]->push_back(obj[(size_t) id]); ml[l].push_back(id); } break;
		case 12: if (id >= 0 && !inList(id)) { size_t at = (size_t) c % (n + 1); tl[l]->insert(at, obj[(size_t) id]); ml[l].insert(ml[l].begin() + (long) at, id); } break;
		case 13: if (n) { size_t at = (size_t) b % n; if (c & 1) tl[l]->erase(at); else tl[l]->erase(tl[l]->begin() + at); ml[l].erase(ml[l].begin() + (long) at); } break;
		case 14: if (id >= 0) { bool had = inList(id); if (tl[l]->erase(obj[(size_t) id]) != had) violate("list-erase", "erasing an object from a list answers %d", !had); rm(ml[l], id); } break;
		case 15: tl[l]->clear(); ml[l].clear(); break;
		case 16: if (n) { if (c & 1) { tl[l]->pop_back(); ml[l].pop_back(); } else { tl[l]->pop_front(); ml[l].erase(ml[l].begin()); } } break;
		case 17: { int o = (int) (b % NL); *tl[l] = *tl[o]; VI cp = ml[o]; ml[l] = cp; break; }
		case 18: { int o = (int) (b % NL); auto* nw = new FUTrackedList<TObj>(*tl[o]); VI cp = ml[o]; delete tl[l]; tl[l] = nw; ml[l] = cp; break; }
		case 19: if (n) { size_t f = (size_t) b % n, t = f + 1 + (size_t) c % (n - f); tl[l]->erase(f, t); ml[l].erase(ml[l].begin() + (long) f, ml[l].begin() + (long) t); } break;
		case 20: if (n) { int x = ml[l][(size_t) b % n]; if (!tl[l]->release(obj[(size_t) x])) violate("list-release", "releasing an object of a list was refused"); if (alive[(size_t) x]) violate("not-destroyed", "a released object was not destroyed"); } break;
		case 21: { VI add; for (int i : mc[q]) if (!inList(i)) add.push_back(i); if (!add.empty()) { std::vector<TObj*> s; for (int i : add) s.push_back(obj[(size_t) i]); size_t at = (size_t) c % (n + 1); tl[l]->insert(tl[l]->begin() + at, s.data(), s.data() + s.size()); ml[l].insert(ml[l].begin() + (long) at, add.begin(), add.end()); } break; }
		case 22: case 23: if (unowned(id)) { oc[q]->push_back(obj[(size_t) id]); mc[q].push_back(id); parent[(size_t) id] = 100 + q; } break;
		case 24: if (unowned(id)) { size_t at = (size_t) c % (cn + 1); oc[q]->insert(at, obj[(size_t) id]); mc[q].insert(mc[q].begin() + (long) at, id); parent[(size_t) id] = 100 + q; } break;
		case 25: if (cn) { int x = mc[q][(size_t) b % cn]; if (c % 3 == 0) oc[q]->erase((size_t) b % cn); else if (c % 3 == 1) oc[q]->erase(obj[(size_t) x]); else oc[q]->erase(oc[q]->begin() + (size_t) b % cn); if (alive[(size_t) x]) violate("not-destroyed", "an object erased from its container was not destroyed"); } break;
		case 26: if (cn) { size_t at = (size_t) b % cn; int x = mc[q][at]; if (c & 1) oc[q]->Detach(obj[(size_t) x]); else oc[q]->Detach(oc[q]->begin() + at); detachModel(x); } break;
		case 27: if (cn) { size_t f = (size_t) b % cn, t = f + 1 + (size_t) c % (cn - f); VI d(mc[q].begin() + (long) f, mc[q].begin() + (long) t); oc[q]->Detach(f, t); for (int x : d) detachModel(x); } break;
		case 28: if (c % 4 == 0) { VI d = mc[q]; oc[q]->clear(); for (int x : d) if (alive[(size_t) x]) violate("not-destroyed", "an object of a cleared container was not destroyed"); } break;
		case 29: if (cn) { int x = (c & 1) ? mc[q].back() : mc[q].front(); if (c & 1) oc[q]->pop_back(); else oc[q]->pop_front(); if (alive[(size_t) x]) violate("not-destroyed", "an object popped from its container was not destroyed"); } break;
		case 30: if (id >= 0 && id2 >= 0 && unowned(id) && !ancestorOrSelf(id, id2)) { obj[(size_t) id2]->kids.push_back(obj[(size_t) id]); kidsOf[(size_t) id2].push_back(id); parent[(size_t) id] = id2; } break;
		case 31: if (unowned(id)) { int old = mr[r]; *rf[r] = obj[(size_t) id]; if (old >= 0 && alive[(size_t) old]) violate("not-destroyed", "the object a reference held was not destroyed"); if (alive[(size_t) id]) { mr[r] = id; parent[(size_t) id] = 200 + r; } } break;
		case 32: { int o = (int) (b % NR); int old = mr[r], x = mr[o]; if (o != r) { *rf[r] = *rf[o]; if (old >= 0 && alive[(size_t) old]) violate("not-destroyed", "the object a reference held was not destroyed"); mr[o] = -1; mr[r] = x; if (x >= 0) parent[(size_t) x] = 200 + r; } break; }
		case 33: { int old = mr[r]; *rf[r] = (TObj*) nullptr; if (old >= 0 && alive[(size_t) old]) violate("not-destroyed", "the object a reference held was not destroyed"); break; }
		case 34: case 35: { Hook* h = hk[a % NH]; h->set(-1); h->act = b / 7; h->x = c; h->y = b / 3; if (id >= 0) h->set(id); break; }
		}
		worldCheck();
	}
	void gen(Rng& r, Plan& p, int tier)
	{
		int style = (int) r.below(4); int n = (int) r.range(10, tier ? 160 : 90);
		for (int i = 0; i < n; ++i)
		{
			int w = style == 0 ? 0 : style == 1 ? (int) r.range(1, 2) : style == 2 ? 3 + (int) r.below(2) : (int) r.below(5);
			p.ops.push_back(Op("do", {w, w == 0 && r.chance(0.25) ? 0 : (int64_t) r.below(3600), (int64_t) r.below(1000), (int64_t) r.below(1000), (int64_t) r.below(1000)}));
		}
	}
	void run(const Plan& plan)
	{
		life([&]()
		{
			for (int i = 0; i < NP; ++i) { tp.push_back(new FUTrackedPtr<TObj>()); mp.push_back(-1); }
			for (auto& x : tl) x = new FUTrackedList<TObj>();
			for (auto& x : oc) x = new FUObjectContainer<TObj>();
			for (int i = 0; i < NR; ++i) { rf[i] = new FUObjectRef<TObj>(); mr[i] = -1; }
			for (auto& x : hk) x = new Hook();
			{
				VecWorld<int> vi; VecWorld<Fat> vf; MapWorld<int> mi; MapWorld<Fat> mf;
				for (auto& o : plan.ops)
				{
					int64_t k = o.arg(1), a = o.arg(2), b = o.arg(3), c = o.arg(4); int d0 = deaths;
					switch (o.arg(0)) { case 0: objOp(k, a, b, c); break; case 1: vi.op(k, a, b, c); break; case 2: vf.op(k, a, b, c); break; case 3: mi.op(k, a, b, c); break; default: mf.op(k, a, b, c); break; }
					if (deaths > d0) fault("object dies", (uint64_t) (deaths - d0));
					if (o.arg(0) == 0) trace(strf("o%d/%d", (int) (k % 36), deaths - d0)); else trace(strf("%d:%d", (int) o.arg(0), (int) k % 25));
				}
			}
			if (fatLive != 0) violate("values-leaked", "%d values of containers were never destroyed", fatLive);
			// Everything goes, in an order the plan decides.
			size_t total = obj.size(); uint64_t order = plan.seed;
			for (int i = 0; i < 9; ++i)
			{
				int j = (int) ((order >> i) + (uint64_t) i) % 9;
				for (int q = 0; q < 9; ++q)
				{
					int w = (j + q) % 9; if (w < 3 && oc[w]) { delete oc[w]; oc[w] = nullptr; for (int x = 0; x < (int) total; ++x) if (alive[(size_t) x] && parent[(size_t) x] == 100 + w) violate("not-destroyed", "the container died and its object lives"); break; }
					if (w >= 3 && w < 6 && tl[w - 3]) { delete tl[w - 3]; tl[w - 3] = new FUTrackedList<TObj>(); ml[w - 3].clear(); break; }
					if (w >= 6 && rf[w - 6]) { delete rf[w - 6]; rf[w - 6] = nullptr; for (int x = 0; x < (int) total; ++x) if (alive[(size_t) x] && parent[(size_t) x] == 200 + w - 6) violate("not-destroyed", "the reference died and its object lives"); break; }
				}
			}
			for (size_t i = 0; i < total; ++i) if (alive[i]) kill((int) i);
			for (size_t k = 0; k < tp.size(); ++k) if ((TObj*) *tp[k]) violate("pointer-dangling", "a tracked pointer still points to an object although all died");
			if (deaths != (int) total) violate("objects-leaked", "%d of %zu objects were destroyed", deaths, total);
		});
	}
	Reg r0("containers", gen, run);
}
