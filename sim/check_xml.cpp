// What every acknowledged save must be, whatever the document: XML whose identifiers are unique, whose references reach what
// they name, and whose counts, strides and indices agree with the values next to them (COLLADA 1.4).
#include "model.h"
#include <set>
#include <functional>
#include <libxml/parser.h>
#include <libxml/tree.h>
using namespace sim;
namespace model
{
namespace
{
	S str(const xmlChar* c) { return c ? (const char*) c : ""; }
	S prop(xmlNode* n, const char* a) { xmlChar* v = xmlGetProp(n, BAD_CAST a); S r = str(v); if (v) xmlFree(v); return r; }
	S content(xmlNode* n) { xmlChar* v = xmlNodeGetContent(n); S r = str(v); if (v) xmlFree(v); return r; }
	bool is(xmlNode* n, const char* name) { return n && !strcmp((const char*) n->name, name); }
	bool in(xmlNode* n, std::initializer_list<const char*> l) { for (auto* x : l) if (is(n, x)) return true; return false; }
	std::vector<xmlNode*> kids(xmlNode* n, const char* name = nullptr) { std::vector<xmlNode*> v; for (xmlNode* c = n->children; c; c = c->next) if (c->type == XML_ELEMENT_NODE && (!name || is(c, name))) v.push_back(c); return v; }
	xmlNode* kid(xmlNode* n, const char* name) { auto v = kids(n, name); return v.empty() ? nullptr : v[0]; }
	std::vector<S> words(const S& s) { std::vector<S> v; const char* w = " \t\r\n"; for (size_t i = 0; (i = s.find_first_not_of(w, i)) != S::npos;) { size_t e = s.find_first_of(w, i); if (e == S::npos) e = s.size(); v.push_back(s.substr(i, e - i)); i = e; } return v; }
	bool whole(const S& t) { size_t i = !t.empty() && t[0] == '-'; return i < t.size() && t.find_first_not_of("0123456789", i) == S::npos; }
	bool real(const S& t) { if (t == "INF" || t == "-INF" || t == "NaN") return true; if (t.empty() || t.find_first_not_of("0123456789+-.eE") != S::npos) return false; char* e; strtod(t.c_str(), &e); return *e == 0; }

	struct Check
	{
		std::map<S, xmlNode*> ids; std::set<S> extraIds; bool complete = true;
		S where(xmlNode* n) { S id = prop(n, "id"); for (xmlNode* p = n; id.empty() && p && p->type == XML_ELEMENT_NODE; p = p->parent) id = prop(p, "id"); return "<" + str(n->name) + "> of '" + id.substr(0, 80) + "'"; }
		void bad(const char* cls, xmlNode* n, const S& what) { violate(S("file-") + cls, "the saved file is inconsistent: %s: %s", where(n).c_str(), what.c_str()); }
		xmlNode* reach(xmlNode* n, const S& ref, std::initializer_list<const char*> kinds, const char* cls = "dangling-source")
		{
			if (ref.empty() || ref[0] != '#') { if (ref.empty()) bad(cls, n, "it refers to nothing"); return nullptr; }   // another document
			auto f = ids.find(ref.substr(1)); if (f == ids.end()) bad(cls, n, "it refers to '" + ref.substr(0, 100) + "', which the file does not contain");
			for (auto* k : kinds) if (is(f->second, k)) return f->second;
			bad("wrong-kind", n, "it refers to '" + ref.substr(0, 100) + "', which is a <" + str(f->second->name) + ">"); return nullptr;
		}
		long number(xmlNode* n, const char* attr) { S v = prop(n, attr); if (!whole(v)) bad("count", n, S(attr) + " is '" + v.substr(0, 40) + "'"); return atol(v.c_str()); }
		static xmlNode* array(xmlNode* source) { for (auto* k : kids(source)) if (in(k, {"float_array", "Name_array", "IDREF_array", "int_array", "bool_array"})) return k; return nullptr; }
		// Number of elements an <input> of a source can be indexed with; -1 when not known.
		long size(xmlNode* source) { if (!source) return -1; xmlNode* t = kid(source, "technique_common"); xmlNode* a = t ? kid(t, "accessor") : nullptr; return a ? number(a, "count") : -1; }
		void source(xmlNode* n)
		{
			xmlNode* a = array(n); if (!a) return;
			auto v = words(content(a)); long count = number(a, "count");
			if ((long) v.size() != count && !is(a, "Name_array") && !is(a, "IDREF_array")) bad("count", n, strf("an array of %zu values says it has %ld", v.size(), count));
			if (is(a, "float_array")) for (auto& t : v) if (!real(t)) bad("number", n, "'" + t.substr(0, 40) + "' is not a number");
			xmlNode* t = kid(n, "technique_common"); xmlNode* c = t ? kid(t, "accessor") : nullptr; if (!c) { bad("accessor", n, "it has no accessor"); return; }
			if (prop(n, "id").empty() || prop(c, "source") != "#" + prop(a, "id")) bad("accessor", n, "its accessor reads '" + prop(c, "source").substr(0, 80) + "' and its array is '" + prop(a, "id").substr(0, 80) + "'");
			long stride = prop(c, "stride").empty() ? 1 : number(c, "stride"), many = number(c, "count"), width = 0;
			for (auto* p : kids(c, "param"))
			{
				S ty = prop(p, "type"), nm = prop(p, "name"); bool names = is(a, "Name_array") || is(a, "IDREF_array");
				if (names != (ty == "name" || ty == "Name" || ty == "IDREF")) bad("accessor", n, "values of <" + str(a->name) + "> are said to be of type '" + ty + "'");
				if (nm.find_first_not_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_()") != S::npos) bad("accessor", n, "a component is called '" + nm.substr(0, 40) + "'");
			}
			for (auto* p : kids(c, "param")) { S ty = prop(p, "type"); width += ty == "float4x4" ? 16 : ty == "float3" ? 3 : 1; }
			if (stride < 1 || many < 0 || many * stride != count) bad("accessor", n, strf("its accessor reads %ld times %ld of %ld values", many, stride, count));
			if (width != stride && !(stride == 32 && width == 16))   // a pair for each number of a matrix
				 bad("accessor", n, strf("its accessor names %ld of %ld components", width, stride));
		}
		struct In { S semantic; long offset, size; };
		std::vector<In> inputs(xmlNode* n, bool shared)
		{
			std::vector<In> v;
			for (auto* i : kids(n, "input"))
			{
				In x; x.semantic = prop(i, "semantic"); x.offset = 0; x.size = -1; if (x.semantic == "DRIVER") continue;
				if (x.semantic.empty()) bad("input", n, "an input has no semantic");
				xmlNode* t = reach(i, prop(i, "source"), {"source", "vertices"});
				if (t && is(t, "vertices")) { if (x.semantic != "VERTEX") bad("input", n, "the vertices are used as " + x.semantic); for (auto* p : kids(t, "input")) if (prop(p, "semantic") == "POSITION") x.size = size(ids.count(prop(p, "source").substr(1)) ? ids[prop(p, "source").substr(1)] : nullptr); }
				else x.size = size(t);
				if (shared) { x.offset = number(i, "offset"); if (x.offset < 0) bad("input", n, "an offset is negative"); }
				v.push_back(x);
			}
			return v;
		}
		void indices(xmlNode* n, xmlNode* p, const std::vector<In>& ins, long stride, long least)
		{
			auto v = words(content(p));
			for (auto& t : v) if (!whole(t)) bad("indices", n, "'" + t.substr(0, 40) + "' is not an index");
			if (v.size() % (size_t) stride) bad("indices", n, strf("%zu indices do not make whole corners of %ld", v.size(), stride));
			for (auto& i : ins) if (i.size >= 0) for (size_t k = (size_t) i.offset; k < v.size(); k += (size_t) stride) { long x = atol(v[k].c_str()); if (x < least || x >= i.size) bad("indices", n, strf("index %ld of %s is out of the %ld there are", x, i.semantic.c_str(), i.size)); }
		}
		static size_t total(const std::vector<S>& v) { size_t t = 0; for (auto& x : v) t += (size_t) atol(x.c_str()); return t; }
		void primitive(xmlNode* n)
		{
			auto ins = inputs(n, true); long stride = 0; for (auto& i : ins) stride = std::max(stride, i.offset + 1); if (!stride) bad("input", n, "it has no inputs");
			bool vertex = false; for (auto& i : ins) vertex |= i.semantic == "VERTEX"; if (!vertex) bad("input", n, "it has no vertices");
			long count = number(n, "count"); auto ps = kids(n, "p"); size_t corners = 0, prims = 0;
			for (auto* ph : kids(n, "ph")) { xmlNode* p = kid(ph, "p"); if (!p) bad("indices", n, "a face with holes has no indices"); else { indices(n, p, ins, stride, 0); ++prims; } for (auto* h : kids(ph, "h")) indices(n, h, ins, stride, 0); }
			for (auto* p : ps) { indices(n, p, ins, stride, 0); corners += words(content(p)).size() / (size_t) stride; ++prims; }
			if (is(n, "triangles") && corners != 3 * (size_t) count) bad("count", n, strf("%zu corners are not those of %ld triangles", corners, count));
			if (is(n, "lines") && corners != 2 * (size_t) count) bad("count", n, strf("%zu corners are not those of %ld lines", corners, count));
			if (in(n, {"polygons", "tristrips", "trifans", "linestrips"}) && prims != (size_t) count) bad("count", n, strf("%zu primitives where it says %ld", prims, count));
			if (is(n, "polylist")) { xmlNode* c = kid(n, "vcount"); auto v = words(c ? content(c) : S()); if (v.size() != (size_t) count || total(v) != corners) bad("count", n, strf("%zu faces of %zu corners where it says %ld, with %zu corners", v.size(), total(v), count, corners)); }
		}
		void weights(xmlNode* n)
		{
			auto ins = inputs(n, true); long stride = 0; for (auto& i : ins) stride = std::max(stride, i.offset + 1); if (!stride) bad("input", n, "it has no inputs");
			xmlNode *c = kid(n, "vcount"), *v = kid(n, "v"); auto counts = words(c ? content(c) : S()); long count = number(n, "count");
			if ((long) counts.size() != count) bad("count", n, strf("%zu vertices where it says %ld", counts.size(), count));
			size_t have = v ? words(content(v)).size() : 0; if (have != total(counts) * (size_t) stride) bad("count", n, strf("%zu influences where it says %zu", have / (size_t) stride, total(counts)));
			if (v) indices(n, v, ins, stride, -1);
		}
		void sampler(xmlNode* n)
		{
			auto ins = inputs(n, false); long keys = -1; S seen;
			for (auto& i : ins) { seen += i.semantic + " "; if (i.size < 0) continue; if (keys < 0) keys = i.size; if (keys != i.size) bad("count", n, strf("%ld keys have %ld of %s", keys, i.size, i.semantic.c_str())); }
			if (seen.find("INPUT ") == S::npos || seen.find("OUTPUT ") == S::npos || seen.find("INTERPOLATION ") == S::npos) bad("input", n, "it has only " + seen);
		}
		void joints(xmlNode* n, const char* a, const char* b)
		{
			auto ins = inputs(n, false); long x = -1, y = -1; for (auto& i : ins) { if (i.semantic == a) x = i.size; if (i.semantic == b) y = i.size; }
			if (x < 0 || y < 0) bad("input", n, S("it needs ") + a + " and " + b); if (x != y) bad("count", n, strf("%ld of %s and %ld of %s", x, a, y, b));
		}
		xmlNode* sid(xmlNode* n, const S& s) { for (auto* k : kids(n)) { if (prop(k, "sid") == s) return k; if (prop(k, "id").empty()) { xmlNode* f = sid(k, s); if (f) return f; } } return nullptr; }
		void channel(xmlNode* n)
		{
			reach(n, prop(n, "source"), {"sampler"}); S t = prop(n, "target"); if (t.empty()) { bad("target", n, "it animates nothing"); return; }
			size_t at = t.find('/'); S id = t.substr(0, at); if (at == S::npos) { size_t q = id.find('('); if (q != S::npos) id = id.substr(0, q); }
			auto f = ids.find(id); if (f == ids.end() && extraIds.count(id)) return;
			if (f == ids.end()) { bad("target", n, "it animates '" + t.substr(0, 100) + "', which the file does not contain"); return; }
			xmlNode* x = f->second;
			while (at != S::npos)
			{
				size_t e = t.find('/', at + 1); S s = t.substr(at + 1, e == S::npos ? e : e - at - 1); if (e == S::npos) { size_t q = s.find_first_of(".("); if (q != S::npos) s = s.substr(0, q); }
				xmlNode* y = sid(x, s); if (!y) { bad("target", n, "it animates '" + t.substr(0, 100) + "', where there is no '" + s + "'"); return; }
				x = y; at = e;
			}
		}
		void walk(xmlNode* n)
		{
			if (is(n, "extra")) return;
			if (!complete)
			{
				if (in(n, {"accessor", "sampler", "channel"}) || (is(n, "input") && prop(n, "semantic") != "DRIVER")) { S r = prop(n, "source"); if (r.size() > 1 && r[0] == '#' && !ids.count(r.substr(1))) bad("dangling-source", n, "it refers to '" + r.substr(0, 100) + "', which the file does not contain"); }
				for (auto* k : kids(n)) walk(k);
				return;
			}
			if (is(n, "source")) source(n);
			else if (in(n, {"triangles", "lines", "polygons", "polylist", "tristrips", "trifans", "linestrips"})) primitive(n);
			else if (is(n, "vertices")) { bool pos = false; for (auto& i : inputs(n, false)) pos |= i.semantic == "POSITION"; if (!pos) bad("input", n, "it has no positions"); }
			else if (is(n, "vertex_weights")) weights(n);
			else if (is(n, "sampler") && is(n->parent, "animation")) sampler(n);
			else if (is(n, "joints")) joints(n, "JOINT", "INV_BIND_MATRIX");
			else if (is(n, "targets")) joints(n, "MORPH_TARGET", "MORPH_WEIGHT");
			else if (is(n, "control_vertices")) inputs(n, false);
			else if (is(n, "channel")) channel(n);
			else if (in(n, {"skin", "morph"})) reach(n, prop(n, "source"), {"geometry", "controller"}, "dangling");
			else if (is(n, "skeleton")) reach(n, content(n), {"node"}, "dangling");
			else if (is(n, "instance_geometry")) reach(n, prop(n, "url"), {"geometry"}, "dangling");
			else if (is(n, "instance_controller")) reach(n, prop(n, "url"), {"controller"}, "dangling");
			else if (is(n, "instance_camera")) reach(n, prop(n, "url"), {"camera"}, "dangling");
			else if (is(n, "instance_light")) reach(n, prop(n, "url"), {"light"}, "dangling");
			else if (is(n, "instance_node")) reach(n, prop(n, "url"), {"node"}, "dangling");
			else if (is(n, "instance_visual_scene")) reach(n, prop(n, "url"), {"visual_scene"}, "dangling");
			else if (is(n, "instance_physics_scene")) reach(n, prop(n, "url"), {"physics_scene"}, "dangling");
			else if (is(n, "instance_physics_model")) reach(n, prop(n, "url"), {"physics_model"}, "dangling");
			else if (is(n, "instance_physics_material")) reach(n, prop(n, "url"), {"physics_material"}, "dangling");
			else if (is(n, "instance_force_field")) reach(n, prop(n, "url"), {"force_field"}, "dangling");
			else if (is(n, "instance_effect")) reach(n, prop(n, "url"), {"effect"}, "dangling");
			else if (is(n, "instance_animation")) reach(n, prop(n, "url"), {"animation"}, "dangling");
			else if (is(n, "instance_material")) reach(n, prop(n, "target"), {"material"}, "dangling");
			for (auto* k : kids(n)) walk(k);
		}
		void document(xmlDoc* d)
		{
			xmlNode* root = xmlDocGetRootElement(d); S twice; xmlNode* first = nullptr; (void) first;
			std::function<void(xmlNode*)> collect = [&](xmlNode* n) { S id = prop(n, "id"); if (!id.empty() && !ids.insert({id, n}).second && twice.empty()) twice = "<" + str(n->name) + " id=\"" + id + "\">"; for (auto* k : kids(n)) if (!is(k, "extra")) collect(k); };
			if (!is(root, "COLLADA") || prop(root, "version").compare(0, 3, "1.4") || !root->ns || str(root->ns->href) != "http://www.collada.org/2005/11/COLLADASchema") violate("file-root", "the saved file is not a COLLADA 1.4 document");
			auto top = kids(root); if (top.empty() || !is(top[0], "asset")) violate("file-root", "the saved file does not begin with its asset");
			xmlNode* asset = top[0]; for (auto* x : {"created", "modified"}) { xmlNode* t = kid(asset, x); S v = t ? content(t) : S(); int y, m, dd, h, mi, s; if (sscanf(v.c_str(), "%d-%d-%dT%d:%d:%dZ", &y, &m, &dd, &h, &mi, &s) != 6) violate("file-date", "the saved file was %s '%s'", x, v.c_str()); }
			int stage = 0; for (auto* t : top) { int k = is(t, "asset") ? 0 : is(t, "scene") ? 2 : is(t, "extra") ? 3 : !str(t->name).compare(0, 8, "library_") ? 1 : 4; if (k < stage || k == 4 || (k == 0 && t != asset)) violate("file-root", "the saved file has a <%s> where there cannot be one", (const char*) t->name); stage = k; }
			collect(root); if (!twice.empty()) violate("file-duplicate-id", "the saved file has a second element with the same identifier: %s", twice.substr(0, 120).c_str());
			std::function<void(xmlNode*, bool)> extras = [&](xmlNode* n, bool extra) { extra |= is(n, "extra"); S id = extra ? prop(n, "id") : S(); if (!id.empty()) extraIds.insert(id); for (auto* k : kids(n)) extras(k, extra); }; extras(root, false);
			walk(root);
		}
	};
}
	void checkXml(const S& path, bool complete)
	{
		S t; disk::get(path, t); xmlDoc* d = xmlReadMemory(t.data(), (int) t.size(), "x", nullptr, XML_PARSE_HUGE | XML_PARSE_NOERROR | XML_PARSE_NOWARNING); if (!d) violate("file-unreadable", "the saved file is not XML");
		Check c; c.complete = complete; c.document(d); xmlFreeDoc(d);
	}
}
