// S25: another program reads the saved file and writes the same XML document in its own way; the library loads the same.
#include "model.h"
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <algorithm>
#include <time.h>
#include <set>
using namespace sim; using namespace model;
namespace
{
	enum { SPACES = 1, NEWLINES = 2, COMMENTS = 4, ATTRS = 8, CHARREF = 16, CDATA = 32, NUMSPACE = 64, NUMFORM = 128, PREFIX = 256, ORDER = 512, SPLIT = 1024, DEFAULTS = 2048, DATES = 4096, INCOMMENT = 8192, BOOLS = 16384, EMPTY = 32768, PRIMS = 65536, OFFSETS = 131072, TARGETS = 262144, ALL = 524287, BITS = 19 };
	enum { E_PLAIN, E_UTF8, E_BOM8, E_16LE, E_16BE, E_LATIN1, E_ASCII, E_COUNT };
	const char* encName[] = { "no declaration", "UTF-8", "UTF-8 with mark", "UTF-16LE", "UTF-16BE", "ISO-8859-1", "US-ASCII" };
	const char* maskName[] = { "white space", "CRLF", "comments and instructions", "attribute style", "character references", "CDATA", "number spacing", "number forms", "prefix", "library order", "split library", "left-out defaults", "date forms", "comment in content", "boolean forms", "empty tags", "primitive elements", "index layout", "channel addresses" };
	void append(S& o, uint32_t c) { if (c < 128) o += (char) c; else if (c < 2048) { o += (char) (192 | c >> 6); o += (char) (128 | (c & 63)); } else if (c < 65536) { o += (char) (224 | c >> 12); o += (char) (128 | (c >> 6 & 63)); o += (char) (128 | (c & 63)); } else { o += (char) (240 | c >> 18); o += (char) (128 | (c >> 12 & 63)); o += (char) (128 | (c >> 6 & 63)); o += (char) (128 | (c & 63)); } }
	std::vector<uint32_t> points(const S& s)
	{
		std::vector<uint32_t> v;
		for (size_t i = 0; i < s.size();)
		{
			unsigned char c = (unsigned char) s[i]; int n = c < 128 ? 0 : c < 224 ? 1 : c < 240 ? 2 : 3; uint32_t x = n == 0 ? c : n == 1 ? c & 31 : n == 2 ? c & 15 : c & 7;
			++i; for (; n > 0 && i < s.size(); --n, ++i) x = x << 6 | ((unsigned char) s[i] & 63);
			v.push_back(x);
		}
		return v;
	}
	const char* WS = " \t\r\n";
	bool blank(const S& s) { return s.find_first_not_of(WS) == S::npos; }
	std::vector<S> tokens(const S& s) { std::vector<S> v; for (size_t i = 0; (i = s.find_first_not_of(WS, i)) != S::npos;) { size_t e = s.find_first_of(WS, i); if (e == S::npos) e = s.size(); v.push_back(s.substr(i, e - i)); i = e; } return v; }
	bool integer(const S& t) { size_t i = t[0] == '-'; return i < t.size() && t.find_first_not_of("0123456789", i) == S::npos; }
	bool number(const S& t) { char* e = nullptr; if (t.empty() || !strchr("-0123456789", t[0])) return false; strtod(t.c_str(), &e); return *e == 0; }
	bool in(const S& n, std::initializer_list<const char*> l) { for (auto* x : l) if (n == x) return true; return false; }
	S str(const xmlChar* c) { return c ? (const char*) c : ""; }

	struct Writer
	{
		Rng r; int mask; int enc; S o; S pfx; bool nestedNs = false;
		Writer(uint64_t seed, int m, int e) : r(seed), mask(m), enc(e) {}
		bool on(int bit, double p) { return (mask & bit) && r.chance(p); }
		S nl() { return (mask & NEWLINES) ? "\r\n" : "\n"; }
		// Between elements.
		void gap(int depth)
		{
			if (!(mask & SPACES)) { o += nl() + S((size_t) depth, '\t'); }
			else switch (r.below(5)) { case 0: break; case 1: o += ' '; break; case 2: o += nl(); break; case 3: o += nl() + S((size_t) r.below(9), ' '); break; default: o += "\t" + nl() + nl() + " "; }
			if (on(COMMENTS, 0.06)) { o += r.chance(0.5) ? "<!-- <source id=\"x\"> & -->" : "<!---->"; }
			if (on(COMMENTS, 0.03)) o += "<?tool keep=\"<1>\"?>";
		}
		S space() { static const char* s[] = { " ", "  ", "\t", "\n", "\r\n", "\n\n\t " }; return s[r.below(6)]; }
		void ch(uint32_t c, bool attr, char quote)
		{
			bool must = c == '<' || c == '&' || c == '\r' || (attr && (c == (uint32_t) quote || c == '\t' || c == '\n')) || (enc == E_LATIN1 && c > 255) || (enc == E_ASCII && c > 127) || (c == '>' && o.size() > 1 && o[o.size() - 1] == ']');
			if (must || on(CHARREF, 0.05))
			{
				static const std::map<uint32_t, const char*> named = { {'<', "&lt;"}, {'>', "&gt;"}, {'&', "&amp;"}, {'"', "&quot;"}, {'\'', "&apos;"} };
				auto f = named.find(c); if (f != named.end() && r.chance(0.6)) o += f->second; else if (r.chance(0.5)) o += strf("&#%u;", c); else o += strf(r.chance(0.5) ? "&#x%x;" : "&#x0%X;", c);
			}
			else if (c == '\n' && !attr && (mask & NEWLINES) && r.chance(0.5)) o += "\r\n";
			else append(o, c);
		}
		void content(const S& t)
		{
			auto v = points(t); bool encodable = true; for (auto c : v) if (c == '\r' || (enc == E_LATIN1 && c > 255) || (enc == E_ASCII && c > 127)) encodable = false;
			if (!t.empty() && encodable && t.find("]]>") == S::npos && on(CDATA, 0.15))
			{
				if (r.chance(0.6)) { o += "<![CDATA[" + t + "]]>"; return; }
				size_t cut = r.below(v.size() + 1); for (size_t i = 0; i < cut; ++i) ch(v[i], false, 0);
				o += "<![CDATA["; S rest; for (size_t i = cut; i < v.size(); ++i) append(rest, v[i]); o += rest + "]]>"; return;
			}
			size_t c = !blank(t) && v.size() < 4000 && on(INCOMMENT, 0.08) ? r.below(v.size() + 1) : (size_t) -1;
			for (size_t i = 0; i < v.size(); ++i) { if (i == c) o += "<!-- 7 -->"; ch(v[i], false, 0); }
			if (c == v.size()) o += "<!--end-->";
		}
		S numForm(const S& t, bool real)
		{
			if (!(mask & NUMFORM) || !r.chance(0.25)) return t;
			S sign = t[0] == '-' ? "-" : "", d = t.substr(sign.size());
			if (!real) { if (r.chance(0.5)) return sign + "0" + d; return sign.empty() ? "+" + d : t; }
			switch (r.below(7))
			{
			case 0: return sign.empty() ? "+" + d : t;
			case 1: return integer(d) ? sign + d + ".0" : t;
			case 2: return integer(d) ? sign + d + "." : t;
			case 3: return d.compare(0, 2, "0.") == 0 && d.size() > 2 ? sign + d.substr(1) : t;
			case 4: { size_t z = d.size(); while (z > 1 && d[z - 1] == '0') --z; size_t k = d.size() - z; return integer(d) && k > 0 && k < 8 && d.size() < 9 ? sign + d.substr(0, z) + strf(r.chance(0.5) ? "e+%02zu" : "E%zu", k) : t; }
			case 5: return integer(d) ? sign + d + "e+00" : t;
			default: return sign + "0" + d;
			}
		}
		// Lists of numbers, truth values and names may be spaced in any way.
		S listContent(const S& name, const S& t)
		{
			auto v = tokens(t); if (v.empty()) return t;
			bool nums = true, ints = true, bools = true; for (auto& x : v) { nums = nums && number(x); ints = ints && integer(x); bools = bools && (x == "true" || x == "false"); }
			bool list = in(name, {"float_array", "int_array", "bool_array", "Name_array", "IDREF_array", "p", "h", "v", "vcount", "matrix", "bind_shape_matrix", "rotate", "translate", "scale", "skew", "lookat"});
			if (!nums && !bools && !list) return t;
			bool real = in(name, {"float_array", "matrix", "bind_shape_matrix", "rotate", "translate", "scale", "skew", "lookat", "color", "float", "float2", "float3", "float4", "float2x2", "float3x3", "float4x4", "xfov", "yfov", "xmag", "ymag", "aspect_ratio", "znear", "zfar", "constant_attenuation", "linear_attenuation", "quadratic_attenuation", "falloff_angle", "falloff_exponent", "mass", "density", "inertia", "dynamic_friction", "static_friction", "restitution", "half_extents", "radius", "height", "gravity", "time_step", "velocity", "angular_velocity", "min", "max", "stiffness", "damping", "target_value", "equation"});
			bool whole = ints && in(name, {"p", "h", "v", "vcount", "int_array", "int"});
			bool sp = on(NUMSPACE, 0.5), bl = bools && on(BOOLS, 0.5); S out;
			if (sp && r.chance(0.5)) out += space();
			for (size_t i = 0; i < v.size(); ++i)
			{
				if (i) out += sp && r.chance(0.4) ? space() : S(" ");
				S x = v[i]; if (nums && (real || whole)) x = numForm(x, real); if (bl && r.chance(0.5)) x = x == "true" ? "1" : "0";
				out += x;
			}
			if (sp && r.chance(0.5)) out += space();
			return out;
		}
		S date(const S& t)
		{
			if (t.size() != 20 || !(mask & DATES) || r.chance(0.4)) return t;
			S u = t.substr(0, 19); switch (r.below(6))
			{
			case 0: return " " + t + "\n"; case 1: return u + ".000Z"; case 2: return u + "+00:00"; case 3: return u + ".0+00:00";
			default:
			{
				// The same moment on another clock.
				struct tm x; memset(&x, 0, sizeof x); if (!strptime(u.c_str(), "%Y-%m-%dT%H:%M:%S", &x)) return t;
				int off = (int) r.range(-14 * 4, 14 * 4) * 15; time_t at = timegm(&x) + off * 60; gmtime_r(&at, &x); if (x.tm_year > 8000 || x.tm_year < -1800) return t;
				char b[64]; strftime(b, sizeof b, "%Y-%m-%dT%H:%M:%S", &x); return S(b) + strf("%c%02d:%02d", off < 0 ? '-' : '+', abs(off) / 60, abs(off) % 60);
			}
			}
		}
		void element(xmlNode* n, const S& parent, int depth, bool extra)
		{
			S name = str(n->name); o += "<" + pfx + name;
			std::vector<std::pair<S, S>> at; for (xmlNs* s = n->nsDef; s; s = s->next) at.push_back({ s->prefix ? "xmlns:" + str(s->prefix) : !pfx.empty() && depth == 0 ? "xmlns:" + pfx.substr(0, pfx.size() - 1) : S("xmlns"), str(s->href) });
			for (xmlAttr* a = n->properties; a; a = a->next)
			{
				xmlChar* v = xmlNodeGetContent((xmlNode*) a); S k = (a->ns && a->ns->prefix ? str(a->ns->prefix) + ":" : S()) + str(a->name), t = str(v); xmlFree(v);
				if (!extra && (mask & DEFAULTS))
				{
					if (name == "accessor" && ((k == "stride" && t == "1") || (k == "offset" && t == "0")) && r.chance(0.5)) continue;
					if (name == "node" && k == "type" && t == "NODE" && r.chance(0.5)) continue;
				}
				if (!extra && in(k, {"count", "stride", "offset", "set"}) && integer(t) && on(NUMSPACE, 0.2)) t = " " + t + (r.chance(0.5) ? " " : "");
				at.push_back({k, t});
			}
			if (!extra && (mask & ATTRS)) for (size_t i = at.size(); i > 1; --i) std::swap(at[i - 1], at[r.below(i)]);
			for (auto& a : at)
			{
				char q = on(ATTRS, 0.4) ? '\'' : '"'; o += on(ATTRS, 0.2) ? space() : S(" "); o += a.first; if (on(ATTRS, 0.1)) o += " = "; else o += "="; o += q;
				if (a.first.compare(0, 5, "xmlns") == 0) o += a.second; else for (auto c : points(a.second)) ch(c, true, q);
				o += q;
			}
			if (on(ATTRS, 0.1)) o += space();
			bool elements = false, text = false; S t; std::vector<xmlNode*> kids;
			for (xmlNode* c = n->children; c; c = c->next) { if (c->type == XML_ELEMENT_NODE) { elements = true; kids.push_back(c); } else if (c->type == XML_TEXT_NODE || c->type == XML_CDATA_SECTION_NODE) { S x = str(c->content); if (!blank(x)) text = true; t += x; } }
			if (elements && text)
			{
				// Mixed content keeps every character.
				o += ">"; for (xmlNode* c = n->children; c; c = c->next) { if (c->type == XML_ELEMENT_NODE) element(c, name, depth + 1, true); else for (auto x : points(str(c->content))) ch(x, false, 0); }
				o += "</" + pfx + name + ">"; return;
			}
			if (elements)
			{
				o += ">"; bool inExtra = extra || name == "extra" || (name == "technique" && xmlHasProp(n, BAD_CAST "profile"));
				if (depth == 0) kids = top(kids);
				for (auto* c : kids)
				{
					gap(depth + 1);
					if (depth == 0 && (mask & SPLIT) && splitLibrary(c)) continue;
					element(c, name, depth + 1, inExtra);
				}
				gap(depth); o += "</" + pfx + name + (on(ATTRS, 0.05) ? space() : S()) + ">"; return;
			}
			if (t.empty()) { if (on(EMPTY, 0.3)) o += "></" + pfx + name + ">"; else o += "/>"; return; }
			o += ">"; S w = t;
			if (!extra && in(name, {"created", "modified"})) w = date(t);
			else if (!extra && !in(name, {"string", "code", "include", "init_from", "author", "authoring_tool", "comments", "copyright", "source_data", "title", "subject", "keywords", "revision", "name", "compiler_options", "SIDREF", "param", "semantic"}) && parent != "annotate") w = listContent(name, t);
			content(w); o += "</" + pfx + name + ">";
		}
		static bool lib(xmlNode* n) { return str(n->name).compare(0, 8, "library_") == 0; }
		// The libraries may stand in any order.
		std::vector<xmlNode*> top(std::vector<xmlNode*> k)
		{
			if (!(mask & ORDER)) return k;
			std::vector<size_t> at; for (size_t i = 0; i < k.size(); ++i) if (lib(k[i])) at.push_back(i);
			std::vector<xmlNode*> l; for (size_t i : at) l.push_back(k[i]); for (size_t i = l.size(); i > 1; --i) std::swap(l[i - 1], l[r.below(i)]);
			// Libraries of one kind keep their order.
			for (size_t i = 0; i < at.size(); ++i) k[at[i]] = l[i];
			return k;
		}
		// Two libraries of one kind instead of one.
		bool splitLibrary(xmlNode* n)
		{
			if (!lib(n)) return false; std::vector<xmlNode*> kids; for (xmlNode* c = n->children; c; c = c->next) if (c->type == XML_ELEMENT_NODE && str(c->name) != "asset" && str(c->name) != "extra") kids.push_back(c);
			if (kids.size() < 2 || !r.chance(0.5)) return false;
			size_t cut = 1 + r.below(kids.size() - 1); xmlNode* second = xmlNewDocNode(n->doc, nullptr, n->name, nullptr); for (size_t i = cut; i < kids.size(); ++i) { xmlUnlinkNode(kids[i]); xmlAddChild(second, kids[i]); }
			element(n, "COLLADA", 1, false); gap(1); element(second, "COLLADA", 1, false); xmlFreeNode(second); return true;
		}
		// ---- the same content in other elements -------------------------------------------------
		static S prop(xmlNode* n, const char* a) { xmlChar* v = xmlGetProp(n, BAD_CAST a); S t = str(v); xmlFree(v); return t; }
		static S all(xmlNode* n) { xmlChar* v = xmlNodeGetContent(n); S t = str(v); xmlFree(v); return t; }
		static std::vector<xmlNode*> named(xmlNode* n, const char* name) { std::vector<xmlNode*> v; for (xmlNode* c = n->children; c; c = c->next) if (c->type == XML_ELEMENT_NODE && str(c->name) == name) v.push_back(c); return v; }
		static S join(const std::vector<S>& v, size_t a, size_t b) { S s; for (size_t i = a; i < b; ++i) { if (i > a) s += ' '; s += v[i]; } return s; }
		void primitives(xmlNode* n)
		{
			S name = str(n->name); if (!in(name, {"triangles", "polylist", "polygons"}) || !named(n, "ph").empty() || !r.chance(0.7)) return;
			size_t stride = 0; for (auto* i : named(n, "input")) { S o = prop(i, "offset"); if (o.empty()) return; stride = std::max(stride, (size_t) atoi(o.c_str()) + 1); }
			if (!stride) return; std::vector<size_t> faces; std::vector<S> ix; xmlNode* after = nullptr;
			for (auto* p : named(n, "p")) { auto t = tokens(all(p)); if (name == "polygons") faces.push_back(t.size() / stride); ix.insert(ix.end(), t.begin(), t.end()); }
			if (name == "polylist") { for (auto* v : named(n, "vcount")) for (auto& x : tokens(all(v))) faces.push_back((size_t) atoi(x.c_str())); }
			if (name == "triangles") faces.assign(ix.size() / stride / 3, 3);
			size_t total = 0; bool tri = true; for (size_t f : faces) { if (f < 3) return; total += f; tri = tri && f == 3; } if (faces.empty() || total * stride != ix.size()) return;
			// A list of polygons is refused where a face has more corners than there are positions.
			size_t most = *std::max_element(faces.begin(), faces.end()), positions = 0; for (auto* s : named(n->parent, "vertices")) for (auto* i : named(s, "input")) if (prop(i, "semantic") == "POSITION") for (auto* q : named(n->parent, "source")) if ("#" + prop(q, "id") == prop(i, "source")) for (auto* t : named(q, "technique_common")) for (auto* c : named(t, "accessor")) positions = (size_t) atoi(prop(c, "count").c_str());
			std::vector<S> forms = {"polygons"}; if (most <= positions) forms.push_back("polylist"); if (tri) forms.push_back("triangles");
			S to = r.pick(forms); if (to == name) return;
			for (const char* k : {"p", "vcount"}) for (auto* c : named(n, k)) { xmlUnlinkNode(c); xmlFreeNode(c); }
			for (auto* i : named(n, "input")) after = i;
			auto put = [&](const char* k, const S& t) { xmlNode* c = xmlNewDocNode(n->doc, n->ns, BAD_CAST k, BAD_CAST t.c_str()); xmlAddNextSibling(after, c); after = c; };
			xmlNodeSetName(n, BAD_CAST to.c_str());
			if (to == "polylist") { S v; for (size_t f : faces) v += strf("%zu ", f); put("vcount", v); }
			if (to != "polygons") put("p", join(ix, 0, ix.size()));
			else { size_t at = 0; for (size_t f : faces) { put("p", join(ix, at, at + f * stride)); at += f * stride; } }
			probe("primitives written as other elements");
		}
		void layout(xmlNode* n)
		{
			if (!in(str(n->name), {"triangles", "polylist", "polygons", "lines", "linestrips", "trifans", "tristrips"}) || !r.chance(0.7)) return;
			size_t stride = 0; auto inputs = named(n, "input"); for (auto* i : inputs) { S o = prop(i, "offset"); if (o.empty()) return; stride = std::max(stride, (size_t) atoi(o.c_str()) + 1); }
			if (!stride) return; size_t wide = stride + r.below(3); std::vector<size_t> to; for (size_t i = 0; i < wide; ++i) to.push_back(i); for (size_t i = wide; i > 1; --i) std::swap(to[i - 1], to[r.below(i)]);
			to.resize(stride); wide = 0; for (auto* i : inputs) wide = std::max(wide, to[(size_t) atoi(prop(i, "offset").c_str())] + 1);   // a slot that no input uses may be lost
			std::function<void(xmlNode*)> each = [&](xmlNode* e)
			{
				if (!in(str(e->name), {"p", "h"})) { for (xmlNode* c = e->children; c; c = c->next) if (c->type == XML_ELEMENT_NODE && in(str(c->name), {"p", "h", "ph"})) each(c); return; }
				auto t = tokens(all(e)); if (t.size() % stride) return; std::vector<S> v(t.size() / stride * wide, "0"); for (size_t i = 0; i < t.size(); ++i) if (to[i % stride] < wide) v[i / stride * wide + to[i % stride]] = t[i];
				xmlNodeSetContent(e, BAD_CAST join(v, 0, v.size()).c_str());
			};
			bool whole = true; std::function<void(xmlNode*)> check = [&](xmlNode* e) { if (in(str(e->name), {"p", "h"}) && tokens(all(e)).size() % stride) whole = false; for (xmlNode* c = e->children; c; c = c->next) if (c->type == XML_ELEMENT_NODE && in(str(c->name), {"p", "h", "ph"})) check(c); }; check(n); if (!whole) return;
			each(n); for (auto* i : inputs) xmlSetProp(i, BAD_CAST "offset", BAD_CAST strf("%zu", to[(size_t) atoi(prop(i, "offset").c_str())]).c_str());
			probe("indices laid out in another way");
		}
		void channel(xmlNode* n)
		{
			if (str(n->name) != "channel") return; S t = prop(n, "target"); size_t dot = t.find_last_of("./"); if (dot == S::npos || t[dot] != '.' || !r.chance(0.7)) return;
			static const std::map<S, const char*> index = { {"X", "(0)"}, {"Y", "(1)"}, {"Z", "(2)"}, {"W", "(3)"}, {"R", "(0)"}, {"G", "(1)"}, {"B", "(2)"}, {"A", "(3)"}, {"ANGLE", "(3)"} };
			auto f = index.find(t.substr(dot + 1)); if (f == index.end() || extraSids.count(t.substr(t.rfind('/') + 1, dot - t.rfind('/') - 1))) return;   // the components of an unknown element are whatever they are called xmlSetProp(n, BAD_CAST "target", BAD_CAST (t.substr(0, dot) + f->second).c_str()); probe("components addressed by number");
		}
		std::set<S> extraSids;
		void reshape(xmlNode* n)
		{
			if (str(n->name) == "extra" || xmlHasProp(n, BAD_CAST "profile")) return;
			if (mask & PRIMS) primitives(n); if (mask & OFFSETS) layout(n); if (mask & TARGETS) channel(n);
			for (xmlNode* c = n->children; c; c = c->next) if (c->type == XML_ELEMENT_NODE) reshape(c);
		}
		S document(const S& text)
		{
			xmlDoc* d = xmlReadMemory(text.data(), (int) text.size(), "x", nullptr, XML_PARSE_HUGE | XML_PARSE_NOERROR | XML_PARSE_NOWARNING); if (!d) violate("file-unreadable", "the saved file is not XML");
			xmlNode* root = xmlDocGetRootElement(d);
			std::function<void(xmlNode*, bool)> sids = [&](xmlNode* n, bool extra) { extra |= str(n->name) == "extra"; if (extra) { S sid = prop(n, "sid"); if (!sid.empty()) extraSids.insert(sid); } for (xmlNode* c = n->children; c; c = c->next) if (c->type == XML_ELEMENT_NODE) sids(c, extra); }; sids(root, false);
			reshape(root);
			std::function<void(xmlNode*, int)> ns = [&](xmlNode* n, int depth) { if ((depth && n->nsDef) || (n->nsDef && n->nsDef->next)) nestedNs = true; for (xmlNode* c = n->children; c; c = c->next) if (c->type == XML_ELEMENT_NODE) ns(c, depth + 1); }; ns(root, 0);
			if ((mask & PREFIX) && !nestedNs && root->nsDef && !root->nsDef->prefix) pfx = r.chance(0.5) ? "c:" : "collada-1:";
			static const char* decl[] = { "", "UTF-8", "utf-8", "UTF-16", "UTF-16", "ISO-8859-1", "US-ASCII" };
			if (enc != E_PLAIN || r.chance(0.5)) { char q = r.chance(0.5) ? '\'' : '"'; o = S("<?xml version=") + q + "1.0" + q; if (enc) o += S(" encoding=") + q + decl[enc] + q; if (r.chance(0.2)) o += S(" standalone=") + q + "yes" + q; o += "?>"; o += nl(); }
			if (on(COMMENTS, 0.3)) o += "<!-- written by another program -->" + nl();
			element(root, "", 0, false); o += r.chance(0.5) ? nl() : S(); if (on(COMMENTS, 0.2)) o += "<!-- end -->";
			xmlFreeDoc(d);
			if (enc == E_BOM8) return "\xEF\xBB\xBF" + o;
			if (enc == E_LATIN1) { S x; for (auto c : points(o)) x += (char) c; return x; }
			if (enc == E_16LE || enc == E_16BE)
			{
				S x; auto put = [&](uint32_t u) { char a = (char) (u & 255), b = (char) (u >> 8); if (enc == E_16LE) { x += a; x += b; } else { x += b; x += a; } }; put(0xFEFF);
				for (auto c : points(o)) { if (c > 0xFFFF) { c -= 0x10000; put(0xD800 | c >> 10); put(0xDC00 | (c & 1023)); } else put(c); }
				return x;
			}
			return o;
		}
	};
	void gen(Rng& r, Plan& p, int tier)
	{
		static const int fam[] = { F_INFO, F_CAMERA, F_LIGHT, F_EMITTER, F_FORCE, F_GEOM, F_SPLINE, F_CTRL, F_IMAGE, F_MATERIAL, F_PHYSICS, F_SCENE };
		int gens = (int) r.range(1, tier ? 3 : 2), anims = r.chance(0.3) ? 1 : 0;
		for (int g = 0; g < gens; ++g)
		{
			for (int i = (int) r.range(1, g ? 2 : 4); i > 0; --i) p.ops.push_back(genBuild(r, fam[r.below(12)], 2, r.chance(0.1) ? 4 : 3, anims));
			if (anims && r.chance(0.5)) p.ops.push_back(genBuild(r, F_ANIM, 2, 3, anims));
			p.ops.push_back(Op("save", {(int64_t) r.below(2)}));
			for (int k = (int) r.range(1, 3); k > 0; --k)
			{
				int mask = 0; switch (r.below(3)) { case 0: mask = 1 << r.below(BITS); break; case 1: mask = (int) (r.next() & r.next() & ALL); break; default: mask = (int) (r.next() & ALL); }
				if (r.chance(0.25)) p.ops.push_back(Op("shortread", {(int64_t) r.below(100000)}));
				if (r.chance(0.2)) p.ops.push_back(Op("noise", {(int64_t) r.below(1000000), r.range(5, 100)}));
				p.ops.push_back(Op("rewrite", {(int64_t) r.below(1000000000), mask, r.chance(0.5) ? 0 : (int64_t) r.below(E_COUNT), r.chance(0.3) ? 1 : 0, k == 1 && r.chance(0.7) ? 1 : 0}));
			}
		}
	}
	const S orig = SIMDIR "/doc.dae", other = SIMDIR "/other.dae";
	// What was reported, without where.
	std::multiset<S> reports(const Errors& e) { std::multiset<S> m; for (auto& l : e.list) m.insert(l.substr(0, l.find(" line"))); return m; }
	S load(Session& s, const S& path, int fromMemory, const S& text, FCDocument*& doc)
	{
		bool ok; s.reset();
		if (fromMemory) { doc = FCollada::NewTopDocument(); std::vector<char> exact(text.begin(), text.end()); ok = FCollada::LoadDocumentFromMemory(path.c_str(), doc, exact.data(), exact.size()); }
		else doc = loadNew(path, ok);
		for (auto& l : s.err.list) if (s.err.errors && l[0] == 'E') return ok ? "error: " + l : "refused: " + l;
		return ok ? "" : "refused";
	}
	S saved(FCDocument* doc, const S& path) { if (!save(doc, path)) violate("save-refused", "saving to a healthy disk was refused"); S t; disk::get(path, t); disk::erase(path); return t; }
	void run(const Plan& plan)
	{
		size_t at = 0; int kept = 0;   // the document goes on from the rewritten file
		while (at < plan.ops.size())
		{
			size_t end = at; while (end < plan.ops.size() && plan.ops[end].name != "save") ++end;
			if (end >= plan.ops.size()) return;
			life([&]()
			{
				Session s; FCDocument* doc = nullptr;
				if (kept) { bool ok; doc = loadNew(orig, ok); if (!ok) violate("load-refused", "a file that was accepted before is refused"); } else doc = FCollada::NewTopDocument();
				for (size_t i = at; i < end; ++i) if (plan.ops[i].name == "build") { apply(doc, plan.ops[i]); trace(strf("b%d", (int) plan.ops[i].arg(0))); }
				s.reset(); if (!save(doc, orig) || s.err.errors) violate("save-refused", "saving to a healthy disk was refused or reported an error");
				if (plan.ops[end].arg(0)) { fault("process killed after save"); crash(); }
				doc->Release(); s.close();
			});
			++kept; at = end + 1;
			for (; at < plan.ops.size() && plan.ops[at].name != "build" && plan.ops[at].name != "save"; ++at)
			{
				const Op& o = plan.ops[at]; if (o.name != "rewrite") continue;
				size_t from = at; while (from > 0 && plan.ops[from - 1].name != "rewrite" && plan.ops[from - 1].name != "save") --from;
				life([&]()
				{
					Session s; FCDocument* doc; S text; disk::get(orig, text);
					S bad = load(s, orig, 0, text, doc); if (!bad.empty()) violate("load-refused", "the library's own file: %s", bad.c_str());
					auto said = reports(s.err); Dump want = describe(doc, DUMP_DATES); S again = saved(doc, SIMDIR "/again.dae"); doc->Release();
					for (size_t i = from; i < at; ++i) { if (plan.ops[i].name == "noise") { Rng r((uint64_t) plan.ops[i].arg(0)); heapNoise(r, (int) std::min<int64_t>(plan.ops[i].arg(1), 2000)); } if (plan.ops[i].name == "shortread") disk::arm(disk::READ_SHORT, plan.ops[i].arg(0)); }
					int mask = (int) o.arg(1) & ALL, enc = (int) (o.arg(2) % E_COUNT); Writer w((uint64_t) o.arg(0), mask, enc); S t = w.document(text);
					disk::put(other, t); disk::erase(orig); disk::put(orig, t); // the other program stores it under the same name
					S how; for (int b = 0; b < BITS; ++b) if (mask >> b & 1) { how += S(how.empty() ? "" : ", ") + maskName[b]; fault(maskName[b]); } fault(encName[enc]);
					trace(strf("r%x.%d", mask, enc)); logf("rewritten: %s; %s: %zu bytes %016llx", how.c_str(), encName[enc], t.size(), (unsigned long long) hashStr(t));
					bad = load(s, orig, (int) o.arg(3) & 1, t, doc); disk::disarm();
					if (!bad.empty()) violate("rewrite-" + bad.substr(0, bad.find(":")), "the same document written in another way (%s; %s): %s", how.c_str(), encName[enc], bad.c_str());
					Dump got = describe(doc, DUMP_DATES); S cls, msg;
					if (mask & OFFSETS) { auto drop = [](Dump& d) { d.lines.erase(std::remove_if(d.lines.begin(), d.lines.end(), [](const std::pair<S, S>& l) { return l.first.size() > 7 && l.first.compare(l.first.size() - 7, 7, ".offset") == 0 && l.first.find(".input") != S::npos; }), d.lines.end()); }; drop(want); drop(got); }
					if (!same(want, got, cls, msg)) violates("rewrite-" + cls, "the same document written in another way (" + how + "; " + encName[enc] + ") is loaded as another document:\n" + msg);
					auto now = reports(s.err); if (now != said) violate("rewrite-reports", "the same document written in another way (%s): %zu reports instead of %zu, e.g. %s", how.c_str(), now.size(), said.size(), s.err.list.empty() ? "-" : s.err.list[0].c_str());
					// What was loaded is also saved the same.
					S more = saved(doc, SIMDIR "/again.dae");
					if (more != again && !(mask & (ORDER | SPLIT | OFFSETS))) { size_t i = 0; while (i < more.size() && i < again.size() && more[i] == again[i]) ++i; i = i > 80 ? i - 80 : 0; violate("rewrite-saved", "the same document written in another way (%s) is saved as another text: '%s' instead of '%s'", how.c_str(), more.substr(i, 160).c_str(), again.substr(i, 160).c_str()); }
					probe("equivalent text compared");
					doc->Release(); s.close();
					if (!(o.arg(4) & 1)) { disk::erase(orig); disk::put(orig, text); } else probe("went on from the other program's file");
					disk::erase(other);
				});
			}
		}
	}
	Reg reg("rewrite", gen, run);
}
