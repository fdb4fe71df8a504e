// Mermaid diagrams: the rendered text parsed by an independent reader and compared with the description (C29).
#include "vmon.hpp"
#include "mermaid_renderer.h"
#include "flowgraph.h"
#include <fstream>
#include <sstream>
#include <memory>
#include <algorithm>
#include <sys/stat.h>
using vmon::Rng; using std::string; using std::vector; using std::map;
static string CTX;
#define bad(key, ...) vmon::violation(key, "%s", (CTX + ": " + vmon::fmt(__VA_ARGS__)).c_str())

// ---------------- an independent reader of the flowchart subset
struct Node { string id, label, shape; int cls = 0; };
struct Diagram { bool ok = false; string err, dir, fence; vector<Node> nodes; vector<std::pair<string, string>> edges; vector<std::pair<string, string>> styles; };
static bool idchar(unsigned char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
static Diagram read_diagram(const string& t) {
    Diagram d; size_t p = 0; auto fail = [&](const string& e) { d.err = e + " at " + std::to_string(p) + ": '" + t.substr(p, 30) + "'"; return d; };
    auto ws = [&](bool nl) { while (p < t.size()) { if (t[p] == ' ' || t[p] == '\t' || t[p] == '\r' || (nl && (t[p] == '\n' || t[p] == ';'))) ++p; else if (nl && t.compare(p, 2, "%%") == 0) { while (p < t.size() && t[p] != '\n') ++p; } else break; } };
    auto word = [&] { size_t q = p; while (p < t.size() && idchar((unsigned char)t[p])) ++p; return t.substr(q, p - q); };
    auto has = [&](const char* s) { size_t n = std::strlen(s); if (t.compare(p, n, s) == 0) { p += n; return true; } return false; };
    if (has("```mermaid\n")) d.fence = "backticks"; else if (has("::: mermaid\n")) d.fence = "colons";
    string body = t; if (d.fence == "backticks") { size_t q = t.find("\n```", p ? p - 1 : 0); if (q == string::npos) return fail("fence not closed"); string rest = t.substr(q + 4); if (rest.find_first_not_of(" \n\t") != string::npos) { p = q; return fail("text behind the fence"); } } else if (d.fence == "colons") { size_t q = t.find("\n:::", p ? p - 1 : 0); if (q == string::npos) return fail("fence not closed"); if (t.substr(q + 4).find_first_not_of(" \n\t") != string::npos) { p = q; return fail("text behind the fence"); } }
    ws(true); string k = word(); if (k != "flowchart" && k != "graph") return fail("no flowchart header"); ws(false); d.dir = word();
    for (;;) {
        ws(true); if (p >= t.size()) { if (!d.fence.empty()) return fail("fence missing"); break; }
        if (d.fence == "backticks" && has("```")) { ws(true); if (p < t.size()) return fail("text behind the fence"); break; }
        if (d.fence == "colons" && has(":::")) { ws(true); if (p < t.size()) return fail("text behind the fence"); break; }
        string id = word(); if (id.empty()) return fail("no identifier");
        if (id == "style" || id == "class") { ws(false); string who = word(); if (who.empty()) return fail("no identifier to style"); ws(false); size_t q = p; while (p < t.size() && t[p] != '\n') ++p; d.styles.push_back({who, t.substr(q, p - q)}); continue; }
        if (id == "end" || id == "subgraph" || id == "click" || id == "direction" || id == "linkStyle" || id == "classDef") return fail("reserved word as identifier");
        ws(false); if (has("-->")) { ws(false); string to = word(); if (to.empty()) return fail("no target"); ws(false); if (p < t.size() && t[p] != '\n' && t[p] != ';') return fail("text behind a connection"); d.edges.push_back({id, to}); continue; }
        Node n; n.id = id; const char* open[] = {"([", "[/", "[[", "[(", "[\\", "((", "{{", "[", "(", "{", ">"}; int sh = -1; for (int j = 0; j < 11; ++j) if (has(open[j])) { sh = j; n.shape = open[j]; break; } if (sh < 0) return fail("neither node nor connection");
        if (p >= t.size() || t[p] != '"') return fail("label not quoted"); ++p; size_t q = t.find('"', p); if (q == string::npos) return fail("label not closed"); n.label = t.substr(p, q - p); p = q + 1;
        const char* close[] = {"])", "/]", "]]", ")]", "\\]", "))", "}}", "]", ")", "}", "]"}; if (sh == 1 && has("\\]")) ; else if (!has(close[sh])) return fail("shape not closed"); ws(false); if (p < t.size() && t[p] != '\n' && t[p] != ';') return fail("text behind a node"); d.nodes.push_back(n);
    }
    d.ok = true; return d;
}
static string unescape(const string& s, bool& ok) { string o; for (size_t k = 0; k < s.size();) { if (s[k] == '<' || s[k] == '>') { ok = false; o += s[k++]; continue; } if (s[k] != '&' && s[k] != '#') { o += s[k++]; continue; } size_t e = s.find(';', k); string n = e == string::npos ? "" : s.substr(k + 1, e - k - 1); if (s[k] == '&' && !n.empty() && n[0] == '#') n = n.substr(1); 
        static const map<string, char> ent = {{"lt", '<'}, {"gt", '>'}, {"amp", '&'}, {"quot", '"'}, {"apos", '\''}, {"39", '\''}, {"34", '"'}, {"60", '<'}, {"62", '>'}, {"38", '&'}, {"35", '#'}, {"96", '`'}, {"59", ';'}}; auto it = ent.find(n); if (it != ent.end()) { o += it->second; k = e + 1; continue; } if (s[k] == '&') ok = false; o += s[k++]; } return o; }
static vector<string> lines(string s) { vector<string> v; for (;;) { size_t a = s.find("<br"), e = a == string::npos ? a : s.find('>', a); if (e == string::npos) { v.push_back(s); return v; } v.push_back(s.substr(0, a)); s = s.substr(e + 1); } }
// removing one "Block" gives the displayed type
static bool type_matches(const string& shown, const string& type) { if (shown == type) return true; for (size_t p = type.find("Block"); p != string::npos; p = type.find("Block", p + 1)) { string t = type; t.erase(p, 5); if (shown == t) return true; } return false; }

// ---------------- descriptions
static string ident(Rng& r) { static const char* w[] = {"source", "sink", "a", "b", "x1", "_", "__", "add", "gain", "end", "graph", "style", "class", "subgraph", "Source", "node_a", "node_", "x_", "_x"}; string s = w[r.below(19)]; for (int k = (int)r.below(3); k > 0; --k) { s += "_0123abcXYZ"[r.below(11)]; } return s; }
static string wild(Rng& r) { string s; int n = 1 + (int)r.below(12); for (int k = 0; k < n; ++k) { static const char* bits[] = {"\"", "'", "<", ">", "&", "[", "]", "(", ")", "{", "}", "/", "\\", ".", " ", "-->", "<br/>", "a", "B", "_", "é", "ä", "ß", "::", "$", "end", "|", "%%", ";", "&lt;", "`", "~", "=", ",", "*"}; s += bits[r.below(35)]; } return s; }
static string nearly(Rng& r) { static const char* a[] = {"a", "b"}; static const char* m[] = {".", "_", "é", "-", " ", "$", "::", "è", "__"}; return string(a[r.below(2)]) + m[r.below(9)] + a[r.below(2)]; }
static string type_name(Rng& r) { static const char* w[] = {"SourceCWBlock", "SinkNullBlock", "AddBlock", "BlockBlock", "Block", "MyBlocker", "Fir", "BlockRunnerBlock", "cler_block"}; return r.chance(1, 8) ? wild(r) : w[r.below(9)]; }
static string tparams(Rng& r) { static const char* w[] = {"", "", "float", "std::complex<float>", "float, 4", "std::array<int, (3 > 2)>", "A<B<C>>, 'x', \"s\"", "int,\n        float", "a && b, &c"}; return r.chance(1, 8) ? wild(r) : w[r.below(9)]; }
struct Kind { int names; };
static cler::FlowGraph describe(Rng& r, int style) {
    cler::FlowGraph g; g.name = ident(r); int n = (int)r.below(style == 3 ? 60 : 9); vector<string> used, idle;
    for (int k = 0; k < n; ++k) { cler::Block b; switch (style) { case 1: b.name = wild(r); break; case 2: b.name = nearly(r); break; case 3: b.name = "b" + std::to_string(r.below(80)); break; default: b.name = ident(r); } if (g.blocks.count(b.name)) continue; b.type = type_name(r); b.template_params = tparams(r); b.line = (int)r.below(100); b.in_flowgraph = r.chance(7, 8); g.blocks[b.name] = b; (b.in_flowgraph ? used : idle).push_back(b.name); }
    int m = used.empty() ? 0 : (int)r.below(2 * used.size() + 2); for (int k = 0; k < m; ++k) { cler::Connection c; c.source_block = r.pick(used); c.target_block = r.pick(used); c.source_channel = "out"; c.target_channel = "in"; c.channel_index = r.chance(1, 2) ? -1 : (int)r.below(20); g.connections.push_back(c); g.blocks[c.source_block].outputs.push_back("out"); string in = "in" + (c.channel_index < 0 ? string() : "[" + std::to_string(c.channel_index) + "]"); auto& i = g.blocks[c.target_block].inputs; if (std::find(i.begin(), i.end(), in) == i.end()) i.push_back(in); }
    return g;
}
static uint64_t compare(const cler::FlowGraph& g, const string& text, const string& dir, const string& fence) {
    uint64_t sig = text.size(); Diagram d = read_diagram(text); string show = text.substr(0, 700); if (!d.ok) { bad("diagram:syntax", "%s; text: %s", d.err.c_str(), show.c_str()); return sig; }
    if (d.dir != dir) bad("diagram:direction", "direction %s, asked for %s", d.dir.c_str(), dir.c_str()); if (d.fence != (fence == "backticks" || fence == "colons" ? fence : "")) bad("diagram:fence", "fence %s, asked for %s", d.fence.c_str(), fence.c_str());
    map<string, string> by_id; map<string, string> id_of; size_t want = 0; for (auto& b : g.blocks) want += b.second.in_flowgraph;
    for (auto& n : d.nodes) {
        auto l = lines(n.label); bool ok = true; string name = unescape(l[0], ok); if (!ok) bad("diagram:quoting", "label '%s' has raw markup characters", n.label.c_str());
        auto it = g.blocks.find(name); if (it == g.blocks.end() || !it->second.in_flowgraph) { bad("diagram:node", "a node '%s' that the flowgraph does not have; text: %s", name.c_str(), show.c_str()); continue; }
        if (!by_id.insert({n.id, name}).second) bad("diagram:id", "'%s' and '%s' share the identifier %s", by_id[n.id].c_str(), name.c_str(), n.id.c_str()); if (!id_of.insert({name, n.id}).second) bad("diagram:node", "'%s' declared twice", name.c_str());
        const cler::Block& b = it->second; bool ok2 = true; string ty = l.size() > 1 ? unescape(l[1], ok2) : ""; if (ty.size() >= 2 && ty[0] == '(') ty = ty.substr(1, ty.size() - 2); if (l.size() < 2 || !type_matches(ty, b.type) || !ok2) bad("diagram:label", "label '%s' for block %s of type %s", n.label.c_str(), b.name.c_str(), b.type.c_str());
        if (!b.template_params.empty()) { bool ok3 = true; string tp = l.size() > 2 ? unescape(l[2], ok3) : ""; if (l.size() != 3 || !ok3 || tp != "<" + b.template_params + ">") bad("diagram:label", "label '%s' for template parameters '%s'", n.label.c_str(), b.template_params.c_str()); } else if (l.size() != 2) bad("diagram:label", "label '%s' for a block without template parameters", n.label.c_str());
        bool src = b.inputs.empty() && !b.outputs.empty(), snk = b.outputs.empty() && !b.inputs.empty(); if (n.shape != (src ? "([" : snk ? "[/" : "[")) bad("diagram:shape", "%s (%zu inputs, %zu outputs) drawn with %s", name.c_str(), b.inputs.size(), b.outputs.size(), n.shape.c_str()); vmon::stat("nodes", 1); }
    if (id_of.size() != want) bad("diagram:node", "%zu blocks drawn, the flowgraph has %zu; text: %s", id_of.size(), want, show.c_str());
    map<std::pair<string, string>, int> have, need; for (auto& e : d.edges) { if (!by_id.count(e.first) || !by_id.count(e.second)) { bad("diagram:edge", "connection %s --> %s between unknown nodes", e.first.c_str(), e.second.c_str()); continue; } have[{by_id[e.first], by_id[e.second]}]++; vmon::stat("connections", 1); } for (auto& c : g.connections) need[{c.source_block, c.target_block}]++; 
    if (have != need) { string x; for (auto& e : need) if (have[e.first] != e.second) x += " " + e.first.first + "->" + e.first.second + " drawn " + std::to_string(have[e.first]) + " of " + std::to_string(e.second); for (auto& e : have) if (!need.count(e.first) && e.second) x += " " + e.first.first + "->" + e.first.second + " drawn, not asked for"; bad("diagram:edge", "%s", x.c_str()); }
    map<string, string> style; map<string, int> count; for (auto& s : d.styles) { if (!by_id.count(s.first)) bad("diagram:style", "style for the unknown node %s", s.first.c_str()); if (count[s.first]++) bad("diagram:style", "%s styled twice", s.first.c_str()); style[s.first] = s.second; }
    for (auto& a : id_of) for (auto& b : id_of) if (style.count(a.second) && style.count(b.second)) { auto cls = [&](const string& n) { auto& k = g.blocks.at(n); return k.inputs.empty() && !k.outputs.empty() ? 0 : k.outputs.empty() && !k.inputs.empty() ? 1 : 2; }; if ((cls(a.first) == cls(b.first)) != (style[a.second] == style[b.second])) bad("diagram:style", "%s and %s: classes %d, %d, styles %s, %s", a.first.c_str(), b.first.c_str(), cls(a.first), cls(b.first), style[a.second].c_str(), style[b.second].c_str()); }
    sig = vmon::mix(sig, id_of.size() * 64 + d.edges.size()); for (auto& n : d.nodes) sig = vmon::mix(sig, std::hash<string>()(n.label)); return sig;
}
static void c_render(uint64_t i, Rng& r) {
    static const char* dirs[] = {"LR", "TD", "TB", "RL", "BT"}; static const char* fences[] = {"backticks", "colons", "none", ""}; int style = (int)(i % 4); string dir = dirs[r.below(5)], fence = fences[r.below(4)];
    bool dflt = r.chance(1, 4); std::unique_ptr<cler::MermaidRenderer> m(dflt ? new cler::MermaidRenderer() : new cler::MermaidRenderer(dir, fence)); if (dflt) { dir = "LR"; fence = "backticks"; }
    char tmp[] = "/tmp/vmon_mermaid_XXXXXX"; string where; int rounds = 1 + (int)r.below(4); string first; cler::FlowGraph g0;
    for (int k = 0; k < rounds; ++k) { cler::FlowGraph g = describe(r, r.chance(1, 3) ? (int)r.below(4) : style); CTX = vmon::fmt("style %d, %zu blocks, %zu connections, rendering %d", style, g.blocks.size(), g.connections.size(), k); string t;
        if (r.chance(1, 4)) { if (where.empty()) { if (!mkdtemp(tmp)) abort(); where = tmp; } string path = where + "/" + ident(r) + (r.chance(1, 2) ? ".x" : ""); { std::ofstream o(path + ".md"); o << string(3000, 'z'); } m->render_to_file(g, path); std::ifstream f(path + ".md"); std::stringstream b; b << f.rdbuf(); t = b.str(); if (t != m->render(g)) bad("diagram:file", "the file differs from the rendered text"); remove((path + ".md").c_str()); vmon::stat("files", 1); } else t = m->render(g);
        uint64_t s = compare(g, t, dir, fence); if (!g.blocks.empty()) vmon::nontrivial(s); if (!k) { first = t; g0 = g; } vmon::sample("%s", t.substr(0, 300).c_str()); vmon::stat("diagrams", 1); vmon::evals(); }
    string again = m->render(g0); CTX = "rendering again"; compare(g0, again, dir, fence); if (again != first) bad("diagram:repeat", "the same flowgraph renders differently: %s | %s", first.c_str(), again.c_str()); if (!where.empty()) rmdir(where.c_str()); vmon::tick();
}
// ---------------- the description's own consistency check
static void c_validate(uint64_t, Rng& r) {
    cler::FlowGraph g = describe(r, 0); CTX = vmon::fmt("validation of %zu blocks, %zu connections", g.blocks.size(), g.connections.size()); string broken; int what = (int)r.below(4); g.is_valid = r.chance(1, 2); g.error_message = r.chance(1, 2) ? "old" : ""; g.warnings = {"old"};
    if (what < 2 && !g.blocks.empty()) { cler::Connection c; c.source_block = c.target_block = g.blocks.begin()->first; broken = "nowhere" + std::to_string(r.below(9)); (what ? c.source_block : c.target_block) = broken; g.connections.insert(g.connections.begin() + r.below(g.connections.size() + 1), c); }
    bool v = g.validate(); if (v != broken.empty() || g.is_valid != v) bad("validate:verdict", "returned %d, is_valid %d, dangling block '%s'", v, g.is_valid, broken.c_str()); if (v != g.error_message.empty()) bad("validate:message", "verdict %d with message '%s'", v, g.error_message.c_str()); if (!v && g.error_message.find(broken) == string::npos) bad("validate:message", "message '%s' does not name '%s'", g.error_message.c_str(), broken.c_str());
    if (v) { size_t want = 0; map<string, bool> linked; for (auto& c : g.connections) linked[c.source_block] = linked[c.target_block] = true; for (auto& b : g.blocks) { bool w = !b.second.in_flowgraph || !linked[b.first]; want += w; bool found = false; for (auto& x : g.warnings) { size_t p = x.rfind(": "); found |= p != string::npos && x.substr(p + 2) == b.first; } if (w != found) bad("validate:warning", "block %s (in the flowgraph %d, connected %d): warned %d", b.first.c_str(), b.second.in_flowgraph, (bool)linked[b.first], found); } if (g.warnings.size() != want) bad("validate:warning", "%zu warnings, expected %zu", g.warnings.size(), want); vmon::stat("warnings", (double)want); }
    vmon::tick(); vmon::evals(); vmon::nontrivial(vmon::mix(g.blocks.size() * 100 + g.connections.size(), g.warnings.size() * 4 + what));
}
int main(int argc, char** argv) { return vmon::run(argc, argv, {{"render", c_render}, {"validate", c_validate}}); }
