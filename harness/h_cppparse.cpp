// C++ parser of the diagram tool (C31): random sources in the documented style, written together with their
// syntax tree; what the real cpp_parser.cpp and main.cpp make of it against the model.
#include "cpp_parser.h"
#include "vmon.hpp"
#include <algorithm>
#include <cstdarg>
#include <iostream>
#include <map>
#include <cstring>
#include <fstream>
#include <memory>
#include <set>
#include <sstream>
#include <unistd.h>
using std::string; using std::vector; using vmon::Rng;
int mermaid_main(int argc, char** argv);
static string CTX; static const bool ctx_named = (vmon::ctxp() = &CTX, true);
static void bad(const char* key, const char* f, ...) __attribute__((format(printf, 2, 3)));
static void bad(const char* key, const char* f, ...) { char b[2048]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); vmon::violation(key, "%s: %s", CTX.c_str(), b); }

// ---- syntax tree and the interface to it
struct Node { string type; uint32_t s = 0, e = 0; TSPoint p{0, 0}, q{0, 0}; bool named = true, extra = false; string field; Node* up = nullptr; vector<std::unique_ptr<Node>> ch; };
struct TSTree { const Node* root; uint64_t magic = 0x7157; };
struct TSParser { bool lang = false; };
struct Text { string text; std::unique_ptr<Node> root; };
static std::map<string, const Node*>& trees() { static std::map<string, const Node*> t; return t; }
static int g_trees, g_parsers; static bool g_fail_parse;
static TSNode mk(const Node* n, const TSTree* t) { TSNode x; memset(&x, 0, sizeof x); x.id = n; x.tree = n ? t : nullptr; return x; }
static const Node* nd(TSNode n) { if (!n.id) { bad("cpp:api", "a null node was asked"); static Node z; return &z; } return (const Node*)n.id; }
extern "C" {
const TSLanguage* tree_sitter_cpp() { static int l; return (const TSLanguage*)&l; }
TSParser* ts_parser_new() { g_parsers++; return new TSParser; } void ts_parser_delete(TSParser* p) { g_parsers--; delete p; } bool ts_parser_set_language(TSParser* p, const TSLanguage*) { p->lang = true; return true; } void ts_parser_reset(TSParser*) {}
TSTree* ts_parser_parse_string(TSParser* p, const TSTree*, const char* s, uint32_t n) { if (!p->lang || g_fail_parse) return nullptr; auto it = trees().find(string(s, n)); if (it == trees().end()) { bad("cpp:text", "the parser was given a text that is not the file's (%u bytes)", n); return nullptr; } g_trees++; return new TSTree{it->second}; }
void ts_tree_delete(TSTree* t) { if (!t) return; g_trees--; delete t; } TSNode ts_tree_root_node(const TSTree* t) { return mk(t->root, t); }
const char* ts_node_type(TSNode n) { return nd(n)->type.c_str(); } uint32_t ts_node_start_byte(TSNode n) { return nd(n)->s; } uint32_t ts_node_end_byte(TSNode n) { return nd(n)->e; } TSPoint ts_node_start_point(TSNode n) { return nd(n)->p; } TSPoint ts_node_end_point(TSNode n) { return nd(n)->q; }
bool ts_node_is_null(TSNode n) { return !n.id; } bool ts_node_is_named(TSNode n) { return nd(n)->named; } bool ts_node_is_extra(TSNode n) { return nd(n)->extra; } bool ts_node_is_missing(TSNode) { return false; } bool ts_node_has_error(TSNode) { return false; } bool ts_node_is_error(TSNode) { return false; } bool ts_node_eq(TSNode a, TSNode b) { return a.id == b.id; }
TSNode ts_node_parent(TSNode n) { return mk(nd(n)->up, n.tree); } uint32_t ts_node_child_count(TSNode n) { return (uint32_t)nd(n)->ch.size(); } TSNode ts_node_child(TSNode n, uint32_t i) { auto* x = nd(n); return mk(i < x->ch.size() ? x->ch[i].get() : nullptr, n.tree); }
uint32_t ts_node_named_child_count(TSNode n) { uint32_t c = 0; for (auto& x : nd(n)->ch) c += x->named; return c; } TSNode ts_node_named_child(TSNode n, uint32_t i) { for (auto& x : nd(n)->ch) if (x->named && i-- == 0) return mk(x.get(), n.tree); return mk(nullptr, nullptr); }
TSNode ts_node_child_by_field_name(TSNode n, const char* f, uint32_t l) { for (auto& x : nd(n)->ch) if (x->field == string(f, l)) return mk(x.get(), n.tree); return mk(nullptr, nullptr); }
static TSNode sib(TSNode n, int d) { auto* x = nd(n); if (!x->up) return mk(nullptr, nullptr); for (size_t i = 0; i < x->up->ch.size(); ++i) if (x->up->ch[i].get() == x) { size_t j = i + (size_t)d; return mk(j < x->up->ch.size() ? x->up->ch[j].get() : nullptr, n.tree); } return mk(nullptr, nullptr); }
TSNode ts_node_next_sibling(TSNode n) { return sib(n, 1); } TSNode ts_node_prev_sibling(TSNode n) { return sib(n, -1); }
}
// ---- writer: text and tree
struct W {
    string out; uint32_t row = 0, col = 0; std::unique_ptr<Node> root; vector<Node*> st; Rng& r; int noise;
    W(Rng& r_, int n) : root(new Node), r(r_), noise(n) { root->type = "translation_unit"; st.push_back(root.get()); }
    void raw(const string& s) { for (char c : s) { if (c == '\n') row++, col = 0; else col++; } out += s; }
    void open(const char* t, const char* field = "") { auto n = std::make_unique<Node>(); n->type = t; n->field = field; n->s = (uint32_t)out.size(); n->p = {row, col}; n->up = st.back(); Node* p = n.get(); st.back()->ch.push_back(std::move(n)); st.push_back(p); }
    void close() { st.back()->e = (uint32_t)out.size(); st.back()->q = {row, col}; st.pop_back(); }
    void leaf(const char* t, const string& s, const char* field = "") { open(t, field); raw(s); close(); }
    void tok(const string& s) { open(s.c_str()); st.back()->named = false; raw(s); close(); }
    void comment() { static const char* C[] = {"note", "e.g. the next one", "cler::BlockRunner(&ghost, &nowhere.in)", "&a.in[0]", "see a.b, c.d", "multiple outputs", "auto fg = cler::make_ghost_flowgraph(x)", "GhostBlock ghost(\"Ghost\");", ")", "(", ",", "1.5 MHz", "\"", "\xc3\xa9t\xc3\xa9.", ""};
        string c = C[r.below(sizeof C / sizeof *C)]; bool line = r.chance(1, 2); open("comment"); st.back()->extra = true; raw(line ? "// " + c : "/* " + c + " */"); close(); if (line) raw("\n"); }
    // between two children: white space, and now and then a comment
    void sp(bool need = false) { if (need || r.chance(1, 4)) raw(r.chance(1, noise) ? "\n    " : " "); if (r.chance(1, noise * 6)) { comment(); raw(" "); } }
    // within an expression, where few put anything
    bool airy = false; void gap() { if (airy && r.chance(1, 4)) sp(true); }
};
struct MBlock { string var, type, tpl; bool is_tpl = false, used = false, glob = false; uint32_t line = 0, col = 0; };
struct MConn { string a, b, ch; int idx; bool operator<(const MConn& o) const { return std::tie(a, b, ch, idx) < std::tie(o.a, o.b, o.ch, o.idx); } };
struct Program { string name, flow, text; std::unique_ptr<Node> root; std::map<string, MBlock> blocks; vector<MConn> conns; vector<string> order; };

static void type_arg(W& w, string* txt) { size_t b = w.out.size(); switch (w.r.below(5)) {
    case 0: w.open("type_descriptor"); w.leaf("primitive_type", "float"); w.close(); break; case 1: w.open("type_descriptor"); w.leaf("primitive_type", "uint8_t"); w.close(); break; case 2: w.leaf("number_literal", std::to_string(1 + w.r.below(4096))); break;
    case 3: w.open("type_descriptor"); w.leaf("type_identifier", "Blob"); w.close(); break;
    default: w.open("type_descriptor"); w.open("qualified_identifier"); w.leaf("namespace_identifier", "std"); w.tok("::"); w.open("template_type"); bool arr = w.r.chance(1, 2); w.leaf("type_identifier", arr ? "array" : "complex"); w.open("template_argument_list"); w.tok("<"); w.open("type_descriptor"); if (w.r.chance(1, 3)) { w.leaf("type_identifier", "SampleBlock"); } else w.leaf("primitive_type", "float"); w.close(); if (arr) { w.tok(","); w.raw(" "); w.leaf("identifier", "N"); } w.tok(">"); w.close(); w.close(); w.close(); w.close(); }
    (void)txt; (void)b; }
static void str(W& w, const string& s) { w.open("string_literal"); w.tok("\""); if (!s.empty()) w.leaf("string_content", s); w.tok("\""); w.close(); }
static void value(W& w) { switch (w.r.below(7)) { case 0: w.leaf("number_literal", "1.0f"); break; case 1: w.leaf("identifier", "SPS"); break; case 2: w.leaf("true", "true"); break; case 3: str(w, "cler::BlockRunner(&x, &y.in)"); break;
    case 4: w.open("call_expression"); w.open("template_function"); w.leaf("identifier", "static_cast"); w.open("template_argument_list"); w.tok("<"); w.open("type_descriptor"); w.leaf("primitive_type", "double"); w.close(); w.tok(">"); w.close(); w.close(); w.open("argument_list"); w.tok("("); w.leaf("identifier", "rate"); w.tok(")"); w.close(); w.close(); break;
    case 5: w.open("initializer_list"); w.tok("{"); str(w, "I/Q"); w.tok("}"); w.close(); break; default: w.open("binary_expression"); w.leaf("identifier", "SPS"); w.raw(" "); w.tok("*"); w.raw(" "); w.leaf("number_literal", "2"); w.close(); } }
static void declare_block(W& w, MBlock& b) {
    w.open("declaration"); if (b.glob && w.r.chance(1, 2)) { w.leaf("storage_class_specifier", "static"); w.raw(" "); }
    if (b.is_tpl) { w.open("template_type", "type"); w.leaf("type_identifier", b.type, "name"); w.open("template_argument_list", "arguments"); size_t s = w.out.size(); w.tok("<"); size_t n = w.r.chance(1, 12) ? 0 : 1 + w.r.below(2); for (size_t k = 0; k < n; ++k) { if (k) { w.tok(","); w.raw(" "); } type_arg(w, nullptr); } w.tok(">"); b.tpl = w.out.substr(s + 1, w.out.size() - s - 2); w.close(); w.close(); }
    else w.leaf("type_identifier", b.type, "type");
    w.sp(true); w.open("init_declarator", "declarator"); b.line = w.row + 1; b.col = w.col; w.leaf("identifier", b.var, "declarator"); if (w.r.chance(1, 12)) w.raw(" "); bool brace = w.r.chance(1, 4);
    w.open(brace ? "initializer_list" : "argument_list", "value"); w.tok(brace ? "{" : "("); w.sp(); str(w, w.r.chance(1, 8) ? "Gain > 1 (a.b)" : "Name"); size_t n = w.r.below(4); for (size_t k = 0; k < n; ++k) { w.sp(); w.tok(","); w.sp(true); value(w); } w.sp(); w.tok(brace ? "}" : ")"); w.close(); w.close(); w.tok(";"); w.close(); w.raw("\n    ");
}
static void distract(W& w) { switch (w.r.below(8)) {
    case 0: w.open("declaration"); w.leaf("type_qualifier", "const"); w.raw(" "); w.leaf("primitive_type", "size_t"); w.raw(" "); w.open("init_declarator"); w.leaf("identifier", "SPS"); w.raw(" "); w.tok("="); w.raw(" "); w.leaf("number_literal", "1000"); w.close(); w.tok(";"); w.close(); break;
    case 1: w.open("declaration"); w.open("qualified_identifier"); w.leaf("namespace_identifier", "std"); w.tok("::"); w.open("template_type"); w.leaf("type_identifier", "vector"); w.open("template_argument_list"); w.tok("<"); w.open("type_descriptor"); w.leaf("primitive_type", "float"); w.close(); w.tok(">"); w.close(); w.close(); w.close(); w.raw(" "); w.open("init_declarator"); w.leaf("identifier", "taps"); w.open("argument_list"); w.tok("("); w.leaf("number_literal", "3"); w.tok(")"); w.close(); w.close(); w.tok(";"); w.close(); break;
    case 2: w.open("declaration"); w.leaf("type_identifier", "Settings"); w.raw(" "); w.open("init_declarator"); w.leaf("identifier", "settings"); w.open("argument_list"); w.tok("("); str(w, "file"); w.tok(")"); w.close(); w.close(); w.tok(";"); w.close(); break;
    case 3: w.comment(); break;
    case 4: w.open("expression_statement"); w.open("call_expression"); w.leaf("identifier", "make_noise"); w.open("argument_list"); w.tok("("); w.open("pointer_expression"); w.tok("&"); w.leaf("identifier", "ghost"); w.close(); w.tok(")"); w.close(); w.close(); w.tok(";"); w.close(); break;
    case 5: w.open("if_statement"); w.tok("if"); w.raw(" "); w.open("condition_clause"); w.tok("("); w.leaf("identifier", "argc"); w.tok(")"); w.close(); w.raw(" "); w.open("compound_statement"); w.tok("{"); w.open("return_statement"); w.tok("return"); w.raw(" "); w.leaf("number_literal", "1"); w.tok(";"); w.close(); w.tok("}"); w.close(); w.close(); break;
    case 6: w.open("expression_statement"); w.open("call_expression"); w.open("field_expression"); w.leaf("identifier", "settings"); w.tok("."); w.leaf("field_identifier", "load"); w.close(); w.open("argument_list"); w.tok("("); w.open("pointer_expression"); w.tok("&"); w.open("field_expression"); w.leaf("identifier", "a"); w.tok("."); w.leaf("field_identifier", "b"); w.close(); w.close(); w.tok(")"); w.close(); w.close(); w.tok(";"); w.close(); break;
    default: w.open("declaration"); w.leaf("primitive_type", "int"); w.raw(" "); w.leaf("identifier", "unset"); w.tok(";"); w.close(); }
    w.raw("\n    "); }
static void runner(W& w, Program& p, const string& src, bool qual) {
    w.open("call_expression"); if (qual) { w.open("qualified_identifier", "function"); w.leaf("namespace_identifier", "cler"); w.tok("::"); w.leaf("identifier", "BlockRunner"); w.close(); } else w.leaf("identifier", "BlockRunner", "function");
    w.open("argument_list", "arguments"); w.tok("("); w.sp(); w.open("pointer_expression"); w.tok("&"); w.gap(); w.leaf("identifier", src); w.close(); p.blocks[src].used = true;
    for (auto& c : p.conns) if (c.a == src) { w.sp(); w.tok(","); w.sp(true); w.open("pointer_expression"); w.tok("&"); w.gap(); if (c.idx >= 0) { w.open("subscript_expression"); w.open("field_expression"); w.leaf("identifier", c.b); w.gap(); w.tok("."); w.gap(); w.leaf("field_identifier", c.ch); w.close(); w.gap(); w.open("subscript_argument_list"); w.tok("["); w.gap(); w.leaf("number_literal", std::to_string(c.idx)); w.gap(); w.tok("]"); w.close(); w.close(); } else { w.open("field_expression"); w.leaf("identifier", c.b); w.gap(); w.tok("."); w.gap(); w.leaf("field_identifier", c.ch); w.close(); } w.close(); }
    w.sp(); w.tok(")"); w.close(); w.close(); }
static Program generate(Rng& r, int file) {
    Program p; W w(r, 2 + (int)r.below(6)); w.airy = r.chance(1, 3); static const char* T[] = {"SourceBlock", "SinkBlock", "FanoutBlock", "SourceCWBlock", "switchGainBlock", "PlotCSpectrumBlock", "ADSBDecoderBlock", "my_block", "BlockOfMine", "AddBlock"}; static const char* V[] = {"source", "sink", "gain", "fanout", "adder", "plot", "usrp", "demod", "s", "x1", "cw_source", "block", "_b"};
    static const char* CH[] = {"in", "in", "in", "in2", "force_in", "measured_position_in", "in_", "IQ"}; static const char* FL[] = {"desktop", "desktop", "freertos", "zephyr", "threadx", "my_own"};
    size_t nb = 1 + r.below(r.chance(1, 10) ? 40 : 8); std::set<string> used; vector<MBlock> bs;
    for (size_t i = 0; i < nb; ++i) { MBlock b; b.var = V[r.below(sizeof V / sizeof *V)]; while (!used.insert(b.var).second) b.var += r.chance(1, 2) ? std::to_string(r.below(10)) : "_x"; b.type = T[r.below(sizeof T / sizeof *T)]; b.is_tpl = r.chance(1, 2); b.glob = r.chance(1, 6); bs.push_back(b); }
    size_t nc = nb > 1 ? r.below(2 * nb) : 0; std::set<MConn> seen; for (size_t i = 0; i < nc; ++i) { MConn c{bs[r.below(nb)].var, bs[r.below(nb)].var, CH[r.below(sizeof CH / sizeof *CH)], r.chance(1, 2) ? (int)r.below(r.chance(1, 10) ? 300 : 4) : -1}; if (seen.insert(c).second) p.conns.push_back(c); }
    bool out_of_graph = r.chance(1, 4); string spare; for (auto& b : bs) { p.blocks[b.var] = b; } if (out_of_graph) { MBlock b; b.var = "spare"; while (used.count(b.var)) b.var += "_"; b.type = "SinkNullBlock"; spare = b.var; bs.push_back(b); p.blocks[b.var] = b; }
    static const char* F[] = {"demo.cpp", "a/b/demo.cpp", "./my.flow.cpp", "/tmp/x y/demo.cpp", "noext", "dir.d/noext"}; p.name = F[r.below(6)]; (void)file;
    auto incl = [&](const char* s) { w.open("preproc_include"); w.tok("#include"); w.raw(" "); w.leaf("system_lib_string", s); w.raw("\n"); w.close(); };
    if (r.chance(1, 12)) w.raw(string(100 + r.below(70000), '\n')); if (r.chance(1, 2)) w.comment(), w.raw("\n"); incl("<cler.hpp>"); incl("<BlockRunner.hpp>"); if (r.chance(1, 2)) { w.open("using_declaration"); w.tok("using"); w.raw(" "); w.open("qualified_identifier"); w.leaf("namespace_identifier", "cler"); w.tok("::"); w.leaf("identifier", "BlockRunner"); w.close(); w.tok(";"); w.close(); w.raw("\n"); }
    if (r.chance(1, 4)) { w.open("struct_specifier"); w.tok("struct"); w.raw(" "); w.leaf("type_identifier", "GhostBlock"); w.raw(" "); w.open("field_declaration_list"); w.tok("{"); w.raw(" "); w.open("field_declaration"); w.open("qualified_identifier"); w.leaf("namespace_identifier", "cler"); w.tok("::"); w.open("template_type"); w.leaf("type_identifier", "Channel"); w.open("template_argument_list"); w.tok("<"); w.open("type_descriptor"); w.leaf("primitive_type", "float"); w.close(); w.tok(">"); w.close(); w.close(); w.close(); w.raw(" "); w.leaf("field_identifier", "in"); w.tok(";"); w.close(); w.tok("}"); w.close(); w.close(); w.tok(";"); w.raw("\n"); }
    for (auto& b : bs) if (b.glob) declare_block(w, p.blocks[b.var]);
    w.open("function_definition"); w.leaf("primitive_type", "int"); w.raw(" "); w.open("function_declarator"); w.leaf("identifier", "main"); w.open("parameter_list"); w.tok("("); w.tok(")"); w.close(); w.close(); w.raw(" "); w.open("compound_statement"); w.tok("{"); w.raw("\n    ");
    int deep = r.chance(1, 4) ? (int)r.below(4) : 0; for (int k = 0; k < deep; ++k) { w.open("compound_statement"); w.tok("{"); w.raw(" "); }
    for (auto& b : bs) { while (r.chance(1, 3)) distract(w); if (!b.glob) declare_block(w, p.blocks[b.var]); }
    while (r.chance(1, 3)) distract(w);
    bool qual = r.chance(3, 4), direct = r.chance(1, 6); vector<string> order; for (auto& b : bs) if (b.var != spare) order.push_back(b.var); for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
    vector<string> named; if (r.chance(1, 4)) for (auto& o : order) if (r.chance(1, 4)) { w.open("declaration"); w.leaf("placeholder_type_specifier", "auto"); w.raw(" "); w.open("init_declarator"); w.leaf("identifier", "r_" + o); w.raw(" "); w.tok("="); w.raw(" "); runner(w, p, o, qual); w.close(); w.tok(";"); w.close(); w.raw("\n    "); named.push_back(o); }
    auto args = [&](const char* l, const char* rr) { w.tok(l); bool first = true; for (auto& o : order) { if (!first) { w.sp(); w.tok(","); } first = false; w.sp(true); if (std::find(named.begin(), named.end(), o) != named.end()) w.leaf("identifier", "r_" + o); else runner(w, p, o, qual); } w.sp(); w.tok(rr); };
    if (direct) { w.open("declaration"); w.open("qualified_identifier"); w.leaf("namespace_identifier", "cler"); w.tok("::"); w.open("template_type"); w.leaf("type_identifier", "FlowGraph"); w.open("template_argument_list"); w.tok("<"); w.open("type_descriptor"); w.leaf("type_identifier", "Policy"); w.close(); w.tok(">"); w.close(); w.close(); w.close(); w.raw(" "); w.open("init_declarator"); w.leaf("identifier", "fg"); w.open("argument_list"); args("(", ")"); w.close(); w.close(); w.tok(";"); w.close(); }
    else { p.flow = FL[r.below(6)]; string fn = "make_" + p.flow + "_flowgraph"; w.open("declaration"); w.leaf("placeholder_type_specifier", "auto"); w.raw(" "); w.open("init_declarator"); w.leaf("identifier", "flowgraph"); w.raw(" "); w.tok("="); w.sp(true); w.open("call_expression"); if (qual || r.chance(1, 2)) { w.open("qualified_identifier"); w.leaf("namespace_identifier", "cler"); w.tok("::"); w.leaf("identifier", fn); w.close(); } else w.leaf("identifier", fn); w.open("argument_list"); args("(", ")"); w.close(); w.close(); w.close(); w.tok(";"); w.close(); }
    w.raw("\n    "); w.open("expression_statement"); w.open("call_expression"); w.open("field_expression"); w.leaf("identifier", "flowgraph"); w.tok("."); w.leaf("field_identifier", "run"); w.close(); w.open("argument_list"); w.tok("("); w.tok(")"); w.close(); w.close(); w.tok(";"); w.close(); while (r.chance(1, 4)) { w.raw("\n    "); distract(w); }
    for (int k = 0; k < deep; ++k) { w.tok("}"); w.close(); w.raw("\n"); } w.raw("\n"); w.tok("}"); w.close(); w.close(); w.raw("\n"); w.close(); p.root = std::move(w.root); p.root->e = (uint32_t)w.out.size(); p.text = w.out; for (auto& o : order) p.order.push_back(o); return p;
}
static void judge(const Program& p, const cler::FlowGraph& g) {
    if (!g.is_valid) { bad("cpp:valid", "rejected: %s\n%s", g.error_message.c_str(), p.text.substr(0, 1200).c_str()); return; }
    string want = p.flow.empty() ? p.name : p.flow; if (p.flow.empty()) { size_t s = want.find_last_of('/'); if (s != string::npos) want = want.substr(s + 1); s = want.find(".cpp"); if (s != string::npos) want.resize(s); } if (g.name != want) bad("cpp:name", "flowgraph is named '%s', not '%s'", g.name.c_str(), want.c_str());
    for (auto& [v, b] : p.blocks) { auto it = g.blocks.find(v); if (it == g.blocks.end()) { bad("cpp:blocks", "block %s %s was not found", b.type.c_str(), v.c_str()); continue; } auto& o = it->second; if (o.name != v || o.type != b.type || o.template_params != b.tpl) bad("cpp:blocks", "block %s<%s> %s became %s<%s> %s", b.type.c_str(), b.tpl.c_str(), v.c_str(), o.type.c_str(), o.template_params.c_str(), o.name.c_str());
        if (o.line != (int)b.line || o.column != (int)b.col) bad("cpp:place", "block %s stands at %u:%u, reported at %d:%d", v.c_str(), b.line, b.col, o.line, o.column); bool in = b.used; for (auto& c : p.conns) in |= c.b == v; if (o.in_flowgraph != in) bad("cpp:member", "block %s is%s part of the flowgraph, reported as%s", v.c_str(), in ? "" : " not", in ? " not" : "");
        std::multiset<string> wi, wo, gi(o.inputs.begin(), o.inputs.end()), go(o.outputs.begin(), o.outputs.end()); std::set<string> di; for (auto& c : p.conns) { if (c.b == v) di.insert(c.idx >= 0 ? c.ch + "[" + std::to_string(c.idx) + "]" : c.ch); if (c.a == v && wo.empty()) wo.insert("out"); } wi.insert(di.begin(), di.end()); if (gi != wi || go.size() != wo.size()) bad("cpp:channels", "block %s has %d inputs and %d outputs, reported %d and %d", v.c_str(), (int)wi.size(), (int)wo.size(), (int)gi.size(), (int)go.size()); }
    for (auto& [v, b] : g.blocks) if (!p.blocks.count(v)) bad("cpp:blocks", "invented block %s %s", b.type.c_str(), v.c_str());
    std::multiset<MConn> a(p.conns.begin(), p.conns.end()), b; for (auto& c : g.connections) b.insert({c.source_block, c.target_block, c.target_channel, c.channel_index});
    for (auto& c : a) if (b.count(c) != 1) bad("cpp:connections", "connection %s -> %s.%s[%d] found %d times", c.a.c_str(), c.b.c_str(), c.ch.c_str(), c.idx, (int)b.count(c)); for (auto& c : b) if (!a.count(c)) bad("cpp:connections", "invented connection %s -> %s.%s[%d]", c.a.c_str(), c.b.c_str(), c.ch.c_str(), c.idx);
}
static uint64_t sig_of(const Program& p) { uint64_t h = 7; for (char c : p.text) h = vmon::mix(h, (unsigned char)c); return h; }
static void c_extract(uint64_t i, Rng& r) {
    uint64_t sig = 3, nb = 0, nc = 0; string sh; {
        cler::CppParser parser; int files = 1 + (int)r.below(4);
        for (int f = 0; f < files; ++f) { Program p = generate(r, f); CTX = vmon::fmt("source %llu.%d (%s, %d blocks, %d connections)", (unsigned long long)i, f, p.name.c_str(), (int)p.blocks.size(), (int)p.conns.size()); trees().clear(); trees()[p.text] = p.root.get();
            if (r.chance(1, 20)) { g_fail_parse = true; auto g = parser.parse_file(p.text, p.name); g_fail_parse = false; if (g.is_valid || g.error_message.empty()) bad("cpp:valid", "a file that cannot be parsed is reported as valid"); }
            if (!cler::CppParser::is_flowgraph_file(p.text)) bad("cpp:screen", "a file with a flowgraph is not recognised"); char* m = (char*)malloc(p.text.size()); memcpy(m, p.text.data(), p.text.size()); string copy(m, p.text.size()); free(m);
            judge(p, parser.parse_file(copy, p.name)); if (g_trees) bad("cpp:left", "%d syntax trees left", g_trees); nb += p.blocks.size(); nc += p.conns.size(); sig = vmon::mix(sig, sig_of(p)); vmon::tick(); } }
    if (g_parsers) bad("cpp:left", "%d parsers left", g_parsers); vmon::stat("blocks_declared", (double)nb); vmon::stat("connections_declared", (double)nc); vmon::evals(); vmon::nontrivial(sig);
}
// ---- the command: files in, one diagram per file out
static void c_tool(uint64_t i, Rng& r) {
    string dir = string(getenv("VMON_SCRATCH") ? getenv("VMON_SCRATCH") : "/tmp") + vmon::fmt("/t%llu", (unsigned long long)i); (void)!system(("mkdir -p '" + dir + "/out' '" + dir + "/in.d'").c_str()); char cwd[4096]; if (!getcwd(cwd, sizeof cwd) || chdir((dir + "/out").c_str())) return; trees().clear();
    int n = 1 + (int)r.below(4); bool o = n == 1 && r.chance(1, 2), verbose = r.chance(1, 2); vector<Program> ps; vector<string> args = {"cler-mermaid"}, outs; vector<int> kind; std::set<string> taken; if (verbose && r.chance(1, 2)) args.push_back("-v"); uint64_t sig = 5; int failed = 0;
    for (int k = 0; k < n; ++k) { Program p = generate(r, k); static const char* B[] = {"demo", "my.flow", "noext", "a b", "h-1", "x.y.z"}; string base = B[r.below(6)]; while (!taken.insert(base).second) base += "1"; bool ext = r.chance(3, 4) && base != "noext"; string file = base + (ext ? r.chance(1, 2) ? ".cpp" : ".hpp" : ""); bool rel = r.chance(1, 3); string path = rel ? file : r.chance(1, 2) ? "../in.d/" + file : dir + "/in.d/" + file;
        int kd = r.chance(1, 8) ? 1 : r.chance(1, 8) ? 2 : 0; string txt = kd == 1 ? "int main() { return 0; }\n" : p.text; if (kd != 2) { std::ofstream(path) << txt; } else { failed++; }
        string stem = file; size_t d = file.find_last_of('.'); if (d != string::npos) stem = file.substr(0, d); outs.push_back(stem + "_flowgraph.md"); kind.push_back(kd); args.push_back(path); ps.push_back(std::move(p)); }
    for (auto& p : ps) trees()[p.text] = p.root.get(); bool nowhere = o && r.chance(1, 3); if (o) { args.push_back("-o"); args.push_back(nowhere ? r.chance(1, 2) ? "missing/res" : "full" : "res"); outs[0] = args.back() + ".md"; if (args.back() == "full") (void)!symlink("/dev/full", "full.md"); if (nowhere && kind[0] == 0) failed++, kind[0] = 3; } if (verbose && args[1] != "-v") args.push_back("--verbose");
    vector<char*> av; for (auto& a : args) av.push_back(&a[0]); av.push_back(nullptr); std::ostringstream so, se; auto* c1 = std::cout.rdbuf(so.rdbuf()); auto* c2 = std::cerr.rdbuf(se.rdbuf()); string cmd;  for (auto& a : args) cmd += (cmd.empty() ? "" : " ") + a; CTX = vmon::fmt("command %llu '%s'", (unsigned long long)i, cmd.c_str());
    int rc = mermaid_main((int)av.size() - 1, av.data()); std::cout.rdbuf(c1); std::cerr.rdbuf(c2);
    if (rc != (failed ? 1 : 0)) bad("tool:exit", "exit status %d with %d files unreadable or not writable; %s", rc, failed, se.str().substr(0, 300).c_str());
    std::map<string, int> last; for (int k = 0; k < n; ++k) if (!kind[k]) last[outs[k]] = k;
    for (auto& [f, k] : last) { std::ifstream in(f); if (!in) { bad("tool:output", "no file %s was written", f.c_str()); continue; } std::stringstream b; b << in.rdbuf(); string t = b.str(); if (t.find("```mermaid") == string::npos) bad("tool:output", "%s holds no diagram", f.c_str()); size_t lines = 0, pos = 0; while ((pos = t.find("-->", pos)) != string::npos) lines++, pos += 3; std::set<MConn> cs(ps[k].conns.begin(), ps[k].conns.end()); if (lines > cs.size() || (!cs.empty() && !lines)) bad("tool:output", "%s draws %d arrows for %d connections", f.c_str(), (int)lines, (int)cs.size()); for (auto& [v, blk] : ps[k].blocks) if (blk.used && t.find(v) == string::npos) bad("tool:output", "%s does not show block %s", f.c_str(), v.c_str()); vmon::stat("diagrams_read", 1); }
    for (int k = 0; k < n; ++k) { if (kind[k] && !nowhere && !last.count(outs[k]) && !access(outs[k].c_str(), F_OK)) bad("tool:output", "a diagram was written for a file without a flowgraph"); sig = vmon::mix(sig, sig_of(ps[k]) + (uint64_t)kind[k]); }
    if (chdir(cwd)) {} (void)!system(("rm -rf '" + dir + "'").c_str()); vmon::evals(); vmon::nontrivial(sig);
}
int main(int argc, char** argv) { return vmon::run(argc, argv, {{"extract", c_extract}, {"tool", c_tool}}); }
