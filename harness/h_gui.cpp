// Window manager of the plots (C36): the real gui_manager.cpp on a simulated GLFW, OpenGL, ImGui and ImPlot
// that check, call by call, that what the call needs is there.
#include "gui/gui_manager.hpp"
#include "imgui_impl_glfw.h"
#include "imgui_impl_opengl3.h"
#include "vmon.hpp"
#include <cstdarg>
#include <memory>
using std::string; using std::vector; using vmon::Rng;
namespace guisim { St& st() { static St s; return s; } }
static guisim::St& S() { return guisim::st(); }
static string& ctx() { static string s; vmon::ctxp() = &s; return s; }
static void bad(const char* key, const char* f, ...) __attribute__((format(printf, 2, 3)));
static void bad(const char* key, const char* f, ...) { char b[1024]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); vmon::violation(key, "%s: %s", ctx().c_str(), b); }
#define NEED(c, what) S().need((c), what)
static bool live(GLFWwindow* w) { return w && w == S().last && S().windows > 0; }
// ---- GLFW: every function but glfwInit needs the library, window functions a live window, GL a current context
int glfwInit() { S().calls++; if (S().fail_init) return 0; S().init++; return 1; }
void glfwTerminate() { S().calls++; if (S().init > 0) { if (S().windows) { delete S().last; S().last = nullptr; S().windows = 0; S().current = nullptr; NEED(!S().be_glfw, "library terminated under a live back end"); } S().init = 0; S().hints.clear(); } }
void glfwWindowHint(int h, int v) { NEED(S().init > 0, "window hint without library"); S().hints[h] = v; }
void glfwDefaultWindowHints() { NEED(S().init > 0, "window hints without library"); S().hints.clear(); }
GLFWwindow* glfwCreateWindow(int w, int h, const char* t, GLFWmonitor*, GLFWwindow*) { NEED(S().init > 0, "window without library"); string title(t); if (S().fail_window || S().init <= 0) return nullptr; NEED(S().windows == 0, "second window"); GLFWwindow* x = new GLFWwindow{w, h, S().next_fbw, S().next_fbh, title}; S().last = x; S().windows++; return x; }
void glfwDestroyWindow(GLFWwindow* w) { if (!w) return; NEED(live(w), "destroyed a window that is not there"); if (!live(w)) return; NEED(S().be_glfw != w, "window destroyed under a live back end"); if (S().current == w) S().current = nullptr; delete w; S().last = nullptr; S().windows--; }
void glfwMakeContextCurrent(GLFWwindow* w) { NEED(!w || live(w), "context of a window that is not there"); S().current = w; }
GLFWwindow* glfwGetCurrentContext() { return S().current; }
void glfwSwapInterval(int i) { NEED(S().current, "swap interval without a context"); S().interval = i; }
void glfwPollEvents() { NEED(S().init > 0, "events polled without library"); NEED(S().phase == 0, "events polled within a frame"); S().polls++; S().polled = true; if (S().last) { S().last->fbw = S().next_fbw; S().last->fbh = S().next_fbh; if (S().close_at_poll) S().last->close = true; } }
void glfwGetFramebufferSize(GLFWwindow* w, int* a, int* b) { NEED(live(w), "size of a window that is not there"); *a = w->fbw; *b = w->fbh; }
void glfwGetWindowSize(GLFWwindow* w, int* a, int* b) { NEED(live(w), "size of a window that is not there"); *a = w->w; *b = w->h; }
void glfwSwapBuffers(GLFWwindow* w) { NEED(live(w), "buffers of a window that is not there"); NEED(S().phase == 3, "buffers swapped before the frame was drawn"); NEED(S().current == w, "buffers swapped without a context"); S().swaps++; S().phase = 0; S().cleared = S().nf_gl = S().nf_glfw = S().polled = false; S().vw = -1; }
int glfwWindowShouldClose(GLFWwindow* w) { NEED(live(w), "close flag of a window that is not there"); return w->close; }
void glfwSetWindowShouldClose(GLFWwindow* w, int v) { NEED(live(w), "close flag of a window that is not there"); w->close = v; }
void glfwSetWindowTitle(GLFWwindow* w, const char* t) { NEED(live(w), "title of a window that is not there"); w->title = t; }
GLFWerrorfun glfwSetErrorCallback(GLFWerrorfun) { return nullptr; }
#define GLCTX NEED(S().current != nullptr, "OpenGL call without a context")
void glEnable(GLenum e) { GLCTX; if (e == GL_MULTISAMPLE) S().multisample = true; } void glDisable(GLenum e) { GLCTX; if (e == GL_MULTISAMPLE) S().multisample = false; } void glViewport(GLint x, GLint y, GLsizei w, GLsizei h) { GLCTX; NEED(x == 0 && y == 0, "view port off the origin"); S().vw = w; S().vh = h; } void glClearColor(GLfloat, GLfloat, GLfloat, GLfloat) { GLCTX; } void glFinish() { GLCTX; } void glFlush() { GLCTX; }
void glClear(GLbitfield m) { GLCTX; NEED(S().phase < 3, "cleared behind the drawing"); NEED(S().vw < 0 || S().phase != 2 || (S().last && S().vw == S().last->fbw), "cleared with the wrong view port"); if (m & GL_COLOR_BUFFER_BIT) S().cleared = true; }
// ---- ImGui, ImPlot and the two back ends
static ImGuiStyle g_style; static ImGuiIO g_io; static ImDrawData g_dd{0};
namespace ImGui {
ImGuiContext* CreateContext(ImFontAtlas*) { NEED(S().imgui == 0, "second GUI context"); S().imgui++; g_style = ImGuiStyle(); return (ImGuiContext*)&g_style; }
void DestroyContext(ImGuiContext*) { NEED(S().imgui == 1, "GUI context destroyed that is not there"); NEED(!S().be_glfw && !S().be_gl, "GUI context destroyed under a live back end"); NEED(S().implot == 0, "GUI context destroyed under the plot context"); S().imgui = 0; }
ImGuiContext* GetCurrentContext() { return S().imgui ? (ImGuiContext*)&g_style : nullptr; }
void StyleColorsDark(ImGuiStyle*) { NEED(S().imgui == 1, "style without a GUI context"); } ImGuiStyle& GetStyle() { NEED(S().imgui == 1, "style without a GUI context"); return g_style; } ImGuiIO& GetIO() { return g_io; }
void NewFrame() { NEED(S().imgui == 1, "frame without a GUI context"); NEED(S().phase == 0, "frame begun within a frame"); NEED(S().nf_gl && S().nf_glfw, "frame begun before the back ends'"); S().phase = 1; S().frames++; g_dd.valid = 0; }
void EndFrame() { NEED(S().phase == 1, "no frame to end"); }
void Render() { NEED(S().phase == 1, "no frame to render"); S().phase = 2; g_dd.valid = 1; }
ImDrawData* GetDrawData() { NEED(S().phase >= 2, "drawing data before rendering"); return &g_dd; }
}
namespace ImPlot { ImPlotContext* CreateContext() { NEED(S().imgui == 1, "plot context without a GUI context"); NEED(S().implot == 0, "second plot context"); S().implot++; return (ImPlotContext*)&g_io; } void DestroyContext(ImPlotContext*) { NEED(S().implot == 1, "plot context destroyed that is not there"); S().implot = 0; } }
bool ImGui_ImplGlfw_InitForOpenGL(GLFWwindow* w, bool cb) { NEED(S().imgui == 1, "back end without a GUI context"); NEED(live(w), "back end without a window"); NEED(!S().be_glfw, "window back end set up twice"); S().be_glfw = w; S().callbacks = cb; return true; }
void ImGui_ImplGlfw_Shutdown() { NEED(S().be_glfw && live(S().be_glfw), "window back end shut down that is not there"); S().be_glfw = nullptr; }
void ImGui_ImplGlfw_NewFrame() { NEED(S().be_glfw, "frame without the window back end"); S().nf_glfw = true; }
bool ImGui_ImplOpenGL3_Init(const char* v) { GLCTX; NEED(S().imgui == 1, "back end without a GUI context"); NEED(!S().be_gl, "drawing back end set up twice"); NEED(!v || (!strncmp(v, "#version ", 9) && atoi(v + 9) <= 330), "shader version beyond the context's"); S().be_gl = true; return true; }
void ImGui_ImplOpenGL3_Shutdown() { GLCTX; NEED(S().be_gl, "drawing back end shut down that is not there"); S().be_gl = false; }
void ImGui_ImplOpenGL3_NewFrame() { GLCTX; NEED(S().be_gl, "frame without the drawing back end"); S().nf_gl = true; }
void ImGui_ImplOpenGL3_RenderDrawData(ImDrawData* d) { GLCTX; NEED(S().phase == 2 && d && d->valid, "drawing data of no frame"); NEED(S().be_gl, "drawn without the drawing back end"); NEED(S().cleared, "drawn on the last frame's picture"); NEED(S().last && S().vw == S().last->fbw && S().vh == S().last->fbh, "drawn with the wrong view port"); if (S().phase == 2) S().phase = 3; }

static void flush(const char* when) { for (auto& e : S().errors) bad("gui:order", "%s: %s", when, e.c_str()); S().errors.clear(); }
static void all_gone(const char* when) { auto& s = S(); if (s.init || s.windows || s.imgui || s.implot || s.be_glfw || s.be_gl) bad("gui:left", "%s: library %d, windows %d, GUI contexts %d, plot contexts %d, back ends %d%d left", when, s.init, s.windows, s.imgui, s.implot, s.be_glfw != nullptr, s.be_gl); }
static void c_window(uint64_t i, Rng& r) {
    auto& s = S(); uint64_t sig = 1, frames = 0, refused = 0; int rounds = 1 + (int)r.below(4); string trace;
    for (int q = 0; q < rounds; ++q) {
        ctx() = vmon::fmt("window case %llu, round %d", (unsigned long long)i, q); int w = 1 + (int)r.below(4000), h = 1 + (int)r.below(3000); size_t len = r.chance(1, 8) ? 0 : r.below(60); string want; for (size_t k = 0; k < len; ++k) want += (char)r.range(32, 126);
        // the title is a view into a longer text, or ends where its memory ends
        bool part = r.chance(1, 2); size_t tail = part ? 1 + r.below(20) : 0; char* mem = (char*)malloc(len + tail + (len + tail == 0)); memcpy(mem, want.data(), len); memset(mem + len, 'x', tail);
        s.fail_init = r.chance(1, 10); s.fail_window = r.chance(1, 8); bool expect = !s.fail_init && !s.fail_window; s.next_fbw = w * (1 + (int)r.below(2)); s.next_fbh = h * (1 + (int)r.below(2)); s.close_at_poll = false; s.interval = -1; s.multisample = false;
        std::unique_ptr<cler::GuiManager> g; bool dflt = r.chance(1, 10); if (dflt) { w = 800; h = 400; want = "DSP Blocks"; }
        try { if (dflt) g.reset(new cler::GuiManager()); else g.reset(new cler::GuiManager(w, h, std::string_view(mem, len))); if (!expect) bad("gui:ctor", "%s failed without an exception", s.fail_init ? "the library" : "the window"); } catch (const std::exception& e) { if (expect) bad("gui:ctor", "refused: %s", e.what()); if (!*e.what()) bad("gui:ctor", "exception without a text"); refused++; }
        free(mem); flush("construction"); if (!g) { all_gone("after a refused construction"); trace += 'x'; continue; }
        if (!s.last) { bad("gui:window", "no window"); return; }
        if (s.last->title != want) bad("gui:title", "title '%s', asked for '%s'", s.last->title.c_str(), want.c_str()); if (s.last->w != w || s.last->h != h) bad("gui:size", "window of %d x %d, asked for %d x %d", s.last->w, s.last->h, w, h);
        if (s.hints[GLFW_CONTEXT_VERSION_MAJOR] * 10 + s.hints[GLFW_CONTEXT_VERSION_MINOR] < 33) bad("gui:context", "OpenGL %d.%d asked for, the shaders need 3.3", s.hints[GLFW_CONTEXT_VERSION_MAJOR], s.hints[GLFW_CONTEXT_VERSION_MINOR]); if (s.interval != 1) bad("gui:vsync", "buffers are swapped with an interval of %d", s.interval);
        if (s.imgui != 1 || s.implot != 1 || s.be_glfw != s.last || !s.be_gl || !s.callbacks) bad("gui:setup", "set up incompletely: GUI %d, plots %d, window back end %d, drawing back end %d, input %d", s.imgui, s.implot, s.be_glfw == s.last, s.be_gl, s.callbacks);
        int n = (int)r.below(30); bool closed = false; if (r.chance(1, 6) && g->should_close()) bad("gui:close", "asked to close from the start");
        for (int k = 0; k < n; ++k) {
            s.close_at_poll = r.chance(1, 12); closed |= s.close_at_poll; if (r.chance(1, 4)) { s.next_fbw = (int)r.below(5000); s.next_fbh = (int)r.below(4000); } uint64_t p0 = s.polls, f0 = s.frames, s0 = s.swaps;
            g->begin_frame(); if (s.polls != p0 + 1) bad("gui:events", "events polled %d times for a frame", (int)(s.polls - p0)); if (s.phase != 1 || s.frames != f0 + 1) bad("gui:frame", "no frame was begun"); flush("begin_frame"); if (r.chance(1, 2) && g->should_close() != closed) bad("gui:close", "should_close is %d, the window's flag %d", !closed, closed);
            g->end_frame(); if (s.swaps != s0 + 1 || s.phase != 0) bad("gui:frame", "a frame was shown %d times", (int)(s.swaps - s0)); flush("end_frame"); if (g->should_close() != closed) bad("gui:close", "should_close is %d, the window's flag %d", !closed, closed);
            if (r.chance(1, 20)) { s.last->close = closed = !closed; if (g->should_close() != closed) bad("gui:close", "should_close is %d, the window's flag %d", !closed, closed); }
            frames++; sig = vmon::mix(sig, s.next_fbw * 4 + closed); vmon::tick(); }
        if (r.chance(1, 8)) { g->begin_frame(); flush("begin_frame"); s.phase = 0; s.nf_gl = s.nf_glfw = s.polled = false; trace += 'h'; } // given up within a frame
        if (!s.multisample && !s.errors.empty()) bad("gui:order", "%s", s.errors[0].c_str());
        g.reset(); flush("destruction"); all_gone("after destruction"); s.phase = 0; s.cleared = false; s.vw = -1; trace += 'w'; sig = vmon::mix(sig, w * 3 + h + len); }
    vmon::stat("frames_shown", (double)frames); vmon::stat("constructions_refused", (double)refused); vmon::stat("calls_checked", (double)s.calls); s.calls = 0; vmon::evals(); vmon::nontrivial(sig); vmon::sample("case %llu: rounds %s, %llu frames", (unsigned long long)i, trace.c_str(), (unsigned long long)frames);
}
int main(int argc, char** argv) { return vmon::run(argc, argv, {{"window", c_window}}); }
