// Simulated window system, OpenGL, ImGui and ImPlot for the window manager: every call is checked against
// the state it needs and recorded.
#pragma once
#include <cstring>
#include <string>
#include <vector>
#include <map>
struct GLFWwindow { int w, h, fbw, fbh; std::string title; bool close = false, alive = true, forces = false; };
namespace guisim {
struct St {
    int init = 0, windows = 0; bool fail_init = false, fail_window = false; GLFWwindow* current = nullptr; GLFWwindow* last = nullptr; std::map<int, int> hints; int interval = -1;
    int imgui = 0, implot = 0; GLFWwindow* be_glfw = nullptr; bool be_gl = false, callbacks = false;
    int phase = 0;              // 0 outside a frame, 1 begun, 2 rendered, 3 handed to the back end
    bool nf_gl = false, nf_glfw = false, polled = false, cleared = false; int vw = -1, vh = -1; bool scissor = false;
    uint64_t frames = 0, polls = 0, swaps = 0, calls = 0; std::vector<std::string> errors; std::string throw_at; bool close_at_poll = false; int next_fbw = 0, next_fbh = 0; bool multisample = false;
    void need(bool c, const char* what) { calls++; if (!c && errors.size() < 8) errors.push_back(what); }
};
St& st();
}
