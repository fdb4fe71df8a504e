// Stand-in for Dear ImGui: enough to compile and run the repository's render functions.  Drawing is counted, inputs are scripted.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdarg>
#include <cfloat>
#include <string>
struct ImVec2 { float x = 0, y = 0; ImVec2() = default; ImVec2(float a, float b) : x(a), y(b) {} };
struct ImVec4 { float x = 0, y = 0, z = 0, w = 0; ImVec4() = default; ImVec4(float a, float b, float c, float d) : x(a), y(b), z(c), w(d) {} };
using ImU32 = uint32_t; using ImGuiWindowFlags = int; using ImGuiCond = int; using ImGuiMouseButton = int; using ImGuiID = uint32_t;
enum { ImGuiCond_FirstUseEver = 4, ImGuiCond_Always = 1, ImGuiWindowFlags_NoMove = 4, ImGuiWindowFlags_NoResize = 2, ImGuiWindowFlags_NoCollapse = 32, ImGuiMouseButton_Left = 0, ImGuiMouseButton_Right = 1 };
#define IM_COL32(R, G, B, A) (((ImU32)(A) << 24) | ((ImU32)(B) << 16) | ((ImU32)(G) << 8) | (ImU32)(R))
namespace imstub { struct State { uint64_t lines = 0, triangles = 0, texts = 0, windows = 0; int open = 0; bool drag[2] = {false, false}; ImVec2 delta{}; bool button = false; bool slide = false; float slider = 0; uint64_t bad = 0; std::string last_text; }; inline State& st() { static thread_local State s; return s; } inline void fin(const ImVec2& v) { if (!(v.x == v.x && v.y == v.y)) st().bad++; } }
struct ImDrawList {
    void AddRectFilled(ImVec2 a, ImVec2 b, ImU32) { imstub::fin(a); imstub::fin(b); }
    void AddRect(ImVec2 a, ImVec2 b, ImU32) { imstub::fin(a); imstub::fin(b); }
    void AddLine(ImVec2 a, ImVec2 b, ImU32, float = 1) { imstub::fin(a); imstub::fin(b); imstub::st().lines++; }
    void AddTriangleFilled(ImVec2 a, ImVec2 b, ImVec2 c, ImU32) { imstub::fin(a); imstub::fin(b); imstub::fin(c); imstub::st().triangles++; }
    void AddTriangle(ImVec2, ImVec2, ImVec2, ImU32, float = 1) {}
    void AddText(ImVec2 a, ImU32, const char* t) { imstub::fin(a); imstub::st().texts++; imstub::st().last_text = t; }
    void PushClipRect(ImVec2, ImVec2, bool = false) {} void PopClipRect() {}
};
struct ImGuiIO { ImVec2 MousePos; float MouseWheel = 0; ImVec2 DisplaySize{1400, 800}; float DeltaTime = 0.016f; };
namespace ImGui {
inline void SetNextWindowSize(ImVec2, ImGuiCond = 0) {} inline void SetNextWindowPos(ImVec2, ImGuiCond = 0) {}
inline bool Begin(const char*, bool* = nullptr, ImGuiWindowFlags = 0) { imstub::st().windows++; imstub::st().open++; return true; } inline void End() { imstub::st().open--; }
inline ImVec2 GetCursorScreenPos() { return {0, 0}; } inline ImVec2 GetContentRegionAvail() { return {1000, 700}; } inline void SetCursorScreenPos(ImVec2) {}
inline ImDrawList* GetWindowDrawList() { static thread_local ImDrawList d; return &d; }
inline void Text(const char* f, ...) { char b[512]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); imstub::st().last_text = b; }
inline void TextUnformatted(const char*) {} inline void SameLine(float = 0, float = -1) {} inline void Separator() {}
inline bool Button(const char*, ImVec2 = {}) { return imstub::st().button; }
inline ImGuiIO& GetIO() { static thread_local ImGuiIO io; return io; }
inline bool IsMouseDragging(ImGuiMouseButton b, float = -1) { return imstub::st().drag[b & 1]; } inline ImVec2 GetMouseDragDelta(ImGuiMouseButton = 0, float = -1) { return imstub::st().delta; } inline void ResetMouseDragDelta(ImGuiMouseButton = 0) {}
inline ImU32 GetColorU32(ImVec4) { return 0; }
inline bool Checkbox(const char*, bool* v) { if (imstub::st().button) *v = !*v; return imstub::st().button; }
inline bool SliderInt(const char*, int*, int, int, const char* = "%d", int = 0) { return false; } inline bool SliderFloat(const char*, float* v, float, float, const char* = "%.3f", int = 0) { if (imstub::st().slide) *v = imstub::st().slider; return imstub::st().slide; } inline void SetTooltip(const char*, ...) {}
inline bool InputInt(const char*, int*, int = 1, int = 100, int = 0) { return false; }
inline void PushID(const char*) {} inline void PushID(int) {} inline void PopID() {} inline void SetNextItemWidth(float) {}
inline void BeginGroup() {} inline void EndGroup() {} inline bool IsItemHovered(int = 0) { return false; }
inline ImVec2 CalcTextSize(const char*) { return {10, 10}; }
} // namespace ImGui
