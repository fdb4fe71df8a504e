#pragma once
#include <stdint.h>
#include "sim.hpp"
struct ImGuiContext; struct ImDrawData { int valid; }; struct ImFontAtlas; struct ImGuiIO { int ConfigFlags = 0; }; enum { ImGuiConfigFlags_DockingEnable = 128 };
struct ImGuiStyle { bool AntiAliasedLines = false, AntiAliasedLinesUseTex = false, AntiAliasedFill = false; };
#define IMGUI_CHECKVERSION() ((void)0)
namespace ImGui { ImGuiContext* CreateContext(ImFontAtlas* = nullptr); void DestroyContext(ImGuiContext* = nullptr); ImGuiContext* GetCurrentContext(); void StyleColorsDark(ImGuiStyle* = nullptr); ImGuiStyle& GetStyle(); ImGuiIO& GetIO(); void NewFrame(); void EndFrame(); void Render(); ImDrawData* GetDrawData(); }
