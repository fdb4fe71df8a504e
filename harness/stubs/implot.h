// Stand-in for ImPlot: what is plotted is handed to the test.
#pragma once
#include "imgui.h"
#include <functional>
typedef int ImPlotAxisFlags; typedef int ImPlotFlags; typedef int ImAxis; typedef int ImPlotCond; typedef int ImPlotColormap; typedef int ImPlotLineFlags; typedef int ImPlotHeatmapFlags;
enum { ImPlotAxisFlags_None = 0, ImPlotAxisFlags_NoLabel = 1, ImPlotAxisFlags_Lock = 1 << 14 | 1 << 15, ImPlotAxisFlags_AutoFit = 1 << 11 }; enum { ImAxis_X1 = 0, ImAxis_X2, ImAxis_X3, ImAxis_Y1, ImAxis_Y2, ImAxis_Y3 }; enum { ImPlotColormap_Deep = 0, ImPlotColormap_Viridis = 4, ImPlotColormap_Plasma = 5, ImPlotColormap_Jet = 9 }; enum { ImPlotCond_None = 0, ImPlotCond_Always = 1, ImPlotCond_Once = 2 };
struct ImPlotPoint { double x = 0, y = 0; ImPlotPoint() = default; ImPlotPoint(double a, double b) : x(a), y(b) {} };
namespace implotstub { struct State { int open = 0, colormaps = 0; bool show = true; int plots = 0; std::function<void(const char*, const float*, const float*, int)> line; std::function<void(const char*, const float*, int, int, ImPlotPoint, ImPlotPoint)> heat; double lim[6][2] = {}; }; inline State& st() { static thread_local State s; return s; } }
namespace ImPlot {
inline bool BeginPlot(const char*, ImVec2 = ImVec2(-1, 0), ImPlotFlags = 0) { if (implotstub::st().show) { implotstub::st().open++; implotstub::st().plots++; } return implotstub::st().show; } inline void EndPlot() { implotstub::st().open--; }
inline void SetupAxis(ImAxis, const char* = nullptr, ImPlotAxisFlags = 0) {} inline void SetupAxes(const char*, const char*, ImPlotAxisFlags = 0, ImPlotAxisFlags = 0) {} inline void SetupAxisLimits(ImAxis a, double lo, double hi, ImPlotCond = 0) { implotstub::st().lim[a][0] = lo; implotstub::st().lim[a][1] = hi; } inline void SetupAxesLimits(double, double, double, double, ImPlotCond = 0) {}
inline void PlotLine(const char* l, const float* x, const float* y, int n, ImPlotLineFlags = 0, int = 0, int = sizeof(float)) { if (implotstub::st().line) implotstub::st().line(l, x, y, n); }
inline void PlotHeatmap(const char* l, const float* v, int rows, int cols, double = 0, double = 0, const char* = "%.1f", const ImPlotPoint& a = ImPlotPoint(0, 0), const ImPlotPoint& b = ImPlotPoint(1, 1), ImPlotHeatmapFlags = 0) { if (implotstub::st().heat) implotstub::st().heat(l, v, rows, cols, a, b); }
inline void PushColormap(ImPlotColormap) { implotstub::st().colormaps++; } inline void PopColormap(int n = 1) { implotstub::st().colormaps -= n; }
}
