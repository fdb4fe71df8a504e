#pragma once
struct GLFWwindow; bool ImGui_ImplGlfw_InitForOpenGL(GLFWwindow*, bool install_callbacks); void ImGui_ImplGlfw_Shutdown(); void ImGui_ImplGlfw_NewFrame();
