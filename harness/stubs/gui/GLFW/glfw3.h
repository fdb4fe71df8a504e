#pragma once
#include <stdint.h>
#include "../sim.hpp"
#define GLFW_TRUE 1
#define GLFW_FALSE 0
#define GLFW_CONTEXT_VERSION_MAJOR 0x00022002
#define GLFW_CONTEXT_VERSION_MINOR 0x00022003
#define GLFW_OPENGL_FORWARD_COMPAT 0x00022006
#define GLFW_OPENGL_PROFILE 0x00022008
#define GLFW_OPENGL_CORE_PROFILE 0x00032001
#define GLFW_SAMPLES 0x0002100D
#define GLFW_RESIZABLE 0x00020003
#define GLFW_VISIBLE 0x00020004
#define GL_MULTISAMPLE 0x809D
#define GL_COLOR_BUFFER_BIT 0x00004000
#define GL_DEPTH_BUFFER_BIT 0x00000100
typedef unsigned int GLenum; typedef unsigned int GLbitfield; typedef int GLint; typedef int GLsizei; typedef float GLfloat;
typedef struct GLFWmonitor GLFWmonitor; typedef void (*GLFWerrorfun)(int, const char*);
int glfwInit(void); void glfwTerminate(void); void glfwWindowHint(int, int); void glfwDefaultWindowHints(void); GLFWwindow* glfwCreateWindow(int, int, const char*, GLFWmonitor*, GLFWwindow*); void glfwDestroyWindow(GLFWwindow*);
void glfwMakeContextCurrent(GLFWwindow*); GLFWwindow* glfwGetCurrentContext(void); void glfwSwapInterval(int); void glfwPollEvents(void); void glfwGetFramebufferSize(GLFWwindow*, int*, int*); void glfwGetWindowSize(GLFWwindow*, int*, int*); void glfwSwapBuffers(GLFWwindow*); int glfwWindowShouldClose(GLFWwindow*); void glfwSetWindowShouldClose(GLFWwindow*, int); void glfwSetWindowTitle(GLFWwindow*, const char*); GLFWerrorfun glfwSetErrorCallback(GLFWerrorfun);
void glEnable(GLenum); void glDisable(GLenum); void glViewport(GLint, GLint, GLsizei, GLsizei); void glClearColor(GLfloat, GLfloat, GLfloat, GLfloat); void glClear(GLbitfield); void glFinish(void); void glFlush(void);
