// The diagram tool's command, callable from h_cppparse.cpp.
#include <string>
#include <iostream>
#include <fstream>
#include <sstream>
#include <vector>
#define main mermaid_main
#include "main.cpp"
