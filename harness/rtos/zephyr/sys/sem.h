#pragma once
#include "../kernel.h"
