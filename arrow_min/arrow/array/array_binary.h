#pragma once
#include "arrow/mini_array.h"
