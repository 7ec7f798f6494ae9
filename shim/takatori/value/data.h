#pragma once
#include "shim_values.h"
