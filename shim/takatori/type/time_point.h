#pragma once
#include "shim_types.h"
