#pragma once
#include "shim_scalars.h"
