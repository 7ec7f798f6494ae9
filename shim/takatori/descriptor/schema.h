#pragma once
#include "shim_descriptors.h"
