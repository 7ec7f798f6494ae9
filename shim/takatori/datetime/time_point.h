#pragma once
#include "conversion.h"
