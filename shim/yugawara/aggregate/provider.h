#pragma once
#include "../impl/decls.h"
