#pragma once
#include "shim_statements.h"
