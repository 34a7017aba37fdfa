// Rank-side helpers shared by the scenarios. Uses only what the headers of the code under test publish.
#ifndef CHECK_COMMON_H
#define CHECK_COMMON_H
#include "vmc.h"
#include <math.h>
#include <string.h>
#include <string>
#include <vector>
extern "C" int vmc_argc(void);
extern "C" char** vmc_argv(void);
#endif
