#define HZ_PART 3
#include "p26.h"
