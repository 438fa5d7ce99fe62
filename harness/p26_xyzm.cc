#define HZ_PART 4
#include "p26.h"
