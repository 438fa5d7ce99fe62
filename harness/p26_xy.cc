#define HZ_PART 1
#include "p26.h"
