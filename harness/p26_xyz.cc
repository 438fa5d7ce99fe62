#define HZ_PART 2
#include "p26.h"
