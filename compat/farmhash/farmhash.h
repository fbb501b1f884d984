#include "/usr/include/farmhash.h"
