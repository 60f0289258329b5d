#include "../rosstub.h"
