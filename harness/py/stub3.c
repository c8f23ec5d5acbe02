#define VP_3D
#include "stub.h"
