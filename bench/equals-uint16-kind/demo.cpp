#include "DotnetTypes.h"
#include "DotNetLibrarySupport.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <math.h>
#include <time.h>
#include <wchar.h>
#include <unistd.h>
using namespace DotnetLibrary;
#define CHECK(c) do { if (!(c)) { printf("FAILED %s\n", #c); return 1; } } while (0)
int main() { UInt16Value v(5); for (int k = 0; k < 2; ++k) { Object *o = k ? (Object*) new Int16Value(5) : (Object*) new Int32Value(5); if (((Object*) &v)->Equals(o)) return 1; } return 0; }
