#include "DotnetTypes.h"
#include "DotNetLibrarySupport.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <math.h>
#include <time.h>
#include <wchar.h>
#include <unistd.h>
using namespace DotnetLibrary;
#define CHECK(c) do { if (!(c)) { printf("FAILED %s\n", #c); return 1; } } while (0)
int main() { try { Array a(ByteType, 65536, 16384, 4); } catch (ArgumentOutOfRangeException *) { return 0; } return 1; }
