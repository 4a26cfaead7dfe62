#include "DotnetTypes.h"
#include "DotNetLibrarySupport.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <math.h>
#include <time.h>
#include <wchar.h>
#include <unistd.h>
using namespace DotnetLibrary;
#define CHECK(c) do { if (!(c)) { printf("FAILED %s\n", #c); return 1; } } while (0)
int main() { DateTimeValue v(DateTime(2000, 1, 1)); DateTime d = v.AddMilliseconds(-2.5); CHECK(d.value == DateTime(2000, 1, 1).value - 30000); return 0; }
