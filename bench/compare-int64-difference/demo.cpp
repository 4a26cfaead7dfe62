#include "DotnetTypes.h"
#include "DotNetLibrarySupport.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <math.h>
#include <time.h>
#include <wchar.h>
#include <unistd.h>
using namespace DotnetLibrary;
#define CHECK(c) do { if (!(c)) { printf("FAILED %s\n", #c); return 1; } } while (0)
int main() { Int64Value v(-5000000000ll); CHECK(v.CompareTo((Int64) -20000000000ll) > 0); Int64Value w(5000000000ll); CHECK(w.CompareTo((Int64) 10000000000ll) < 0); return 0; }
