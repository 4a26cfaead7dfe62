#include "DotnetTypes.h"
#include "DotNetLibrarySupport.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <math.h>
#include <time.h>
#include <wchar.h>
#include <unistd.h>
using namespace DotnetLibrary;
#define CHECK(c) do { if (!(c)) { printf("FAILED %s\n", #c); return 1; } } while (0)
int main() { Int16 d[] = {1,2,3,4,5}; Array a(d, Int16Type, 5); Array::Copy(&a, 0, &a, 1, 4); CHECK(d[1]==1 && d[2]==2 && d[3]==3 && d[4]==4); return 0; }
