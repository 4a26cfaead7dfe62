#include "DotnetTypes.h"
#include "DotNetLibrarySupport.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <math.h>
#include <time.h>
#include <wchar.h>
#include <unistd.h>
using namespace DotnetLibrary;
#define CHECK(c) do { if (!(c)) { printf("FAILED %s\n", #c); return 1; } } while (0)
int main() { Int32 s[] = {1,2,3}, d[] = {0,0,9}; Array a(s, Int32Type, 3), b(d, Int32Type, 2); try { Array::Copy(&a, 1, &b, 1, 2); } catch (Exception *) { return d[2] == 9 ? 0 : 1; } return 1; }
