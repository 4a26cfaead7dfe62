#include "DotnetTypes.h"
#include "DotNetLibrarySupport.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <math.h>
#include <time.h>
#include <wchar.h>
#include <unistd.h>
using namespace DotnetLibrary;
#define CHECK(c) do { if (!(c)) { printf("FAILED %s\n", #c); return 1; } } while (0)
int main() { DateTimeValue v(DateTime(987, 2, 3, 1, 2, 3)); String e(L"2/3/987 1:02:03 AM"); CHECK(v.ToString()->Equals(&e)); return 0; }
