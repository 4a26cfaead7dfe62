#include "DotnetTypes.h"
#include "DotNetLibrarySupport.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <math.h>
#include <time.h>
#include <wchar.h>
#include <unistd.h>
using namespace DotnetLibrary;
#define CHECK(c) do { if (!(c)) { printf("FAILED %s\n", #c); return 1; } } while (0)
int main() { DateTimeValue v(DateTime(2001, 2, 3, 12, 59, 5)); String e(L"2/3/2001 12:59:05 PM"); CHECK(v.ToString()->Equals(&e)); return 0; }
