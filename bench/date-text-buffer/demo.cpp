#include "DotnetTypes.h"
#include "DotNetLibrarySupport.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <math.h>
#include <time.h>
#include <wchar.h>
#include <unistd.h>
using namespace DotnetLibrary;
#define CHECK(c) do { if (!(c)) { printf("FAILED %s\n", #c); return 1; } } while (0)
int main() { DateTimeValue v(DateTime(2001, 2, 3, 1, 2, 3)); Char b[40]; try { v.FormatString(b, 19); } catch (Exception *) { return 0; } return 1; }
