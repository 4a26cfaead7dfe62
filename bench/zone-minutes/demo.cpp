#include "DotnetTypes.h"
#include "DotNetLibrarySupport.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <math.h>
#include <time.h>
#include <wchar.h>
#include <unistd.h>
using namespace DotnetLibrary;
#define CHECK(c) do { if (!(c)) { printf("FAILED %s\n", #c); return 1; } } while (0)
int main() { for (int k = 1; k < 60; ++k) { char b[20]; sprintf(b, "XXX3:%02d", k); setenv("TZ", b, 1); DateTimeValue v(DateTime(2000, 1, 2)); DateTime d = v.ToLocalTime(); CHECK(DateTime(2000, 1, 2).value - d.value == (3 * 60 + k) * 600000000ull); } return 0; }
