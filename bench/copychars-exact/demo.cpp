#include "DotnetTypes.h"
#include "DotNetLibrarySupport.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <math.h>
#include <time.h>
#include <wchar.h>
#include <unistd.h>
using namespace DotnetLibrary;
#define CHECK(c) do { if (!(c)) { printf("FAILED %s\n", #c); return 1; } } while (0)
int main() { Char b[4] = {7, 7, 7, 7}; String s(L"abc"); Object o; Char c[8]; for (int i = 0; i < 8; ++i) c[i] = 7; o.FormatString(c, 6); CHECK(c[5] == 0 && c[6] == 7); return 0; }
