#include "DotnetTypes.h"
#include "DotNetLibrarySupport.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <math.h>
#include <time.h>
#include <wchar.h>
#include <unistd.h>
using namespace DotnetLibrary;
#define CHECK(c) do { if (!(c)) { printf("FAILED %s\n", #c); return 1; } } while (0)
int main() { String a(L"1.2:3:4"), b(L"10:20"); TimeSpan t; TimeSpanValue::Parse(&a); CHECK(TimeSpanValue::TryParse(&b, t)); CHECK(t.value == 372000000000ll); return 0; }
