#include "DotnetTypes.h"
#include "DotNetLibrarySupport.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <math.h>
#include <time.h>
#include <wchar.h>
#include <unistd.h>
using namespace DotnetLibrary;
#define CHECK(c) do { if (!(c)) { printf("FAILED %s\n", #c); return 1; } } while (0)
int main() { String a(L"1.25"), b(L"1x25"); Double d; CHECK(DoubleValue::TryParse(&a, d)); CHECK(!DoubleValue::TryParse(&b, d)); return 0; }
