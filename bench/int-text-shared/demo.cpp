#include "DotnetTypes.h"
#include "DotNetLibrarySupport.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <math.h>
#include <time.h>
#include <wchar.h>
#include <unistd.h>
using namespace DotnetLibrary;
#define CHECK(c) do { if (!(c)) { printf("FAILED %s\n", #c); return 1; } } while (0)
int main() { String* a = UInt64Value(12345678901234567890ull).ToString(); String* b = UInt64Value(9999999999999999999ull).ToString(); String e(L"12345678901234567890"); CHECK(a->Equals(&e)); CHECK(!b->Equals(&e)); return 0; }
