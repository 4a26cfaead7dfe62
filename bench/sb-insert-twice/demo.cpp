#include "DotnetTypes.h"
#include "DotNetLibrarySupport.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <math.h>
#include <time.h>
#include <wchar.h>
#include <unistd.h>
using namespace DotnetLibrary;
#define CHECK(c) do { if (!(c)) { printf("FAILED %s\n", #c); return 1; } } while (0)
int main() { String s(L"ab"), t(L"x"); StringBuilder sb(&t); sb.Insert(0, &s, 3); String e(L"abababx"); CHECK(sb.ToString()->Equals(&e)); return 0; }
