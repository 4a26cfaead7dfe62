#include "DotnetTypes.h"
#include "DotNetLibrarySupport.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <math.h>
#include <time.h>
#include <wchar.h>
#include <unistd.h>
using namespace DotnetLibrary;
#define CHECK(c) do { if (!(c)) { printf("FAILED %s\n", #c); return 1; } } while (0)
int main() { Char c[] = {L'a', L'b', L'c', L'd', L'e'}; Array a(c, CharType, 5); String s(&a, 3); CHECK(s.get_Length() == 2); return 0; }
