// The program under test, as a function.
#include "buildcc.h"
#define main buildexe_main
#include "buildexe.cpp"
